------------------------------- MODULE MCField -------------------------------
(***************************************************************************)
(* The arithmetic of Field against arithmetic that is plainly right: bytes *)
(* (BigNum), products by doubling and adding, remainders by subtracting.   *)
(* Arguments lie at the edges: all digits or pieces zeros or ones, near p. *)
(***************************************************************************)
EXTENDS Field, Integers, Sequences, TLC
Num == INSTANCE BigNum
CONSTANT All      \* all pairs, or those with one of a few
VARIABLES a, b

\* a number of twenty digits, as bytes
Bytes(x) == LET RECURSIVE Go(_, _)
                Go(i, acc) == IF i = 0 THEN acc ELSE Go(i - 1, Num!AddSmall(Num!MulSmall(acc, Base), x[i]))
            IN Go(Width, << >>)
\* p = 2^256 - 2^32 - 977
PrimeBytes == Num!Sub(<< 1 >> \o Num!Zeros(32), << 1, 0, 0, 3, 209 >>)
RECURSIVE Mod(_)
Mod(x) == IF Num!Cmp(x, PrimeBytes) < 0 THEN x ELSE Mod(Num!Sub(x, PrimeBytes))
SumP(x, y) == Mod(Num!Add(x, y))
Bit(y, i) == (y[Len(y) - (i \div 8)] \div (2 ^ (i % 8))) % 2
Patterns == {FZero, FSmall(1), FSmall(2), FSmall(8191), [FZero EXCEPT ![2] = 1], [FZero EXCEPT ![20] = 256], [FZero EXCEPT ![20] = 511],
             [i \in 1..Width |-> IF i = 20 THEN 511 ELSE IF i % 2 = 0 THEN 8191 ELSE 0],
             [i \in 1..Width |-> IF i % 2 = 0 THEN 0 ELSE 8191],
             [i \in 1..Width |-> IF i = 20 THEN 511 ELSE IF i < 4 THEN 0 ELSE 8191],
             [i \in 1..Width |-> IF i = 20 THEN 1 ELSE (i * 3001) % 8192]}
Values == Patterns \union {FNeg(x) : x \in Patterns}
Init == a \in {x \in Values : IsElement(x)} /\ b = FZero
Next == b = FZero /\ b' \in {x \in (IF All THEN Values ELSE {FNeg(FSmall(1)), [FZero EXCEPT ![20] = 511], FNeg([FZero EXCEPT ![2] = 1])}) : IsElement(x)} /\ a' = a

\* x times y, bit by bit, the most significant one first
RECURSIVE Walk(_, _, _, _)
Walk(acc, x, y, i) == IF i < 0 THEN acc
                      ELSE LET d == SumP(acc, acc) IN Walk(IF Bit(y, i) = 1 THEN SumP(d, x) ELSE d, x, y, i - 1)

PrimeIs == Bytes(Prime) = PrimeBytes
Sums == IsElement(FPlus(a, b)) /\ Bytes(FPlus(a, b)) = SumP(Bytes(a), Bytes(b))
Differences == FPlus(FLess(a, b), b) = a /\ IsElement(FLess(a, b))
Products == IsElement(FTimes(a, b)) /\ Bytes(FTimes(a, b)) = Walk(<< >>, Bytes(a), Bytes(b), 8 * Len(Bytes(b)) - 1)
=============================================================================
