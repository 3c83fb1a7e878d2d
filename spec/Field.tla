-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* The field of integers modulo p = 2^256 - 2^32 - 977.                    *)
(*                                                                         *)
(* A number is twenty digits of 13 bits, least significant first: sums of  *)
(* twenty products of digits fit the 32-bit integers of TLC.  Elements of  *)
(* the field are the numbers below p.                                      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Base == 8192
Width == 20
FZero == [i \in 1..Width |-> 0]
FSmall(k) == [FZero EXCEPT ![1] = k]

\* p, digit by digit: 2^256 is bit 9 of the last digit, 2^32 is bit 6 of the third
LOCAL Borrow(s) == FoldLeft(LAMBDA a, d : IF d + a[2] < 0 THEN << Append(a[1], d + a[2] + Base), -1 >>
                                          ELSE << Append(a[1], d + a[2]), 0 >>, << << >>, 0 >>, s)[1]
Prime == TLCEval(Borrow([FZero EXCEPT ![1] = -977, ![3] = -64, ![Width] = 512]))

\* digits of any size made digits below Base; the rest becomes more digits
RECURSIVE More(_)
More(c) == IF c = 0 THEN << >> ELSE << c % Base >> \o More(c \div Base)
LOCAL Carry(s) ==
  LET r == FoldLeft(LAMBDA a, d : LET t == d + a[2] IN << Append(a[1], t % Base), t \div Base >>, << << >>, 0 >>, s)
  IN TLCEval(r[1] \o More(r[2]))

LOCAL At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
\* what lies beyond 2^260 comes back times 2^36 + 15632
RECURSIVE Fold(_)
Fold(s) ==
  IF Len(s) <= Width THEN s
  ELSE LET w == IF Len(s) - Width + 2 > Width THEN Len(s) - Width + 2 ELSE Width
       IN Fold(Carry([i \in 1..w |-> (IF i <= Width THEN s[i] ELSE 0)
                                     + At(s, Width + i) * 15632
                                     + (IF i > 2 THEN At(s, Width + i - 2) * 1024 ELSE 0)]))
\* -1, 0, 1 for numbers of twenty digits
LOCAL Cmp(a, b) == LET d == {i \in 1..Width : a[i] # b[i]}
                   IN IF d = {} THEN 0
                      ELSE LET i == CHOOSE i \in d : \A j \in d : j <= i IN IF a[i] < b[i] THEN -1 ELSE 1
LOCAL Minus(a, b) == Borrow([i \in 1..Width |-> a[i] - b[i]])
\* the top digit holds the bits from 247: what lies beyond 2^256 comes back times 2^32 + 977
LOCAL Reduce(s) ==
  LET f == Fold(s)
      g == f \o [i \in 1..(Width - Len(f)) |-> 0]
      t == g[Width] \div 512
      h == IF t = 0 THEN g ELSE Carry([g EXCEPT ![1] = @ + 977 * t, ![3] = @ + 64 * t, ![Width] = @ % 512])
  IN IF Cmp(h, Prime) >= 0 THEN Minus(h, Prime) ELSE h

IsElement(a) == /\ DOMAIN a = 1..Width
                /\ \A i \in 1..Width : a[i] \in 0..(Base - 1)
                /\ Cmp(a, Prime) < 0

FPlus(a, b) == Reduce(Carry([i \in 1..Width |-> a[i] + b[i]]))
FNeg(a) == IF a = FZero THEN a ELSE Minus(Prime, a)
FLess(a, b) == FPlus(a, FNeg(b))

\* the pairs of digits which meet in digit k of a product
LOCAL Pairs == TLCEval([k \in 1..(2 * Width - 1) |->
                 LET lo == IF k > Width THEN k - Width + 1 ELSE 1
                     hi == IF k > Width THEN Width ELSE k
                 IN [i \in 1..(hi - lo + 1) |-> lo + i - 1]])
FTimes(a, b) == Reduce(Carry([k \in 1..(2 * Width - 1) |->
                                FoldLeft(LAMBDA s, i : s + a[i] * b[k + 1 - i], 0, Pairs[k])]))
=============================================================================
