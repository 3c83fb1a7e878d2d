------------------------------- MODULE MCCurve -------------------------------
(***************************************************************************)
(* The curve over a small field (of 43 elements, where it has 31 points, or *)
(* of 67, where it has 79): the equations define the sum (one and only one point   *)
(* is the sum of two), it is that of a group, the machine reaches the      *)
(* multiples which adding again and again does, and signatures work.       *)
(***************************************************************************)
EXTENDS Curve, Integers, FiniteSets
CONSTANTS M, N, GX, GY
VARIABLES p, q

F == 0..(M - 1)
IsF(x) == x \in F
FPlus(a, b) == (a + b) % M
FLess(a, b) == (a - b + M) % M
FTimes(a, b) == (a * b) % M
Odd(a) == a % 2 = 1
SumN(a, b) == a + b
BelowN(a, b) == a < b
Same(a) == a
G == << GX, GY >>

\* tables, made once
ASSUME TLCSet(1, {Infinity} \union {t \in F \X F : OnCurve(t[1], t[2])})
All == TLCGet(1)
ASSUME TLCSet(2, TLCEval([t \in All \X All |-> CHOOSE r \in All : IsSum(t[1], t[2], r)]))
Sums == TLCGet(2)
ASSUME Cardinality(All) = N
ASSUME G \in All
MInit == Init /\ p \in All /\ q \in All
\* one more multiple: the least number which is not known, up to beyond the order
Grow(t) == LET k == CHOOSE k \in 2..(N + 3) : ~Knows(t, k) /\ \A j \in 2..(k - 1) : Knows(t, j)
           IN /\ k <= N + 2
              /\ \E a \in {k \div 2, 1, k - 2}, r \in All : Mult(t, k, r, a, k - a)
MNext == \/ /\ q = Infinity
            /\ Grow(p)
            /\ UNCHANGED << p, q >>

\* the sum is a function, and that of a group
IsFunction == Cardinality({r \in All : IsSum(p, q, r)}) = 1
Closed == \A x \in F, y \in F : IsSum(p, q, << x, y >>) => << x, y >> \in All
Commutes == Sums[<< p, q >>] = Sums[<< q, p >>]
Associates == \A r \in All : Sums[<< Sums[<< p, q >>], r >>] = Sums[<< p, Sums[<< q, r >>] >>]
HasOpposite == Sums[<< p, Opposite(p) >>] = Infinity
\* multiples by adding again and again
RECURSIVE Adding(_, _)
Adding(t, k) == IF k = 0 THEN Infinity ELSE Sums[<< Adding(t, k - 1), t >>]
Multiples == \A t \in DOMAIN known : \A k \in DOMAIN known[t] : known[t][k] = Adding(t, k % N)
\* a lift exists or its witness does, never both
Lifts == \A x \in F : (\E y \in F : OnCurve(x, y)) # (\E w \in F : Sq(w) = FLess(0, FPlus(Cube(x), Seven)) /\ FPlus(Cube(x), Seven) # 0)

\* signatures as the textbook makes them are signatures, by the key and by no other
ASSUME TLCSet(3, TLCEval([k \in 0..(N - 1) |-> Adding(G, k)]))
Tab == TLCGet(3)
Inv(a) == CHOOSE b \in 1..(N - 1) : (a * b) % N = 1
MultOf(t, k) == LET i == CHOOSE i \in 0..(N - 1) : Tab[i] = t IN Tab[(i * k) % N]
Signs == p \notin {Infinity} => \A d \in 1..(N - 1), e \in {0, 1, 2, N - 1, N + 1} :
  LET k == CHOOSE k \in 1..(N - 1) : Tab[k] = p
      r == p[1]
      s == (Inv(k) * (e + r * d)) % N
  IN (q = G /\ r % N # 0 /\ s # 0) =>
       {x \in All : x # Infinity /\ IsSum(Tab[e % N], MultOf(x, r), MultOf(p, s))} = {Tab[d]}
=============================================================================
