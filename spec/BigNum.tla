------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers of any size, as big-endian sequences of bytes without   *)
(* leading zeros (zero is the empty sequence).  Small factors have to be   *)
(* below 2^22, for TLC's integers have 32 bits.                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

Strip(b) == LET nz == {i \in 1..Len(b) : b[i] # 0}
            IN IF nz = {} THEN << >> ELSE SubSeq(b, CHOOSE i \in nz : \A j \in nz : i <= j, Len(b))
Zeros(n) == [i \in 1..n |-> 0]
PadLeft(b, n) == Zeros(n - Len(b)) \o b
PadRight(b, n) == b \o Zeros(n - Len(b))

\* small numbers
RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN << >> ELSE Append(FromNat(n \div 256), n % 256)
ToNat(b) == FoldLeft(LAMBDA a, x : a * 256 + x, 0, b)

\* carry arithmetic, least significant byte last
MulSmall(b, k) ==
  LET r == FoldRight(LAMBDA x, a : << << (x * k + a[2]) % 256 >> \o a[1], (x * k + a[2]) \div 256 >>, b, << << >>, 0 >>)
  IN Strip(FromNat(r[2]) \o r[1])
AddSmall(b, k) ==
  LET r == FoldRight(LAMBDA x, a : << << (x + a[2]) % 256 >> \o a[1], (x + a[2]) \div 256 >>, b, << << >>, k >>)
  IN Strip(FromNat(r[2]) \o r[1])
\* quotient and remainder
DivSmall(b, k) ==
  LET r == FoldLeft(LAMBDA a, x : << Append(a[1], (a[2] * 256 + x) \div k), (a[2] * 256 + x) % k >>, << << >>, 0 >>, b)
  IN << Strip(r[1]), r[2] >>

Add(a, b) ==
  LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
      p == PadLeft(a, n)
      q == PadLeft(b, n)
      r == FoldRight(LAMBDA i, acc : << << (p[i] + q[i] + acc[2]) % 256 >> \o acc[1], (p[i] + q[i] + acc[2]) \div 256 >>,
                     [i \in 1..n |-> i], << << >>, 0 >>)
  IN Strip(r[1])
\* a - b for a >= b
Sub(a, b) ==
  LET n == Len(a)
      q == PadLeft(b, n)
      r == FoldRight(LAMBDA i, acc : LET d == a[i] - q[i] - acc[2]
                                     IN << << (d + 256) % 256 >> \o acc[1], IF d < 0 THEN 1 ELSE 0 >>,
                     [i \in 1..n |-> i], << << >>, 0 >>)
  IN Strip(r[1])

\* -1, 0, 1
Cmp(a, b) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE LET d == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF d = {} THEN 0
          ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
=============================================================================
