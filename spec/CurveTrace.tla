----------------------------- MODULE CurveTrace -----------------------------
(***************************************************************************)
(* Curve over the field of Field, with the generator and the order of      *)
(* secp256k1; scalars are bytes (BigNum).                                  *)
(***************************************************************************)
EXTENDS Curve, Field, TraceLib
VARIABLE l
Num == INSTANCE BigNum

SevenF == FSmall(7)
OddF(a) == a[1] % 2 = 1
\* bytes, most significant first, as an element of the field (they stand for a number below 2^256)
Elem(b) == LET n == Len(b)
               At(i) == IF i <= n THEN b[n + 1 - i] ELSE 0         \* byte i from the end
               Bits(k) == LET lo == (k - 1) * 13
                              i == (lo \div 8) + 1
                              s == lo % 8
                          IN ((At(i) + 256 * At(i + 1) + 65536 * At(i + 2)) \div (2 ^ s)) % 8192
           IN [k \in 1..Width |-> Bits(k)]
NumF(a) == LET RECURSIVE Go(_, _)
               Go(i, acc) == IF i = 0 THEN acc ELSE Go(i - 1, Num!AddSmall(Num!MulSmall(acc, Base), a[i]))
           IN Go(Width, << >>)
OneN == << 1 >>
NoughtN == << >>
SumN(a, b) == Num!Add(a, b)
BelowN(a, b) == Num!Cmp(a, b) < 0
OrderN == << 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254,
             186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65 >>
G == << Elem(<< 121, 190, 102, 126, 249, 220, 187, 172, 85, 160, 98, 149, 206, 135, 11, 7,
                2, 155, 252, 219, 45, 206, 40, 217, 89, 242, 129, 91, 22, 248, 23, 152 >>),
        Elem(<< 72, 58, 218, 119, 38, 163, 196, 101, 93, 164, 251, 252, 14, 17, 8, 168,
                253, 23, 180, 72, 166, 133, 84, 25, 156, 71, 208, 143, 251, 16, 212, 184 >>) >>
ASSUME IsElement(G[1]) /\ IsElement(G[2]) /\ OnCurve(G[1], G[2])

Ev == Events[l]
\* points are bytes, << >> for infinity
Pt(p) == IF p = << >> THEN p ELSE << Elem(p[1]), Elem(p[2]) >>
N(b) == Num!Strip(b)
Step ==
  CASE Ev.op = "reset" -> known' = << >>
    [] Ev.op = "mult" -> Mult(Pt(Ev.p), N(Ev.k), Pt(Ev.r), N(Ev.a), N(Ev.b))
    [] Ev.op = "basemult" -> BaseMult(N(Ev.k), Pt(Ev.r), N(Ev.a), N(Ev.b))
    [] Ev.op = "add" -> Add(Pt(Ev.p), Pt(Ev.q), Pt(Ev.r))
    [] Ev.op = "double" -> Double(Pt(Ev.p), Pt(Ev.r))
    [] Ev.op = "check" -> Check(Elem(Ev.x), Elem(Ev.y), Ev.ok)
    [] Ev.op = "lift" -> Lift(Elem(Ev.x), Ev.odd, Elem(Ev.y), Elem(Ev.w))
    [] Ev.op = "pubkey" -> PublicKey(N(Ev.d), Pt(Ev.q))
    [] Ev.op = "sign" -> Sign(N(Ev.d), N(Ev.rn), N(Ev.s), Ev.v = 1, N(Ev.e), Pt(Ev.rp)) /\ Ev.v \in {0, 1}
    [] Ev.op = "recover" -> Recover(N(Ev.rn), N(Ev.s), Ev.v = 1, N(Ev.e), Pt(Ev.rp), Pt(Ev.q)) /\ Ev.v \in {0, 1}
    [] Ev.op = "refuse" -> Refuse(N(Ev.rn), N(Ev.s), Ev.v, N(Ev.e), Elem(Ev.x), Pt(Ev.rp), Elem(Ev.w))
    [] OTHER -> FALSE
TInit == known = << >> /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<known, l>>
=============================================================================
