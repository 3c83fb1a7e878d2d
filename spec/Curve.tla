-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The group of the points of y^2 = x^3 + 7 over a field, as a machine     *)
(* which remembers the multiples of points it has seen.  A multiple is     *)
(* known when it is the sum of two multiples that are: k P = a P + b P     *)
(* where k = a + b, from 0 P, the point at infinity, and 1 P = P.  Sums    *)
(* are never computed: a point is recognised as the sum of two others by   *)
(* the equations of the chord and of the tangent, without divisions.       *)
(*                                                                         *)
(* The field is a parameter, so that the same text is checked over a small *)
(* field with all its points and bound to the code over the large one.     *)
(***************************************************************************)
EXTENDS Sequences, TLC
CONSTANTS IsField(_), Plus(_, _), Less(_, _), Times(_, _), Zero, Seven, IsOdd(_), Generator
\* numbers (scalars), which are not elements of the field: their sum, nought, one, the order of the generator, comparison,
\* and the number which an element of the field stands for
CONSTANTS SumOf(_, _), Nought, One, Order, Below(_, _), Number(_)

VARIABLE known      \* point -> number -> point

Infinity == << >>
Sq(a) == Times(a, a)
Cube(a) == Times(Sq(a), a)
Twice(a) == Plus(a, a)
Thrice(a) == Plus(Twice(a), a)

OnCurve(x, y) == Sq(y) = Plus(Cube(x), Seven)
IsPoint(p) == p = Infinity \/ (Len(p) = 2 /\ IsField(p[1]) /\ IsField(p[2]) /\ OnCurve(p[1], p[2]))
Opposite(p) == IF p = Infinity THEN p ELSE << p[1], Less(Zero, p[2]) >>

\* r is the sum of p and q (three points of the curve)
IsSum(p, q, r) ==
  IF p = Infinity THEN r = q
  ELSE IF q = Infinity THEN r = p
  ELSE IF p = Opposite(q) THEN r = Infinity
  ELSE /\ r # Infinity
       /\ IsField(r[1])
       /\ IsField(r[2])
       \* the slope of the line is up over along
       /\ LET up == IF p = q THEN Thrice(Sq(p[1])) ELSE Less(q[2], p[2])
              along == IF p = q THEN Twice(p[2]) ELSE Less(q[1], p[1])
          IN /\ Times(Plus(Plus(p[1], q[1]), r[1]), Sq(along)) = Sq(up)
             /\ Times(Plus(r[2], p[2]), along) = Times(up, Less(p[1], r[1]))

-----------------------------------------------------------------------------
Init == known = << >>

Knows(p, k) == k \in {Nought, One} \/ (p \in DOMAIN known /\ k \in DOMAIN known[p])
Multiple(p, k) == IF k = Nought THEN Infinity ELSE IF k = One THEN p ELSE known[p][k]

\* the points themselves
Add(p, q, r) == /\ IsPoint(p)
                /\ IsPoint(q)
                /\ IsSum(p, q, r)
                /\ UNCHANGED known
Double(p, r) == Add(p, p, r)
Check(x, y, ok) == /\ IsField(x)
                   /\ IsField(y)
                   /\ ok = OnCurve(x, y)
                   /\ UNCHANGED known
\* the point with coordinate x whose other coordinate is odd, or not; where there is none, the opposite of x^3 + 7
\* is a square (the field has 3 mod 4 elements), of witness: then anything may come out
Lift(x, odd, y, witness) ==
  /\ IsField(x)
  /\ LET c == Plus(Cube(x), Seven)
     IN IF c # Zero /\ Sq(witness) = Less(Zero, c) THEN TRUE
        ELSE /\ IsField(y)
             /\ Sq(y) = c
             /\ IsOdd(y) = odd
  /\ UNCHANGED known

\* k p = r, for k = a + b
Mult(p, k, r, a, b) ==
  /\ IsPoint(p)
  /\ IF Knows(p, k) THEN /\ r = Multiple(p, k)
                         /\ UNCHANGED known
     ELSE /\ k = SumOf(a, b)
          /\ Knows(p, a)
          /\ Knows(p, b)
          /\ IsSum(Multiple(p, a), Multiple(p, b), r)
          /\ known' = IF p \in DOMAIN known THEN [known EXCEPT ![p] = (k :> r) @@ @]
                      ELSE (p :> (k :> r)) @@ known
BaseMult(k, r, a, b) == Mult(Generator, k, r, a, b)

-----------------------------------------------------------------------------
\* signatures: (r, s, odd) is one of hash e by the key of point q when s R = e G + r q, for the point R of coordinate r
\* (the element of the field whose number is rn), odd or not
InRange(rn, s) == /\ rn # Nought
                  /\ s # Nought
                  /\ Below(rn, Order)
                  /\ ~Below(Order, SumOf(s, s))
Signed(rn, s, odd, e, rp, q) ==
  /\ InRange(rn, s)
  /\ IsPoint(rp)
  /\ IsPoint(q)
  /\ rp # Infinity
  /\ q # Infinity
  /\ Number(rp[1]) = rn
  /\ IsOdd(rp[2]) = odd
  /\ Knows(rp, s)
  /\ Knows(q, rn)
  /\ Knows(Generator, e)
  /\ IsSum(Multiple(Generator, e), Multiple(q, rn), Multiple(rp, s))

\* the point which signed
Recover(rn, s, odd, e, rp, q) == /\ Signed(rn, s, odd, e, rp, q)
                                 /\ UNCHANGED known
\* there is none: numbers out of range, no point with coordinate r (then witness shows it), or the point at infinity
Refuse(rn, s, parity, e, x, rp, witness) ==
  /\ IF ~InRange(rn, s) \/ parity \notin {0, 1} THEN TRUE
     ELSE /\ Number(x) = rn
          /\ LET c == Plus(Cube(x), Seven)
             IN IF Sq(witness) = Less(Zero, c) THEN c # Zero
                ELSE /\ IsPoint(rp)
                     /\ rp # Infinity
                     /\ rp[1] = x
                     /\ IsOdd(rp[2]) = (parity = 1)
                     /\ Knows(rp, s)
                     /\ Knows(Generator, e)
                     /\ Multiple(rp, s) = Multiple(Generator, e)
  /\ UNCHANGED known
\* the key d signs hash e
Sign(d, rn, s, odd, e, rp) == /\ Knows(Generator, d)
                              /\ Signed(rn, s, odd, e, rp, Multiple(Generator, d))
                              /\ UNCHANGED known
\* the point of the key d
PublicKey(d, q) == /\ Knows(Generator, d)
                   /\ q = Multiple(Generator, d)
                   /\ UNCHANGED known
=============================================================================
