------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* The Keccak sponge functions with 1600 bits of state and the padding of  *)
(* the original submission (a one bit, zero bits, a one bit), as a state   *)
(* machine: hashers, to which bytes are written piece by piece, which are  *)
(* asked for their digest at any moment (that changes nothing), and reset. *)
(*                                                                         *)
(* A lane is four pieces of 16 bits, least significant first; the state of *)
(* the permutation is 25 lanes, x + 5y for column x and row y.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

VARIABLE hashers         \* name -> [rate, size, state, rest]

-----------------------------------------------------------------------------
\* lanes
Nil == << 0, 0, 0, 0 >>
X(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
\* a xor (not b and c)
Chi(a, b, c) == << a[1] ^^ ((65535 - b[1]) & c[1]), a[2] ^^ ((65535 - b[2]) & c[2]),
                   a[3] ^^ ((65535 - b[3]) & c[3]), a[4] ^^ ((65535 - b[4]) & c[4]) >>
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536 >>
\* rotation towards the most significant bit
Rot(a, r) ==
  LET q == r \div 16
      up == Pow2[(r % 16) + 1]
      dn == Pow2[17 - (r % 16)]
      P(i) == ((a[((i - q + 7) % 4) + 1] * up) % 65536) + (a[((i - q + 6) % 4) + 1] \div dn)
  IN << P(1), P(2), P(3), P(4) >>

-----------------------------------------------------------------------------
\* the permutation

\* the offset of the rotation of every lane: a walk over the lanes but the first
Offsets ==
  LET walk == FoldLeft(LAMBDA a, t : << a[2], (2 * a[1] + 3 * a[2]) % 5,
                                        [a[3] EXCEPT ![a[1] + 5 * a[2] + 1] = (((t + 1) * (t + 2)) \div 2) % 64] >>,
                       << 1, 0, [i \in 1..25 |-> 0] >>, [t \in 1..24 |-> t - 1])
  IN TLCEval(walk[3])

\* the round constants: bits of a linear feedback shift register
LfsrNext(r) == LET d == r * 2 IN IF d >= 256 THEN (d - 256) ^^ 113 ELSE d
Lfsr == FoldLeft(LAMBDA a, t : Append(a, LfsrNext(a[Len(a)])), << 1 >>, [t \in 1..254 |-> t])
\* bit j of the constant of round i (from zero), for the places 2^j - 1
RcBit(i, j) == Lfsr[((j + 7 * i) % 255) + 1] % 2
Rc == TLCEval([i \in 1..24 |->
         << RcBit(i - 1, 0) + 2 * RcBit(i - 1, 1) + 8 * RcBit(i - 1, 2) + 128 * RcBit(i - 1, 3) + 32768 * RcBit(i - 1, 4),
            32768 * RcBit(i - 1, 5), 0, 32768 * RcBit(i - 1, 6) >>])

\* the lane which rho and pi bring to place p: from (x, y) to (y, 2x + 3y)
From == TLCEval([p \in 1..25 |-> LET x == (p - 1) % 5
                                     y == (p - 1) \div 5
                                     \* x = y0, y = 2 x0 + 3 y0
                                     x0 == CHOOSE k \in 0..4 : (2 * k + 3 * x) % 5 = y
                                 IN x0 + 5 * x + 1])

Round(a, i) ==
  LET C(x) == X(X(X(X(a[x], a[x + 5]), a[x + 10]), a[x + 15]), a[x + 20])
      c == << C(1), C(2), C(3), C(4), C(5) >>
      D(x) == X(c[((x + 3) % 5) + 1], Rot(c[(x % 5) + 1], 1))
      d == << D(1), D(2), D(3), D(4), D(5) >>
      B(p) == LET f == From[p] IN Rot(X(a[f], d[((f - 1) % 5) + 1]), Offsets[f])
      b == TLCEval([p \in 1..25 |-> B(p)])
      E(p) == LET r == p - ((p - 1) % 5)
                  x == (p - 1) % 5
              IN Chi(b[p], b[r + ((x + 1) % 5)], b[r + ((x + 2) % 5)])
      e == TLCEval([p \in 1..25 |-> E(p)])
  IN [e EXCEPT ![1] = X(e[1], Rc[i])]

Permute(a) == FoldLeft(LAMBDA s, i : TLCEval(Round(s, i)), a, [i \in 1..24 |-> i])

-----------------------------------------------------------------------------
\* the sponge

Fresh == [i \in 1..25 |-> Nil]
\* a block of rate bytes, as lanes
Lane(b, i) == LET o == (i - 1) * 8
              IN << b[o + 1] + 256 * b[o + 2], b[o + 3] + 256 * b[o + 4], b[o + 5] + 256 * b[o + 6], b[o + 7] + 256 * b[o + 8] >>
Absorb(a, b) == Permute(TLCEval([i \in 1..25 |-> IF i * 8 <= Len(b) THEN X(a[i], Lane(b, i)) ELSE a[i]]))
\* all whole blocks of m, and what is left
RECURSIVE AbsorbAll(_, _, _)
AbsorbAll(a, m, rate) == IF Len(m) < rate THEN << a, m >>
                         ELSE AbsorbAll(Absorb(a, SubSeq(m, 1, rate)), SubSeq(m, rate + 1, Len(m)), rate)
\* the last block: one bit, zero bits, one bit; bits are numbered from the least significant one of each byte
Pad(m, rate) == [i \in 1..rate |-> (IF i <= Len(m) THEN m[i] ELSE IF i = Len(m) + 1 THEN 1 ELSE 0)
                                   + (IF i = rate THEN 128 ELSE 0)]
Out(a, size) == [k \in 1..size |-> LET w == a[(k - 1) \div 8 + 1][((k - 1) % 8) \div 2 + 1]
                                   IN IF k % 2 = 1 THEN w % 256 ELSE w \div 256]
\* the digest after the blocks which led to state a, with rest left over
Finish(a, rest, rate, size) == Out(Absorb(a, Pad(rest, rate)), size)
\* the digest of a message
Digest(m, rate, size) == LET r == AbsorbAll(Fresh, m, rate) IN Finish(r[1], r[2], rate, size)
Keccak256(m) == Digest(m, 136, 32)

-----------------------------------------------------------------------------
\* hashers

Sizes == {28, 32, 48, 64}
RateOf(size) == 200 - 2 * size

Init == hashers = << >>
New(h, size) == /\ size \in Sizes
                /\ hashers' = (h :> [rate |-> RateOf(size), size |-> size, state |-> Fresh, rest |-> << >>]) @@ hashers
Write(h, b) == /\ h \in DOMAIN hashers
               /\ LET s == hashers[h]
                      r == TLCEval(AbsorbAll(s.state, s.rest \o b, s.rate))
                  IN hashers' = [hashers EXCEPT ![h].state = r[1], ![h].rest = r[2]]
Reset(h) == /\ h \in DOMAIN hashers
            /\ hashers' = [hashers EXCEPT ![h].state = Fresh, ![h].rest = << >>]
\* the digest of all which was written since the last reset
Sum(h, out) == /\ h \in DOMAIN hashers
               /\ out = LET s == hashers[h] IN Finish(s.state, s.rest, s.rate, s.size)
               /\ UNCHANGED hashers
\* in one go
Whole(m, size, out) == /\ size \in Sizes
                       /\ out = Digest(m, RateOf(size), size)
                       /\ UNCHANGED hashers
=============================================================================
