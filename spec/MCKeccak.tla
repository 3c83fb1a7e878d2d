------------------------------- MODULE MCKeccak -------------------------------
(***************************************************************************)
(* Writing in pieces is writing at once: a hasher which was given pieces   *)
(* (about a block in all the ways there are to cross its end) has the      *)
(* digest of what it was given.  Digests of published messages come out.   *)
(***************************************************************************)
EXTENDS Keccak
CONSTANTS Size, Pieces, Limit
VARIABLE told        \* what was written

\* published digests of the empty message and of "abc"
Hex(s) == LET V(c) == CHOOSE v \in 0..15 : SubSeq("0123456789abcdef", v + 1, v + 1) = c
          IN [i \in 1..(Len(s) \div 2) |-> 16 * V(SubSeq(s, 2 * i - 1, 2 * i - 1)) + V(SubSeq(s, 2 * i, 2 * i))]
ASSUME Digest(<< >>, 144, 28) = Hex("f71837502ba8e10837bdd8d365adb85591895602fc552b48b7390abd")
ASSUME Digest(<< >>, 136, 32) = Hex("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")
ASSUME Digest(<< >>, 104, 48) = Hex("2c23146a63a29acf99e73b88f8c24eaa7dc60aa771780ccc006afbfa8fe2479b2dd2b21362337441ac12b515911957ff")
ASSUME Digest(<< >>, 72, 64) = Hex("0eab42de4c3ceb9235fc91acffe746b29c29a8c366b7c60e4e67c466f36a4304c00fa9caf9d87976ba469bcbe06713b435f091ef2769fb160cdab33d3670680e")
ASSUME Keccak256(<< 97, 98, 99 >>) = Hex("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")

Text(from, k) == [i \in 1..k |-> ((from + i) * 37) % 256]
MInit == hashers = << >> /\ told = << >>
Put(k) == /\ Len(told) + k <= Limit
          /\ Write(1, Text(Len(told), k))
          /\ told' = told \o Text(Len(told), k)
MNext == \/ New(1, Size) /\ hashers = << >> /\ UNCHANGED told
         \/ \E k \in Pieces : Put(k)
         \/ Reset(1) /\ told' = << >>
Same == hashers # << >> => Finish(hashers[1].state, hashers[1].rest, RateOf(Size), Size) = Digest(told, RateOf(Size), Size)
=============================================================================
