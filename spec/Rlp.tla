-------------------------------- MODULE Rlp --------------------------------
(***************************************************************************)
(* C20: a transaction is being filled in, and serialized at any time.      *)
(*                                                                         *)
(* Bytes are sequences of numbers.  A transaction is a record of byte      *)
(* strings: quantities (nonce, price, gas, value) are big-endian without   *)
(* leading zeros, "to" is << >> for a creation.                            *)
(* Short is the longest length that a one-byte header can tell (55).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigNum
CONSTANTS Short
VARIABLES tx

Header(n, base) ==
  IF n <= Short THEN <<base + n>> ELSE LET l == FromNat(n) IN <<base + Short + Len(l)>> \o l
\* a string is itself if it is one small byte
Str(b) == IF Len(b) = 1 /\ b[1] < 128 THEN b ELSE Header(Len(b), 128) \o b
Listed(items) == LET b == FlattenSeq([i \in 1..Len(items) |-> Str(items[i])]) IN Header(Len(b), 192) \o b

Fields(t) == <<t.nonce, t.price, t.gas, t.to, t.value, t.input>>
\* the chain the signature is for, and two empty places for it
ChainId == 1
Unsigned(t) == Listed(Fields(t) \o <<FromNat(ChainId), << >>, << >>>>)
\* v says which of two points r stands for, and repeats the chain
Signed(t, r, s, v) == Listed(Fields(t) \o <<FromNat(35 + 2 * ChainId + v), Strip(r), Strip(s)>>)

Blank == [nonce |-> << >>, price |-> << >>, gas |-> << >>, to |-> << >>, value |-> << >>, input |-> << >>]
----------------------------------------------------------------------------
Fill(f, b) == tx' = [tx EXCEPT ![f] = b]
\* hash is the one of the unsigned form: (pre, digest) is a known point of the hash function
Hashed(pre, digest, hash) == pre = Unsigned(tx) /\ hash = digest /\ UNCHANGED tx
\* a signer is asked for the signature of that hash and gives sig = (r, s, v), or fails
SignedBy(pre, digest, hash, ok, r, s, v, st, out) ==
  /\ pre = Unsigned(tx) /\ hash = digest
  /\ IF ok THEN st = "ok" /\ out = Signed(tx, r, s, v) ELSE st = "err" /\ out = << >>
  /\ UNCHANGED tx
Encoded(r, s, v, out) == out = Signed(tx, r, s, v) /\ UNCHANGED tx
Look(t) == t = tx /\ UNCHANGED tx
=============================================================================
