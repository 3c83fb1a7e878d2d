-------------------------------- MODULE Abi --------------------------------
(***************************************************************************)
(* C18: the contract ABI.  A machine of typed variables: Set stores a      *)
(* value, Encode makes call data of some of them, Append encodes one of    *)
(* them behind other bytes, Decode fills some of them from bytes.          *)
(*                                                                         *)
(* A value is [neg, b, l]: a number (sign and big-endian magnitude), bytes *)
(* in b, or a list in l of elements [neg, b].  Type names:                 *)
(*   int addr data bytes ints addrs datas     what can be encoded          *)
(*   big string raw bool u8..u64 i8..i64      can only be decoded into     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigNum
CONSTANTS W,    \* bytes in a word: 32
          A     \* bytes in an address: 20
VARIABLES typ,  \* typ[i]: the type of variable i
          mem   \* mem[i]: a sequence of at most one value; empty if unknown

Num(b)   == [neg |-> FALSE, b |-> b, l |-> << >>]
Raw(b)   == Num(b)
List(l)  == [neg |-> FALSE, b |-> << >>, l |-> l]
El(neg, b) == [neg |-> neg, b |-> b]

ListOf(t) == CASE t = "ints" -> "int" [] t = "addrs" -> "addr" [] t = "datas" -> "data" [] OTHER -> ""
Dynamic(t) == t \in {"bytes", "string", "raw", "ints", "addrs", "datas"}
\* widths of Go's integers in bytes
Width(t) == CASE t \in {"u8", "i8"} -> 1 [] t \in {"u16", "i16"} -> 2 [] t \in {"u32", "i32"} -> 4 [] t \in {"u64", "i64"} -> 8 [] OTHER -> 0
Signed(t) == t \in {"i8", "i16", "i32", "i64"}

----------------------------------------------------------------------------
(* encoding *)

TwoTo(bytes) == <<1>> \o Zeros(bytes)               \* 256^bytes
Half(bytes) == <<128>> \o Zeros(bytes - 1)          \* 256^bytes / 2
Complement(b, bytes) == IF b = << >> THEN b ELSE Sub(TwoTo(bytes), b)

FitsWord(e) == IF e.neg THEN Cmp(e.b, Half(W)) <= 0 ELSE Len(e.b) <= W
Encodable(t, v) ==
  CASE t = "int" -> FitsWord(v)
    [] t = "data" -> Len(v.b) <= W
    [] t = "ints" -> \A i \in 1..Len(v.l) : FitsWord(v.l[i])
    [] t = "datas" -> \A i \in 1..Len(v.l) : Len(v.l[i].b) <= W
    [] OTHER -> TRUE

Word(t, e) ==
  CASE t = "int" -> PadLeft(IF e.neg THEN Complement(e.b, W) ELSE e.b, W)
    [] t = "addr" -> PadLeft(e.b, W)
    [] t = "data" -> PadRight(e.b, W)
NatWord(n) == PadLeft(FromNat(n), W)
RoundUp(n) == ((n + W - 1) \div W) * W

\* what stands behind the length of a dynamic value
Body(t, v) ==
  IF t = "bytes" THEN PadRight(v.b, RoundUp(Len(v.b)))
  ELSE FlattenSeq([i \in 1..Len(v.l) |-> Word(ListOf(t), v.l[i])])
Count(t, v) == IF t = "bytes" THEN Len(v.b) ELSE Len(v.l)
Tail_(t, v) == NatWord(Count(t, v)) \o Body(t, v)

RECURSIVE EncFrom(_, _, _, _, _)
EncFrom(ts, vs, i, head, tail) ==
  IF i > Len(ts) THEN head \o tail
  ELSE IF Dynamic(ts[i])
       THEN EncFrom(ts, vs, i + 1, head \o NatWord(W * Len(ts) + Len(tail)), tail \o Tail_(ts[i], vs[i]))
       ELSE EncFrom(ts, vs, i + 1, head \o Word(ts[i], vs[i]), tail)
Enc(ts, vs) == EncFrom(ts, vs, 1, << >>, << >>)

----------------------------------------------------------------------------
(* decoding: the value of type t whose head is at offset o, if there is one *)

At(d, o, n) == SubSeq(d, o + 1, o + n)
Small(w) == Len(Strip(w)) <= 3        \* else beyond any data
GoInt(t, w) ==
  IF Signed(t)
  THEN IF Cmp(Strip(w), Half(W)) >= 0
       THEN LET m == Complement(Strip(w), W) IN IF Cmp(m, Half(Width(t))) <= 0 THEN <<[Num(m) EXCEPT !.neg = TRUE]>> ELSE << >>
       ELSE IF Cmp(Strip(w), Half(Width(t))) < 0 THEN <<Num(Strip(w))>> ELSE << >>
  ELSE IF Len(Strip(w)) <= Width(t) THEN <<Num(Strip(w))>> ELSE << >>
DecWord(t, w) ==
  CASE t \in {"int", "big"} -> Num(Strip(w))
    [] t = "addr" -> Raw(SubSeq(w, W - A + 1, W))
    [] t = "data" -> Raw(w)
    [] t = "bool" -> IF Strip(w) = << >> THEN Num(<< >>) ELSE Num(<<1>>)
DecAt(d, t, o) ==
  IF o + W > Len(d) THEN << >>
  ELSE LET w == At(d, o, W) IN
    IF Width(t) > 0 THEN GoInt(t, w)
    ELSE IF ~Dynamic(t) THEN <<DecWord(t, w)>>
    ELSE IF ~Small(w) THEN << >>
    ELSE LET off == ToNat(w) IN
      IF off + W > Len(d) THEN << >>
      ELSE LET lw == At(d, off, W)
               size == IF ListOf(t) = "" THEN 1 ELSE W
           IN IF ~Small(lw) THEN << >>
              ELSE LET n == ToNat(lw) IN
                IF n > (Len(d) - off - W) \div size THEN << >>
                ELSE IF ListOf(t) = "" THEN <<Raw(At(d, off + W, n))>>
                ELSE <<List([i \in 1..n |-> LET e == DecWord(ListOf(t), At(d, off + W + (i - 1) * W, W)) IN El(e.neg, e.b)])>>
Dec(d, ts) == [i \in 1..Len(ts) |-> DecAt(d, ts[i], (i - 1) * W)]
Complete(r) == \A i \in 1..Len(r) : r[i] # << >>

\* the types to encode what was decoded into a variable of type t
Canon(t) == CASE t \in {"string", "raw"} -> "bytes" [] t \in {"big", "bool"} \/ Width(t) > 0 -> "int" [] OTHER -> t
Canonical(d, ts, r) == Complete(r) /\ d = Enc([i \in 1..Len(ts) |-> Canon(ts[i])], [i \in 1..Len(ts) |-> r[i][1]])

----------------------------------------------------------------------------
(* the signature: argument lists of two or more are compared with it *)
Suits(s, t) ==
  CASE s = "address" -> t = "addr"
    [] s \in {"uint", "uint256", "int", "int256"} -> t = "int"
    [] s = "bytes32" -> t \in {"data", "int"}
    [] s \in {"uint256[]", "address[]", "bytes32[]", "uint8[]"} -> t \in {"ints", "addrs", "datas", "bytes"}
    [] OTHER -> TRUE
Accepts(sig, ts) == Len(sig) < 2 \/ (Len(sig) = Len(ts) /\ \A i \in 1..Len(sig) : Suits(sig[i], ts[i]))

----------------------------------------------------------------------------
Types(is) == [k \in 1..Len(is) |-> typ[is[k]]]
Vals(is) == [k \in 1..Len(is) |-> mem[is[k]][1]]
Known(is) == \A k \in 1..Len(is) : mem[is[k]] # << >>

Set(i, v) == mem' = [mem EXCEPT ![i] = <<v>>] /\ UNCHANGED typ
\* sel is the hash of the signature, cut to four bytes
Encode(sig, sel, is, st, out) ==
  /\ Known(is)
  /\ IF Accepts(sig, Types(is)) /\ \A k \in 1..Len(is) : Encodable(typ[is[k]], mem[is[k]][1])
     THEN st = "ok" /\ out = sel \o Enc(Types(is), Vals(is))
     ELSE st = "refused"
  /\ UNCHANGED <<typ, mem>>
Append_(pre, i, out) ==
  /\ Known(<<i>>) /\ Encodable(typ[i], mem[i][1])
  /\ out = pre \o (IF Dynamic(typ[i]) THEN Body(typ[i], mem[i][1]) ELSE Word(typ[i], mem[i][1]))
  /\ UNCHANGED <<typ, mem>>
\* vals are the variables' values afterwards
Decode(d, is, st, vals) ==
  LET r == Dec(d, Types(is)) IN
  /\ IF st = "ok" THEN Complete(r) /\ \A k \in 1..Len(is) : vals[k] = r[k][1]
     ELSE ~Canonical(d, Types(is), r)
  /\ mem' = [i \in DOMAIN mem |-> IF \E k \in 1..Len(is) : is[k] = i
                                 THEN IF st = "ok" THEN r[CHOOSE k \in 1..Len(is) : is[k] = i] ELSE << >>
                                 ELSE mem[i]]
  /\ UNCHANGED typ
=============================================================================
