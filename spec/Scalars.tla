------------------------------ MODULE Scalars ------------------------------
(***************************************************************************)
(* C19: the scalar types and their texts.  A machine of typed variables:   *)
(* Write gives the text of one, Read fills  one from a text, Carry takes a *)
(* value to another variable by way of an encoding.                        *)
(*                                                                         *)
(* Texts are sequences of character codes.  Types: int, u64 (quantities),  *)
(* data, bytes (of any length), and fixed ones whose length is Size(t).    *)
(* A value is [neg, b]: sign and magnitude, or bytes.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, BigNum
CONSTANTS Size  \* a function from the fixed types to their lengths
VARIABLES typ, mem

V(b) == [neg |-> FALSE, b |-> b]
Quote == 34
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
IsDec(c) == c \in 48..57
IsHex(c) == IsDec(c) \/ c \in 97..102 \/ c \in 65..70
DigitOf(c) == IF IsDec(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
All(P(_), x) == \A i \in 1..Len(x) : P(x[i])

Number(t) == t \in {"int", "u64"}
Fixed(t) == t \in DOMAIN Size

----------------------------------------------------------------------------
(* printing *)

Digits(b) == FlattenSeq([i \in 1..Len(b) |-> <<HexChar(b[i] \div 16), HexChar(b[i] % 16)>>])
Ox == <<48, 120>>
Text(t, v) ==
  IF ~Number(t) THEN Ox \o Digits(v.b)
  ELSE IF v.b = << >> THEN Ox \o <<48>>
  ELSE Ox \o (IF v.b[1] < 16 THEN Tail(Digits(v.b)) ELSE Digits(v.b))
Quoted(x) == <<Quote>> \o x \o <<Quote>>
Printed(t, v, how) == IF how \in {"json", "jsonp"} THEN Quoted(Text(t, v)) ELSE Text(t, v)

----------------------------------------------------------------------------
(* parsing: what a text may yield *)

Err == [st |-> "err", v |-> V(<< >>)]
Ok(v) == [st |-> "ok", v |-> v]
Only(r) == [any |-> FALSE, rs |-> {r}]      \* exactly this
Either(r, s) == [any |-> FALSE, rs |-> {r, s}]
Anything == [any |-> TRUE, rs |-> {}]       \* forms that no documentation settles

HasOx(x) == Len(x) >= 2 /\ SubSeq(x, 1, 2) = Ox
Rest(x, n) == SubSeq(x, n + 1, Len(x))
\* an odd number of digits implies a zero in front
Even(h) == IF Len(h) % 2 = 1 THEN <<48>> \o h ELSE h
Unhex(h) == LET e == Even(h) IN [i \in 1..Len(e) \div 2 |-> 16 * DigitOf(e[2 * i - 1]) + DigitOf(e[2 * i])]
Decimal(x) == FoldLeft(LAMBDA a, c : AddSmall(MulSmall(a, 10), c - 48), << >>, x)

ParseNumber(x) ==
  IF HasOx(x)
  THEN LET h == Rest(x, 2) IN
       IF ~All(IsHex, h) THEN Only(Err)
       ELSE IF h = << >> THEN Either(Err, Ok(V(<< >>)))
       ELSE Only(Ok(V(Strip(Unhex(h)))))
  ELSE LET signed == x # << >> /\ x[1] \in {43, 45}
           u == IF signed THEN Tail(x) ELSE x
       IN IF u = << >> THEN Only(Err)
          ELSE IF u[1] = 48 /\ Len(u) > 1 THEN Anything              \* other bases
          ELSE IF \E i \in 1..Len(u) : u[i] = 95 THEN Anything       \* digit groups
          ELSE IF ~All(IsDec, u) THEN Only(Err)
          ELSE LET r == Ok([neg |-> signed /\ x[1] = 45 /\ Decimal(u) # << >>, b |-> Decimal(u)])
               IN IF signed /\ x[1] = 43 THEN Either(Err, r) ELSE Only(r)
InRange(r) == r.st = "err" \/ (~r.v.neg /\ Len(r.v.b) <= 8)
Limit(p) == IF p.any THEN p ELSE [p EXCEPT !.rs = {IF InRange(r) THEN r ELSE Err : r \in @}]

ParseBytes(x) ==
  IF ~HasOx(x) THEN IF Len(x) >= 2 /\ x[1] = 48 /\ x[2] = 88 THEN Anything ELSE Only(Err)
  ELSE IF ~All(IsHex, Rest(x, 2)) THEN Only(Err)
  ELSE Only(Ok(V(Unhex(Rest(x, 2)))))
ParseFixed(x, n) ==
  LET p == ParseBytes(x) IN
  IF p.any THEN p
  ELSE IF \E r \in p.rs : r.st = "ok" /\ Len(r.v.b) # n THEN Only(Err)
  ELSE IF Len(x) = 2 * n + 1 THEN [p EXCEPT !.rs = @ \cup {Err}]
  ELSE p
ParseText(t, x) ==
  CASE t = "int" -> ParseNumber(x)
    [] t = "u64" -> Limit(ParseNumber(x))
    [] t \in {"data", "bytes"} -> ParseBytes(x)
    [] OTHER -> ParseFixed(x, Size[t])

Null == <<110, 117, 108, 108>>
White == {32, 9, 10, 13}
Plain(c) == c >= 32 /\ c <= 126 /\ c # Quote /\ c # 92
JsonInt(x) == LET u == IF x # << >> /\ x[1] = 45 THEN Tail(x) ELSE x
              IN u # << >> /\ All(IsDec, u) /\ (u[1] = 48 => Len(u) = 1)
\* old is the result if nothing is done
ParseJson(t, x, old) ==
  IF x = << >> THEN Only(Err)
  ELSE IF x = Null THEN Either(Err, old)
  ELSE IF x[1] \in White \/ x[Len(x)] \in White THEN Anything
  ELSE IF Len(x) >= 2 /\ x[1] = Quote /\ x[Len(x)] = Quote
       THEN LET y == SubSeq(x, 2, Len(x) - 1)
            IN IF All(Plain, y) THEN ParseText(t, y)
               ELSE IF \E i \in 1..Len(y) : y[i] = 92 \/ y[i] > 126 THEN Anything ELSE Only(Err)
  ELSE IF Number(t) /\ JsonInt(x) THEN ParseText(t, x)
  ELSE Only(Err)
Parsed(t, how, x, old) == IF how = "json" THEN ParseJson(t, x, old) ELSE ParseText(t, x)

----------------------------------------------------------------------------
Known(i) == mem[i] # << >>
Set(i, v) == mem' = [mem EXCEPT ![i] = <<v>>] /\ UNCHANGED typ
Write(i, how, out) == Known(i) /\ out = Printed(typ[i], mem[i][1], how) /\ UNCHANGED <<typ, mem>>
\* v is the variable's value afterwards
Read(i, how, x, st, v) ==
  LET old == IF Known(i) THEN Ok(mem[i][1]) ELSE Ok(v)
      p == Parsed(typ[i], how, x, old)
  IN /\ IF p.any THEN TRUE ELSE IF st = "err" THEN \E r \in p.rs : r.st = "err" ELSE Ok(v) \in p.rs
     /\ mem' = [mem EXCEPT ![i] = IF st = "ok" THEN <<v>> ELSE << >>]
     /\ UNCHANGED typ
Carry(i, j) == Known(i) /\ typ[i] = typ[j] /\ mem' = [mem EXCEPT ![j] = mem[i]] /\ UNCHANGED typ
Look(i, v) == Known(i) /\ mem[i][1] = v /\ UNCHANGED <<typ, mem>>
=============================================================================
