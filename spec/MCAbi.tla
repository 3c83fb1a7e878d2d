------------------------------- MODULE MCAbi -------------------------------
(* The laws of the encoding over small words: every list of up to N typed      *)
(* values is encoded and decoded again, also damaged in every place.           *)
EXTENDS Abi, TLC, Json
CONSTANTS N, Emit
VARIABLES done, ts, vs, d
Bits == {<< >>, <<1>>, <<128>>, <<255>>, <<1, 0>>, <<128, 0>>, <<255, 255>>}
Elems(t) == CASE t = "int" -> {El(FALSE, b) : b \in Bits} \cup {El(TRUE, b) : b \in {<<1>>, <<128, 0>>}}
              [] t = "addr" -> {El(FALSE, <<b>>) : b \in {0, 7}}
              [] t = "data" -> {El(FALSE, b) : b \in {<< >>, <<3>>, <<0>>, <<0, 5>>, <<9, 9>>}}
Values(t) == CASE t \in {"int", "addr", "data"} -> {[neg |-> e.neg, b |-> e.b, l |-> << >>] : e \in Elems(t)}
               [] t = "bytes" -> {Raw(b) : b \in {<< >>, <<0>>, <<4, 4>>, <<1, 2, 3>>}}
               [] OTHER -> {List(<< >>)} \cup {List(<<e>>) : e \in Elems(ListOf(t))}
                           \cup {List(<<e, CHOOSE x \in Elems(ListOf(t)) : TRUE>>) : e \in Elems(ListOf(t))}
ETypes == {"int", "addr", "data", "bytes", "ints", "addrs", "datas"}
DTypes == ETypes \cup {"big", "string", "raw", "bool", "u8", "i8"}
MInit == typ = << >> /\ mem = << >> /\ done = FALSE /\ ts = << >> /\ vs = << >> /\ d = << >>
Put == /\ ~done /\ Len(ts) < N /\ \E t \in ETypes : \E v \in Values(t) : ts' = Append(ts, t) /\ vs' = Append(vs, v)
       /\ UNCHANGED <<typ, mem, done, d>>
Pack == ~done /\ done' = TRUE /\ d' = Enc(ts, vs) /\ UNCHANGED <<typ, mem, ts, vs>>
Cut == done /\ Len(d) > 0 /\ d' = SubSeq(d, 1, Len(d) - 1) /\ Len(d) % W = 0 /\ vs' = << >> /\ UNCHANGED <<typ, mem, ts, done>>
CutWord == done /\ Len(d) >= W /\ d' = SubSeq(d, 1, Len(d) - W) /\ vs' = << >> /\ UNCHANGED <<typ, mem, ts, done>>
Spoil == /\ done /\ vs # << >> /\ \E i \in 1..Len(d) : \E x \in {0, 1, 2, 5, 255} : d[i] # x /\ d' = [d EXCEPT ![i] = x]
         /\ vs' = << >> /\ UNCHANGED <<typ, mem, ts, done>>
MNext == Put \/ Pack \/ Cut \/ CutWord \/ Spoil
MSpec == MInit /\ [][MNext]_<<typ, mem, done, ts, vs, d>>
\* what a value is after a round trip: numbers modulo 256^W, data padded
NormE(t, e) == CASE t = "int" -> El(FALSE, Strip(Word("int", e))) [] t = "data" -> El(FALSE, PadRight(e.b, W)) [] OTHER -> e
Norm(t, v) == CASE t \in {"int", "addr", "data"} -> LET e == NormE(t, v) IN [neg |-> FALSE, b |-> e.b, l |-> << >>]
                [] t = "bytes" -> v
                [] OTHER -> List([i \in 1..Len(v.l) |-> LET e == NormE(ListOf(t), v.l[i]) IN El(e.neg, e.b)])
R == Dec(d, ts)
RoundTrip == done /\ Len(vs) = Len(ts) /\ ts # << >> => Canonical(d, ts, R) /\ \A i \in 1..Len(ts) : R[i][1] = Norm(ts[i], vs[i])
\* heads first, everything in whole words
Shape == done /\ vs # << >> => Len(d) % W = 0 /\ Len(d) >= W * Len(ts)
\* whatever comes out of damaged data is what some canonical encoding says
Stable == done /\ Complete(R) => LET e == Enc(ts, [i \in 1..Len(ts) |-> R[i][1]]) IN Dec(e, ts) = R
\* the other destination types agree with the plain ones
Narrow == done => \A t \in DTypes : LET x == DecAt(d, t, 0) IN
            (x # << >> /\ ~Dynamic(t) /\ t # "bool") => LET y == DecAt(d, Canon(t), 0) IN
               y # << >> /\ (Width(t) > 0 /\ x[1].neg => Strip(Word("int", x[1])) = y[1].b) /\ (Width(t) > 0 /\ ~x[1].neg => x[1].b = y[1].b)
=============================================================================
