----------------------------- MODULE MCScalars -----------------------------
(* The laws of printing and parsing for all short texts and all small values;  *)
(* the texts are also printed, for the harness.                                *)
EXTENDS Scalars, TLC, Json
CONSTANTS N, Emit
VARIABLES x, val, stage
Sizes == [addr |-> 1, hash |-> 2]
Alphabet == {48, 49, 57, 97, 70, 120, 88, 103, 34, 45, 95, 32}
Bytes == {0, 1, 16, 255}
Types == {"int", "u64", "data", "addr", "hash"}
Values(t) == CASE t = "int" -> {V(b) : b \in {<< >>, <<1>>, <<15>>, <<16>>, <<255>>, <<1, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>}}
               [] t = "u64" -> {V(b) : b \in {<< >>, <<10>>, <<1, 0>>, [i \in 1..8 |-> 255]}}
               [] t = "data" -> {V(b) : b \in {<< >>} \cup {<<b>> : b \in Bytes} \cup {<<0, b>> : b \in Bytes}}
               [] t = "addr" -> {V(<<b>>) : b \in Bytes}
               [] t = "hash" -> {V(<<a, b>>) : a \in Bytes, b \in Bytes}
MInit == typ = << >> /\ mem = << >> /\ x = << >> /\ val = << >> /\ stage = "text"
More == stage = "text" /\ Len(x) < N /\ \E c \in Alphabet : x' = Append(x, c) /\ UNCHANGED <<typ, mem, val, stage>>
Done == /\ stage = "text" /\ stage' = "done" /\ UNCHANGED <<typ, mem, x, val>>
        /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson(x)>>) ELSE TRUE
Pick == stage = "text" /\ x = << >> /\ stage' = "value" /\ (\E t \in Types : \E v \in Values(t) : val' = <<t, v>>) /\ UNCHANGED <<typ, mem, x>>
MNext == More \/ Done \/ Pick
MSpec == MInit /\ [][MNext]_<<typ, mem, x, val, stage>>
\* printing and parsing are inverse
BothWays == stage = "value" => LET t == val[1] v == val[2] IN
   /\ Parsed(t, "text", Printed(t, v, "text"), Err) \in {Only(Ok(v))}
   /\ Parsed(t, "json", Printed(t, v, "json"), Err) = Only(Ok(v))
\* a number has one printed form, a shortest one
Canonical == stage = "value" /\ Number(val[1]) => LET p == Text(val[1], val[2]) IN Len(p) = 3 \/ p[3] # 48
\* what a text yields prints as a text that yields it again
Again == stage = "done" => \A t \in Types : \A how \in {"text", "json"} :
   LET p == Parsed(t, how, x, Err) IN \A r \in p.rs : r.st = "ok" /\ ~r.v.neg => Only(r) = Parsed(t, how, Printed(t, r.v, how), Err)
\* fixed-size values have their size, and small ones are small
Bounded == stage = "done" => \A t \in Types : LET p == Parsed(t, "text", x, Err) IN
   \A r \in p.rs : r.st = "ok" => (Fixed(t) => Len(r.v.b) = Size[t]) /\ (t = "u64" => Len(r.v.b) <= 8 /\ ~r.v.neg)
\* a bad character is never ignored
NoJunk == stage = "done" /\ (\E i \in 1..Len(x) : x[i] \in {103, 34, 32}) => \A t \in Types :
   LET p == Parsed(t, "text", x, Err) IN p.any \/ p.rs = {Err}
=============================================================================
