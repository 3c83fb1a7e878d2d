--------------------------- MODULE GenFilterClient ---------------------------
(* what a server and a closer can do to a filter, step by step: every sequence *)
(* of answers, ended by a failure, by Close, or by nothing                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Sizes, Kinds
VARIABLES inst, start, steps, done
gvars == <<inst, start, steps, done>>
Insts == {"ok"} \cup Kinds
Init == /\ inst \in Insts /\ start \in {-1, 0, 1000}
        /\ steps = << >> /\ done = (inst # "ok")
S(o, n, k, w) == [op |-> o, n |-> n, k |-> k, w |-> w]
Add(s, d) == ~done /\ Len(steps) < Depth /\ steps' = Append(steps, s) /\ done' = d /\ UNCHANGED <<inst, start>>
GAnswer == \E n \in Sizes : Add(S("answer", n, "", ""), start >= 0)
GFail == \E k \in Kinds : Add(S("fail", 0, k, ""), TRUE)
GClose == \/ steps # << >> /\ \E w \in {"idle", "now"} : Add(S("close", 0, "", w), TRUE)
          \/ steps = << >> /\ Add(S("close", 0, "", "before"), TRUE)
GDuring == \/ \E n \in Sizes : Add(S("close", n, "", "during"), TRUE)
           \/ \E k \in Kinds : Add(S("close", 0, k, "during"), TRUE)
GNone == ~done /\ steps # << >> /\ done' = TRUE /\ UNCHANGED <<inst, start, steps>>
GEnd == /\ done /\ PrintT(<<"SCRIPT", ToJson([inst |-> inst, start |-> start, steps |-> steps])>>)
        /\ UNCHANGED gvars
Next == GAnswer \/ GFail \/ GClose \/ GDuring \/ GNone \/ GEnd
Spec == Init /\ [][Next]_gvars
=============================================================================
