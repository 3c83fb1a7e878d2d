---------------------------- MODULE GenBlockIter ----------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Sizes, Kinds
VARIABLES steps, done
gvars == <<steps, done>>
Init == steps = << >> /\ done = FALSE
S(o, n, k, w) == [op |-> o, n |-> n, k |-> k, w |-> w]
GBlk == /\ ~done /\ Len(steps) < Depth /\ \E n \in Sizes : steps' = Append(steps, S("blk", n, "", "")) /\ UNCHANGED done
GFail == /\ ~done /\ Len(steps) < Depth /\ \E k \in Kinds : steps' = Append(steps, S("fail", 0, k, "")) /\ UNCHANGED done
GStop == ~done /\ \E w \in {"idle", "now", "during"}, n \in Sizes :
           steps' = steps \o << S("stop", 0, "", w), S("blk", n, "", "") >> /\ done' = TRUE
GEnd == done /\ PrintT(<<"SCRIPT", ToJson([steps |-> steps])>>) /\ UNCHANGED gvars
Next == GBlk \/ GFail \/ GStop \/ GEnd
Spec == Init /\ [][Next]_gvars
=============================================================================
