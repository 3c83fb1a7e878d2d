--------------------------- MODULE GenVersionedMap ---------------------------
(* behaviours of VersionedMap as scripts for the harness *)
EXTENDS VersionedMap, TLC, Json
CONSTANTS MaxTrees, MaxSnaps, Depth
VARIABLES hist, done

Step(o) == hist' = Append(hist, o)

GNext ==
  /\ Len(hist) < Depth
  /\ \E t \in 1..Len(trees) :
        \/ \E k \in Keys, v \in Vals : Insert(t, k, v) /\ Step([op |-> "ins", t |-> t, k |-> k, v |-> v])
        \/ \E k \in Keys : /\ Delete(t, k, k \in DOMAIN trees[t].cur)
                           /\ Step([op |-> "del", t |-> t, k |-> k])
        \/ Len(trees[t].snaps) < MaxSnaps /\ Snapshot(t) /\ Step([op |-> "snap", t |-> t])
        \/ \E s \in 1..Len(trees[t].snaps) :
             \/ Rollback(t, s) /\ Step([op |-> "rb", t |-> t, s |-> s])
             \/ Len(trees) < MaxTrees /\ Copy(t, s) /\ Step([op |-> "copy", t |-> t, s |-> s])
  /\ UNCHANGED done

GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<trees, hist>> /\ PrintT(<<"SCRIPT", ToJson(hist)>>)

GSpec == VMInit /\ hist = <<>> /\ done = FALSE /\ [][GNext \/ GEnd]_<<trees, hist, done>>
=============================================================================
