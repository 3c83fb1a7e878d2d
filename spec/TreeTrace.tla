------------------------------ MODULE TreeTrace ------------------------------
(* recorded histories of tevm.Tree against VersionedMap *)
EXTENDS VersionedMap, TraceLib
VARIABLE l

Ev == Events[l]

Step ==
  CASE Ev.op = "reset" -> trees' = << Fresh >>
    [] Ev.op = "ins"  -> Insert(Ev.t, Ev.k, Ev.v)
    [] Ev.op = "del"  -> Delete(Ev.t, Ev.k, Ev.r)
    [] Ev.op = "get"  -> Get(Ev.t, Ev.k, Ev.r)
    [] Ev.op = "iter" -> IterResult(trees[Ev.t].cur, Ev.n) = Ev.r /\ UNCHANGED trees
    [] Ev.op = "snap" -> Snapshot(Ev.t)
    [] Ev.op = "rb"   -> Rollback(Ev.t, Ev.s)
    [] Ev.op = "copy" -> Copy(Ev.t, Ev.s)
    [] Ev.op = "obs"  -> /\ Len(Ev.trees) = Len(trees)
                         /\ \A i \in 1..Len(trees) :
                              /\ Ev.trees[i].cur = Pairs(trees[i].cur)
                              /\ Len(Ev.trees[i].snaps) = Len(trees[i].snaps)
                              /\ \A s \in 1..Len(trees[i].snaps) :
                                    Ev.trees[i].snaps[s] = Pairs(trees[i].snaps[s])
                         /\ UNCHANGED trees
    [] OTHER -> FALSE

TInit == VMInit /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<trees, l>>
=============================================================================
