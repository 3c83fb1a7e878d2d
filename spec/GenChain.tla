------------------------------ MODULE GenChain ------------------------------
(* behaviours of MCChain as scripts for the harness *)
EXTENDS MCChain, Json
VARIABLES hist, done

gvars == <<chains, saved, unit, act, sum, got, hist, done>>

G(K) == Len(hist) < Depth /\ Do(K) /\ hist' = Append(hist, act') /\ UNCHANGED done

Script(o) == IF "p" \in DOMAIN o THEN [o EXCEPT !.p = Prog(o.p)] ELSE o

GEnd == /\ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<chains, saved, unit, act, sum, got, hist>>
        /\ PrintT(<<"SCRIPT", ToJson([i \in 1..Depth |-> Script(hist[i])])>>)

\* one disjunct per kind, so that random walks take every kind as often
GNext == \/ G({"call"}) \/ G({"send"}) \/ G({"create", "createat"}) \/ G({"mine"}) \/ G({"rsend"})
         \/ G({"addbal", "subbal"}) \/ G({"seal"}) \/ G({"static", "est"}) \/ G({"rcall"}) \/ G({"rest"}) \/ G({"rbal"})
         \/ G({"view"}) \/ G({"copy"}) \/ G({"save"}) \/ G({"load"}) \/ G({"s.snap"}) \/ G({"s.revert"})
         \/ G({"s.create", "s.suicide", "s.setnonce"}) \/ G({"s.addbal"}) \/ G({"s.setcode"}) \/ G({"s.setst"})
         \/ G({"s.addrefund", "s.log"}) \/ G({"newf"}) \/ G({"unf"}) \/ G({"poll"}) \/ GEnd

GSpec == MInit /\ hist = <<>> /\ done = FALSE /\ [][GNext]_gvars
=============================================================================
