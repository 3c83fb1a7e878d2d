--------------------------- MODULE MCFilterClient ---------------------------
(* the filter's goroutine, its consumer and the closers, at the grain of the   *)
(* code's steps, composed with a server; refines FilterClient                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxFetches, MaxBatch, Buf, Polls
VARIABLES f,      \* as in FilterClient
          pc,     \* of the goroutine: "fetch" "wait" "send" "seterr" "closeout" "done"
          out,    \* the output channel
          batch,  \* logs of the current answer still to be sent
          closed, exit, err,    \* fields of seth.Filter
          cpc,    \* of the closer: "idle" "locked" "done"
          nlog
A == INSTANCE FilterClient
vars == <<f, pc, out, batch, closed, exit, err, cpc, nlog>>

Init == /\ \E p \in Polls : f = [A!Off EXCEPT !.st = "on", !.id = 1, !.poll = p]
        /\ pc = "fetch" /\ out = << >> /\ batch = << >> /\ closed = FALSE /\ exit = FALSE /\ err = "" /\ cpc = "idle" /\ nlog = 0

GFetch == /\ pc = "fetch" /\ A!Fetch(IF f.fetched = 0 THEN "logs" ELSE "changes", 1)
          /\ pc' = "wait" /\ UNCHANGED <<out, batch, closed, exit, err, cpc, nlog>>
SAnswer == /\ pc = "wait" /\ f.fetched < MaxFetches
           /\ \E n \in 0..MaxBatch :
                LET b == [i \in 1..n |-> nlog + i] IN A!Answer(b) /\ batch' = b /\ nlog' = nlog + n
           /\ pc' = "send" /\ UNCHANGED <<out, closed, exit, err, cpc>>
SFail == /\ pc = "wait" /\ A!Fail("transport")
         /\ pc' = "seterr" /\ UNCHANGED <<out, batch, closed, exit, err, cpc, nlog>>
GSend == /\ pc = "send" /\ batch # << >> /\ Len(out) < Buf
         /\ out' = Append(out, Head(batch)) /\ batch' = Tail(batch)
         /\ UNCHANGED <<f, pc, closed, exit, err, cpc, nlog>>
GSent == /\ pc = "send" /\ batch = << >>
         /\ pc' = IF f.poll THEN "select" ELSE "closeout"
         /\ UNCHANGED <<f, out, batch, closed, exit, err, cpc, nlog>>
GTick == /\ pc = "select" /\ pc' = "fetch" /\ UNCHANGED <<f, out, batch, closed, exit, err, cpc, nlog>>
GExit == /\ pc = "select" /\ exit /\ pc' = "closeout" /\ UNCHANGED <<f, out, batch, closed, exit, err, cpc, nlog>>
GSetErr == /\ pc = "seterr" /\ cpc # "locked"
           /\ err' = (IF closed THEN err ELSE f.fail) /\ pc' = "closeout"
           /\ UNCHANGED <<f, out, batch, closed, exit, cpc, nlog>>
GCloseOut == /\ pc = "closeout" /\ pc' = "done" /\ UNCHANGED <<f, out, batch, closed, exit, err, cpc, nlog>>
CRecv == /\ out # << >> /\ A!Pass(Head(out)) /\ out' = Tail(out)
         /\ UNCHANGED <<pc, batch, closed, exit, err, cpc, nlog>>
CEnd == /\ pc = "done" /\ out = << >> /\ ~f.ended /\ f' = [f EXCEPT !.ended = TRUE]
        /\ UNCHANGED <<pc, out, batch, closed, exit, err, cpc, nlog>>
Close1 == /\ cpc = "idle" /\ A!CloseCall /\ cpc' = "called" /\ UNCHANGED <<pc, out, batch, closed, exit, err, nlog>>
Close2 == /\ cpc = "called" /\ cpc' = "locked" /\ closed' = TRUE /\ exit' = TRUE
          /\ UNCHANGED <<f, pc, out, batch, err, nlog>>
Close3 == /\ cpc = "locked" /\ ~f.gone /\ A!Uninstall(1) /\ UNCHANGED <<pc, out, batch, closed, exit, err, cpc, nlog>>
Close4 == /\ cpc = "locked" /\ f.gone /\ A!CloseReturn /\ cpc' = "done" /\ UNCHANGED <<pc, out, batch, closed, exit, err, nlog>>

Next == \/ GFetch \/ SAnswer \/ SFail \/ GSend \/ GSent \/ GTick \/ GExit \/ GSetErr \/ GCloseOut
        \/ CRecv \/ CEnd \/ Close1 \/ Close2 \/ Close3 \/ Close4
Spec == Init /\ [][Next]_vars /\ WF_vars(GFetch \/ SFail \/ SAnswer \/ GSend \/ GSent \/ GSetErr \/ GCloseOut)
             /\ SF_vars(GExit) /\ WF_vars(CRecv \/ CEnd) /\ WF_vars(Close2 \/ Close3 \/ Close4)

\* every step is one that FilterClient allows
Refines == [][\/ \E w \in {"logs", "changes"} : A!Fetch(w, 1)
              \/ \E n \in 0..MaxBatch : A!Answer([i \in 1..n |-> nlog + i])
              \/ A!Fail("transport") \/ A!CloseCall \/ A!Uninstall(1) \/ A!CloseReturn \/ A!End
              \/ \E i \in 1..nlog : A!Pass(i)]_f
\* what is in the channel and in the goroutine's hands is what was not passed on
Nothing_lost == f.q = out \o batch
ErrRight == f.ended /\ cpc # "locked" => A!ErrAllowed(err)
Ends == (f.close # "no" \/ f.fail # "") ~> f.ended
=============================================================================
