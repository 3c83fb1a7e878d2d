---------------------------- MODULE FilterClient ----------------------------
(***************************************************************************)
(* C14: a log filter of the client (seth.Filter): the requests its         *)
(* goroutine makes, the logs it passes on, how it ends.                    *)
(*   st      "off" | "on" (installed at the server) | "refused"            *)
(*   poll    whether it goes on polling after the existing logs            *)
(*   fetched the number of fetches answered; open: one is in flight        *)
(*   q       logs answered by the server and not passed on yet             *)
(*   fail    the kind of failure that ended it, "" if none                 *)
(*   early   the failure was answered when no Close had been called        *)
(*   close   "no" | "called" | "returned" (the first Close)                *)
(*   gone    uninstalled at the server                                     *)
(*   ended   its output was closed                                         *)
(*   sure    the output had ended before Close was called                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLE f
fvars == <<f>>

Off == [st |-> "off", poll |-> FALSE, fetched |-> 0, open |-> FALSE, q |-> << >>, fail |-> "", early |-> FALSE,
        close |-> "no", late |-> FALSE, gone |-> FALSE, ended |-> FALSE, sure |-> FALSE, id |-> 0]

Init == f = Off

\* what a request for a filter has to say, given the arguments
Bound(n) == IF n < 0 THEN [t |-> "latest", n |-> 0] ELSE [t |-> "num", n |-> n]
TransferTopics(from, to) == << "Transfer", IF from = "" THEN "*" ELSE from, IF to = "" THEN "*" ELSE to >>

Install(args, req, ok, id) ==
  /\ f.st = "off"
  /\ req.from = Bound(args.start) /\ req.to = Bound(args.end)
  /\ req.addr = args.addr
  /\ req.topics = (IF args.kind = "transfers" THEN TransferTopics(args.tfrom, args.tto) ELSE args.topics)
  /\ f' = IF ok THEN [f EXCEPT !.st = "on", !.id = id, !.poll = args.start < 0]
                ELSE [f EXCEPT !.st = "refused"]

Fetch(what, id) ==
  /\ f.st = "on" /\ ~f.open /\ ~f.ended /\ f.fail = "" /\ id = f.id
  /\ what = IF f.fetched = 0 THEN "logs" ELSE "changes"
  /\ f.fetched > 0 => f.poll
  /\ f' = [f EXCEPT !.open = TRUE]

\* Mode: how the answer relates to a concurrent Close
Answer(logs) ==
  /\ f.open
  /\ f' = [f EXCEPT !.open = FALSE, !.fetched = @ + 1, !.q = @ \o logs]

Fail(kind) ==
  /\ f.open
  /\ f' = [f EXCEPT !.open = FALSE, !.fetched = @ + 1, !.fail = kind, !.early = (f.close = "no"), !.late = (f.close = "returned")]

Pass(log) == /\ f.q # << >> /\ log = Head(f.q) /\ ~f.ended
             /\ f' = [f EXCEPT !.q = Tail(@)]

CloseCall == f' = IF f.close = "no" THEN [f EXCEPT !.close = "called", !.sure = f.ended] ELSE f
Uninstall(id) == /\ f.close = "called" /\ ~f.gone /\ id = f.id
                 /\ f' = [f EXCEPT !.gone = TRUE]
CloseReturn == /\ f.close # "no" /\ f.gone
               /\ f' = [f EXCEPT !.close = "returned"]

\* the output ends after a failure, after Close, or after the existing logs
\* of a filter that does not poll; only Close may lose what was not passed on
End == /\ f.st = "on" /\ ~f.ended
       /\ \/ f.close # "no"
          \/ f.q = << >> /\ ~f.open /\ (f.fail # "" \/ (f.fetched > 0 /\ ~f.poll))
       /\ f' = [f EXCEPT !.ended = TRUE]

\* Err, asked after the output ended
ErrAllowed(e) ==
  /\ f.ended
  /\ IF f.fail = "" THEN e = ""
     ELSE IF f.close = "no" \/ (f.early /\ f.sure) THEN e = f.fail
     ELSE IF f.late THEN e = ""
     ELSE e \in {"", f.fail}

\* nothing is left to do
Finished == f.st # "on" \/ (f.ended /\ (f.close = "no" \/ f.gone))
=============================================================================
