----------------------------- MODULE BlockIter -----------------------------
(***************************************************************************)
(* C15: the block iterator.  Block numbers count from the one it started   *)
(* with; every block the server gives is named by a number b of its own.   *)
(*   got     the blocks fetched, in order (their names)                    *)
(*   rcvd    how many of them its user has received                        *)
(*   open    a request is in flight                                        *)
(*   stop    "no" | "called" | "done";  after: requests since then         *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLE it
None == [on |-> FALSE, txs |-> FALSE, got |-> << >>, rcvd |-> 0, open |-> FALSE, stop |-> "no", after |-> 0, ended |-> FALSE]
Init == it = None
Start(txs) == /\ ~it.on
              /\ it' = [None EXCEPT !.on = TRUE, !.txs = txs]
\* the next block, again and again until there is one; at most the request
\* that was about to be made when Stop was called comes after that
Req(n, txs) ==
  /\ it.on /\ ~it.open /\ ~it.ended
  /\ n = Len(it.got) /\ txs = it.txs
  /\ it.stop = "done" => it.after = 0
  /\ it' = [it EXCEPT !.open = TRUE, !.after = IF it.stop = "done" THEN @ + 1 ELSE 0]
Reply(kind, b) ==
  /\ it.open
  /\ it' = [it EXCEPT !.open = FALSE, !.got = IF kind = "block" THEN Append(@, b) ELSE @]
Recv(n, b) ==
  /\ ~it.ended /\ it.rcvd < Len(it.got)
  /\ n = it.rcvd /\ b = it.got[n + 1]
  /\ it' = [it EXCEPT !.rcvd = @ + 1]
Stop == it.stop = "no" /\ it' = [it EXCEPT !.stop = "called"]
Stopped == it.stop = "called" /\ it' = [it EXCEPT !.stop = "done"]
End == it.stop # "no" /\ ~it.ended /\ it' = [it EXCEPT !.ended = TRUE]
CaughtUp == it.rcvd = Len(it.got)
=============================================================================
