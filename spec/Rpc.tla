-------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* C12, C13: calls through one JSON-RPC connection at a time, as seen from *)
(* outside: the calls made, the connections dialled, the requests that     *)
(* reach the server, the responses it sends, the faults, and how each call *)
(* ends.                                                                   *)
(*                                                                         *)
(* A call is  [st, conn, id, ans, at]:                                     *)
(*   st    "new"   made, nothing of it seen by a server yet                *)
(*         "sent"  its whole request reached the server on connection conn *)
(*         "cut"   writing its request failed on connection conn           *)
(*         "done"                                                          *)
(*   ans   the first response to its id on its connection, NoAns if none   *)
(*   at    the number of dials tried when the call was made                *)
(* A connection is  [fault, closed]: fault when either side of it failed,  *)
(* closed when the client closed it.  dials has an entry for every dial:   *)
(* the number of its connection, 0 for a failed one nobody was told of,    *)
(* -1 for a failed one that was reported to a call.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES calls, conns, dials
rvars == <<calls, conns, dials>>

NoAns == [kind |-> "none", v |-> 0]
NewCall == [st |-> "new", conn |-> 0, id |-> 0, ans |-> NoAns, at |-> Len(dials)]
NewConn == [fault |-> FALSE, closed |-> FALSE]

Init == calls = << >> /\ conns = << >> /\ dials = << >>

\* the answers a response of each kind turns into
Outcome(kind) == CASE kind = "result" -> "val"
                   [] kind = "error" -> "rpcerr"
                   [] kind = "null" -> "notfound"
                   [] kind = "bad" -> "badval"
                   [] OTHER -> "?"

Start == calls' = Append(calls, NewCall) /\ UNCHANGED <<conns, dials>>

Dial == /\ conns' = Append(conns, NewConn)
        /\ dials' = Append(dials, Len(conns) + 1)
        /\ UNCHANGED calls

DialFail == dials' = Append(dials, 0) /\ UNCHANGED <<calls, conns>>

InFlight(c) == calls[c].st = "sent"

\* the request of call c arrives on connection k, for the first time, complete
Req(k, id, c) ==
  /\ c \in 1..Len(calls) /\ k \in 1..Len(conns)
  /\ calls[c].st = "new"
  /\ k = Len(conns)                       \* always the newest connection
  /\ ~conns[k].closed
  /\ \A d \in 1..Len(calls) : InFlight(d) => calls[d].id # id
  /\ calls' = [calls EXCEPT ![c].st = "sent", ![c].conn = k, ![c].id = id]
  /\ UNCHANGED <<conns, dials>>

\* writing the request of call c to connection k fails half-way
Cut(k, c) ==
  /\ c \in 1..Len(calls) /\ k \in 1..Len(conns)
  /\ calls[c].st = "new"
  /\ k = Len(conns) /\ ~conns[k].closed
  /\ calls' = [calls EXCEPT ![c].st = "cut", ![c].conn = k]
  /\ conns' = [conns EXCEPT ![k].fault = TRUE]
  /\ UNCHANGED dials

\* the server sends a response with the given id on connection k: the answer of
\* the call with that id if it is the first one, of nobody otherwise
Answers(k, id) == {c \in 1..Len(calls) : InFlight(c) /\ calls[c].conn = k /\ calls[c].id = id /\ calls[c].ans = NoAns}
Resp(k, id, kind, v) ==
  /\ calls' = [c \in 1..Len(calls) |->
                 IF c \in Answers(k, id) THEN [calls[c] EXCEPT !.ans = [kind |-> kind, v |-> v]] ELSE calls[c]]
  /\ UNCHANGED <<conns, dials>>

Break(k) == /\ k \in 1..Len(conns)
            /\ conns' = [conns EXCEPT ![k].fault = TRUE]
            /\ UNCHANGED <<calls, dials>>

Close(k) == /\ k \in 1..Len(conns)
            /\ conns' = [conns EXCEPT ![k].closed = TRUE]
            /\ UNCHANGED <<calls, dials>>

Done(c) == calls' = [calls EXCEPT ![c].st = "done"]

\* with exactly what the server sent for it
EndAnswered(c, out, v) ==
  /\ c \in 1..Len(calls) /\ InFlight(c)
  /\ calls[c].ans # NoAns
  /\ out = Outcome(calls[c].ans.kind) /\ v = calls[c].ans.v
  /\ Done(c) /\ UNCHANGED <<conns, dials>>

\* with the fault of its own connection
EndConn(c, k) ==
  /\ c \in 1..Len(calls) /\ calls[c].st \in {"sent", "cut"}
  /\ k = calls[c].conn /\ conns[k].fault
  /\ Done(c) /\ UNCHANGED <<conns, dials>>

\* with the failure of a dial made for it
EndDial(c, n) ==
  /\ c \in 1..Len(calls) /\ calls[c].st = "new"
  /\ n \in (calls[c].at + 1)..Len(dials) /\ dials[n] = 0
  /\ dials' = [dials EXCEPT ![n] = -1]
  /\ Done(c) /\ UNCHANGED conns

\* without having been sent, because it has no JSON form
EndEncode(c) ==
  /\ c \in 1..Len(calls) /\ calls[c].st = "new"
  /\ Done(c) /\ UNCHANGED <<conns, dials>>

\* in the end every call has ended, and only the connection in use is open
Quiet == /\ \A c \in 1..Len(calls) : calls[c].st = "done"
         /\ \A k \in 1..Len(conns) : conns[k].fault \/ k < Len(conns) => conns[k].closed
=============================================================================
