------------------------------ MODULE RpcImpl ------------------------------
(***************************************************************************)
(* The design of seth.RPCTransport at the grain of its critical sections:  *)
(* a table of pending calls under a lock, an encoder for the current       *)
(* connection, one reader goroutine per connection.  TLC checks that it    *)
(* refines Rpc (every behaviour is one the abstract specification allows), *)
(* and that no call hangs once its connection is broken.                   *)
(*                                                                         *)
(* calls, conns and dials are the variables of Rpc: here they record the   *)
(* history of what is visible from outside.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NCalls, MaxConns, MaxResp, MaxDialFails,
          SharedReader   \* FALSE; TRUE is the design before it was repaired: the reader aborts
                         \* whatever connection is current and the table is not checked

VARIABLES calls, conns, dials,   \* visible
          cur,                   \* the current connection, 0 if none (t.conn, t.enc)
          pend,                  \* id -> call (t.pending)
          wire,                  \* connection -> responses sent and not read yet
          rd,                    \* connection -> "run" | "dead" | <<"got", call>>: its reader
          res,                   \* call -> the result put into p, "none" while p.notify is open
          nresp

ivars == <<calls, conns, dials, cur, pend, wire, rd, res, nresp>>
rvars == <<calls, conns, dials>>
R == INSTANCE Rpc

None == [out |-> "none", v |-> 0]

Init == /\ R!Init /\ cur = 0 /\ pend = << >> /\ wire = << >> /\ rd = << >> /\ res = << >> /\ nresp = 0

AStart == /\ Len(calls) < NCalls
          /\ calls' = Append(calls, R!NewCall)
          /\ res' = Append(res, None)
          /\ UNCHANGED <<conns, dials, cur, pend, wire, rd, nresp>>

Waiting(c) == calls[c].st = "new" /\ res[c] = None /\ c \notin {pend[i] : i \in DOMAIN pend}

ADialFail(c) ==      \* the error is on its way to the caller: it does not hold the lock any more
  /\ Waiting(c) /\ cur = 0 /\ Cardinality({i \in 1..Len(dials) : dials[i] < 1}) < MaxDialFails
  /\ dials' = Append(dials, 0)
  /\ res' = [res EXCEPT ![c] = [out |-> "dial", v |-> Len(dials) + 1]]
  /\ UNCHANGED <<calls, conns, cur, pend, wire, rd, nresp>>

ADial(c) ==          \* still holding the lock, but the dial is a visible step of its own
  /\ Waiting(c) /\ cur = 0 /\ Len(conns) < MaxConns
  /\ conns' = Append(conns, R!NewConn)
  /\ dials' = Append(dials, Len(conns) + 1)
  /\ cur' = Len(conns) + 1
  /\ wire' = Append(wire, << >>)
  /\ rd' = Append(rd, <<"run">>)
  /\ UNCHANGED <<calls, pend, res, nresp>>

\* the id of a call is its number
Abort(e) ==
  /\ res' = [c \in 1..Len(calls) |-> IF \E i \in DOMAIN pend' : pend'[i] = c THEN [out |-> "conn", v |-> e] ELSE res[c]]

AEncode(c) ==
  /\ Waiting(c) /\ cur # 0
  /\ pend' = (c :> c) @@ pend
  /\ calls' = [calls EXCEPT ![c].st = "sent", ![c].conn = cur, ![c].id = c]
  /\ UNCHANGED <<conns, dials, cur, wire, rd, res, nresp>>

ACut(c) ==
  /\ Waiting(c) /\ cur # 0
  /\ calls' = [calls EXCEPT ![c].st = "cut", ![c].conn = cur]
  /\ LET p == (c :> c) @@ pend IN
       res' = [d \in 1..Len(calls) |-> IF \E i \in DOMAIN p : p[i] = d THEN [out |-> "conn", v |-> cur] ELSE res[d]]
  /\ pend' = << >>
  /\ conns' = [conns EXCEPT ![cur].fault = TRUE, ![cur].closed = TRUE]
  /\ cur' = 0
  /\ UNCHANGED <<dials, wire, rd, nresp>>

AEnd(c) ==
  /\ calls[c].st # "done" /\ res[c] # None
  /\ calls' = [calls EXCEPT ![c].st = "done"]
  /\ dials' = IF res[c].out = "dial" THEN [dials EXCEPT ![res[c].v] = -1] ELSE dials
  /\ UNCHANGED <<conns, cur, pend, wire, rd, res, nresp>>

\* the server answers an id it has seen on k (also a second time), or one nobody used
AResp(k) ==
  /\ nresp < MaxResp /\ ~conns[k].fault
  /\ \E id \in {calls[c].id : c \in {d \in 1..Len(calls) : calls[d].conn = k /\ calls[d].id # 0}} \cup {0} :
       /\ R!Resp(k, id, "result", nresp + 1)
       /\ wire' = [wire EXCEPT ![k] = Append(@, [id |-> id, v |-> nresp + 1])]
  /\ nresp' = nresp + 1
  /\ UNCHANGED <<cur, pend, rd, res>>

ABreak(k) == /\ ~conns[k].fault /\ R!Break(k) /\ UNCHANGED <<cur, pend, wire, rd, res, nresp>>

\* a response is read and its call taken out of the table
ALookup(k) ==
  /\ rd[k] = <<"run">> /\ wire[k] # << >> /\ ~conns[k].closed
  /\ wire' = [wire EXCEPT ![k] = Tail(@)]
  /\ LET m == Head(wire[k]) IN
       IF m.id \in DOMAIN pend
       THEN /\ rd' = [rd EXCEPT ![k] = <<"got", pend[m.id], m.v>>]
            /\ pend' = [i \in (DOMAIN pend) \ {m.id} |-> pend[i]]
       ELSE UNCHANGED <<rd, pend>>
  /\ UNCHANGED <<calls, conns, dials, cur, res, nresp>>

\* outside of the lock: the result is handed over
ADeliver(k) ==
  /\ Len(rd[k]) = 3
  /\ res' = [res EXCEPT ![rd[k][2]] = [out |-> "val", v |-> rd[k][3]]]
  /\ rd' = [rd EXCEPT ![k] = <<"run">>]
  /\ UNCHANGED <<calls, conns, dials, cur, pend, wire, nresp>>

\* reading fails: after everything before the fault was read, or at once after a close
AReadErr(k) ==
  /\ rd[k] = <<"run">> /\ (conns[k].closed \/ (conns[k].fault /\ wire[k] = << >>))
  /\ rd' = [rd EXCEPT ![k] = <<"dead">>]
  /\ IF cur # 0 /\ (cur = k \/ SharedReader)
     THEN /\ res' = [c \in 1..Len(calls) |-> IF \E i \in DOMAIN pend : pend[i] = c THEN [out |-> "conn", v |-> k] ELSE res[c]]
          /\ pend' = << >>
          /\ conns' = [conns EXCEPT ![cur].closed = TRUE]
          /\ cur' = 0
     ELSE UNCHANGED <<res, pend, conns, cur>>
  /\ UNCHANGED <<calls, dials, wire, nresp>>

DDialFail == \E c \in 1..Len(calls) : ADialFail(c)
DDial     == \E c \in 1..Len(calls) : ADial(c)
DEncode   == \E c \in 1..Len(calls) : AEncode(c)
DCut      == \E c \in 1..Len(calls) : ACut(c)
DEnd      == \E c \in 1..Len(calls) : AEnd(c)
DResp     == \E k \in 1..Len(conns) : AResp(k)
DBreak    == \E k \in 1..Len(conns) : ABreak(k)
DLookup   == \E k \in 1..Len(conns) : ALookup(k)
DDeliver  == \E k \in 1..Len(conns) : ADeliver(k)
DReadErr  == \E k \in 1..Len(conns) : AReadErr(k)
Next == \/ AStart \/ DDialFail \/ DDial \/ DEncode \/ DCut \/ DEnd
        \/ DResp \/ DBreak \/ DLookup \/ DDeliver \/ DReadErr

Fair == /\ \A c \in 1..NCalls : WF_ivars(c \in 1..Len(calls) /\ AEnd(c))
        /\ \A k \in 1..MaxConns : WF_ivars(k \in 1..Len(conns) /\ (ALookup(k) \/ ADeliver(k) \/ AReadErr(k)))
Spec == Init /\ [][Next]_ivars /\ Fair

(* refinement: every step is a step of Rpc that its guards allow, or invisible *)
RNext == \/ R!Start \/ R!Dial \/ R!DialFail
         \/ \E c \in 1..Len(calls) :
              \/ \E k \in 1..Len(conns) : R!Cut(k, c) \/ R!EndConn(c, k)
              \/ \E n \in 1..Len(dials) : R!EndDial(c, n)
              \/ R!EndAnswered(c, "val", calls[c].ans.v)
              \/ \E k \in 1..Len(conns) : R!Req(k, c, c)
         \/ \E k \in 1..Len(conns) :
              \/ R!Break(k) \/ R!Close(k)
              \/ \E id \in 0..NCalls : R!Resp(k, id, "result", nresp + 1)
CutAndClose == \E c \in 1..Len(calls), k \in 1..Len(conns) :    \* two steps of Rpc at once
                 /\ calls[c].st = "new" /\ k = Len(conns) /\ ~conns[k].closed
                 /\ calls' = [calls EXCEPT ![c].st = "cut", ![c].conn = k]
                 /\ conns' = [conns EXCEPT ![k].fault = TRUE, ![k].closed = TRUE]
                 /\ UNCHANGED dials
Refines == [][RNext \/ CutAndClose]_rvars

\* the result a call ends with is one that Rpc allows (checked when it is about to end)
ResultsAllowed ==
  \A c \in 1..Len(calls) :
    calls[c].st # "done" /\ res[c] # None =>
      CASE res[c].out = "val"  -> calls[c].st = "sent" /\ calls[c].ans = [kind |-> "result", v |-> res[c].v]
        [] res[c].out = "conn" -> calls[c].st \in {"sent", "cut"} /\ res[c].v = calls[c].conn /\ conns[res[c].v].fault
        [] res[c].out = "dial" -> calls[c].st = "new" /\ res[c].v > calls[c].at /\ dials[res[c].v] = 0
        [] OTHER -> FALSE

OneCurrent == cur # 0 => cur = Len(conns) /\ ~conns[cur].closed
PendingSent == \A i \in DOMAIN pend : calls[pend[i]].st = "sent" /\ calls[pend[i]].conn = cur

\* no call hangs when its connection is broken or its answer was sent
NoHang == \A c \in 1..NCalls :
            (c \in 1..Len(calls) /\ (\/ calls[c].st = "cut"
                                     \/ calls[c].st = "sent" /\ (conns[calls[c].conn].fault \/ calls[c].ans # R!NoAns)))
            ~> (c \in 1..Len(calls) /\ calls[c].st = "done")

\* a connection that is broken is closed, also when no call is in flight on it
Closes == \A k \in 1..MaxConns :
            (k \in 1..Len(conns) /\ conns[k].fault) ~> (k \in 1..Len(conns) /\ conns[k].closed)
=============================================================================
