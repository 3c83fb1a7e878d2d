-------------------------------- MODULE GenRpc --------------------------------
(* schedules of calls, responses and faults for the harness: Rpc with the      *)
(* steps a driver can take one at a time (a call up to the point where it      *)
(* waits or ends, a response together with the end it causes)                  *)
EXTENDS Rpc, TLC, Json
CONSTANTS MaxCalls, Depth, Kinds
VARIABLES arm, hist, done

gvars == <<rvars, arm, hist, done>>

Live == Len(conns) > 0 /\ ~conns[Len(conns)].closed /\ ~conns[Len(conns)].fault
FlightOn(k) == {c \in 1..Len(calls) : calls[c].st = "sent" /\ calls[c].conn = k}
Finish(cs, all) == [c \in 1..Len(cs) |-> IF c \in all THEN [cs[c] EXCEPT !.st = "done"] ELSE cs[c]]

O(o) == hist' = Append(hist, o) /\ UNCHANGED done

\* a call, as far as it gets
GStart(bad) ==
  /\ Len(calls) < MaxCalls
  /\ LET c  == Len(calls) + 1
         k  == IF Live THEN Len(conns) ELSE Len(conns) + 1
         cs == Append(calls, NewCall)
     IN IF bad THEN /\ calls' = Append(calls, [NewCall EXCEPT !.st = "done"])
                    /\ UNCHANGED <<conns, dials, arm>>
        ELSE IF ~Live /\ arm = "dialfail"
        THEN /\ calls' = Append(calls, [NewCall EXCEPT !.st = "done"])
             /\ dials' = Append(dials, -1) /\ arm' = "" /\ UNCHANGED conns
        ELSE /\ dials' = IF Live THEN dials ELSE Append(dials, k)
             /\ IF arm = "cut"
                THEN /\ arm' = ""
                     /\ conns' = (IF Live THEN [conns EXCEPT ![k] = [fault |-> TRUE, closed |-> TRUE]]
                                          ELSE Append(conns, [fault |-> TRUE, closed |-> TRUE]))
                     /\ calls' = Append(Finish(calls, FlightOn(k)), [NewCall EXCEPT !.st = "done"])
                ELSE /\ UNCHANGED arm
                     /\ conns' = (IF Live THEN conns ELSE Append(conns, NewConn))
                     /\ calls' = Append(calls, [NewCall EXCEPT !.st = "sent", !.conn = k, !.id = c])
  /\ O([op |-> "start", c |-> Len(calls) + 1, kind |-> IF bad THEN "bad" ELSE ""])

GArm(a) == /\ arm = "" /\ arm' = a /\ UNCHANGED rvars /\ O([op |-> a, c |-> 0, kind |-> ""])

\* the server answers: the call ends with the answer
GAns(c, kind) == /\ Live /\ c \in FlightOn(Len(conns))
                 /\ calls' = [calls EXCEPT ![c].st = "done"]
                 /\ UNCHANGED <<conns, dials, arm>>
                 /\ O([op |-> "ans", c |-> c, kind |-> kind])
\* a response nobody waits for
GSpurious(c) == /\ Live /\ calls[c].st = "done" /\ calls[c].id # 0
                /\ UNCHANGED <<rvars, arm>>
                /\ O([op |-> "dup", c |-> c, kind |-> "result"])
\* several answers in one piece, in reverse order
GBurst == /\ Live /\ Cardinality(FlightOn(Len(conns))) > 1
          /\ calls' = Finish(calls, FlightOn(Len(conns)))
          /\ UNCHANGED <<conns, dials, arm>>
          /\ O([op |-> "burst", c |-> 0, kind |-> ""])
\* the connection breaks: cleanly, within a response, or with rubbish
GBreak(kind) == /\ Live
                /\ conns' = [conns EXCEPT ![Len(conns)] = [fault |-> TRUE, closed |-> TRUE]]
                /\ calls' = Finish(calls, FlightOn(Len(conns)))
                /\ UNCHANGED <<dials, arm>>
                /\ O([op |-> "brk", c |-> 0, kind |-> kind])

GNext == /\ Len(hist) < Depth
         /\ \/ \E b \in BOOLEAN : GStart(b)
            \/ \E a \in {"dialfail", "cut"} : GArm(a)
            \/ \E c \in 1..Len(calls) : GSpurious(c) \/ \E k \in Kinds : GAns(c, k)
            \/ GBurst
            \/ \E k \in {"eof", "within", "junk"} : GBreak(k)

GEnd == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<rvars, arm, hist>> /\ PrintT(<<"SCRIPT", ToJson(hist)>>)
GSpec == Init /\ arm = "" /\ hist = << >> /\ done = FALSE /\ [][GNext \/ GEnd]_gvars
=============================================================================
