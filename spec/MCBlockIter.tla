---------------------------- MODULE MCBlockIter ----------------------------
(* the iterator's goroutine, its channel and its user, at the grain of the     *)
(* code's steps, against BlockIter                                             *)
EXTENDS Integers, Sequences
CONSTANTS MaxBlocks, MaxFails, Buf
VARIABLES it, pc, chan, next, hand, done, fails, spc
A == INSTANCE BlockIter
vars == <<it, pc, chan, next, hand, done, fails, spc>>
Init == it = [A!None EXCEPT !.on = TRUE] /\ pc = "top" /\ chan = << >> /\ next = 0 /\ hand = 0 /\ done = FALSE /\ fails = 0 /\ spc = "no"
GTop == /\ pc = "top" /\ pc' = (IF done THEN "close" ELSE "ask") /\ UNCHANGED <<it, chan, next, hand, done, fails, spc>>
GAsk == /\ pc = "ask" /\ A!Req(next, FALSE) /\ pc' = "wait" /\ UNCHANGED <<chan, next, hand, done, fails, spc>>
SBlock == /\ pc = "wait" /\ next < MaxBlocks /\ A!Reply("block", next + 1) /\ hand' = next + 1 /\ pc' = "send"
          /\ UNCHANGED <<chan, next, done, fails, spc>>
SFail == /\ pc = "wait" /\ (fails < MaxFails \/ next = MaxBlocks) /\ A!Reply("rpc", 0)
         /\ fails' = (IF next = MaxBlocks THEN fails ELSE fails + 1)
         /\ pc' = "top" /\ UNCHANGED <<chan, next, hand, done, spc>>
GSend == /\ pc = "send" /\ Len(chan) < Buf /\ chan' = Append(chan, hand) /\ next' = next + 1 /\ pc' = "top"
         /\ UNCHANGED <<it, hand, done, fails, spc>>
GClose == /\ pc = "close" /\ pc' = "end" /\ UNCHANGED <<it, chan, next, hand, done, fails, spc>>
URecv == /\ chan # << >> /\ A!Recv(it.rcvd, Head(chan)) /\ chan' = Tail(chan) /\ UNCHANGED <<pc, next, hand, done, fails, spc>>
UEnd == /\ pc = "end" /\ chan = << >> /\ A!End /\ UNCHANGED <<pc, chan, next, hand, done, fails, spc>>
UStop == /\ spc = "no" /\ A!Stop /\ spc' = "called" /\ UNCHANGED <<pc, chan, next, hand, done, fails>>
UStop2 == /\ spc = "called" /\ ~done /\ done' = TRUE /\ UNCHANGED <<it, pc, chan, next, hand, fails, spc>>
UStop3 == /\ spc = "called" /\ done /\ A!Stopped /\ spc' = "done" /\ UNCHANGED <<pc, chan, next, hand, done, fails>>
Next == GTop \/ GAsk \/ SBlock \/ SFail \/ GSend \/ GClose \/ URecv \/ UEnd \/ UStop \/ UStop2 \/ UStop3
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(GTop \/ GAsk \/ GSend \/ GClose) /\ WF_vars(SFail \/ SBlock) /\ SF_vars(SBlock)
        /\ WF_vars(URecv \/ UEnd) /\ WF_vars(UStop2 \/ UStop3)
Nothing_lost == SubSeq(it.got, it.rcvd + 1, Len(it.got)) = chan \o (IF pc = "send" THEN << hand >> ELSE << >>)
\* an action that BlockIter forbids at that point would block here: the request is always allowed
ReqAllowed == pc = "ask" => ENABLED A!Req(next, FALSE)
InOrder == \A i \in 1..Len(it.got) : it.got[i] = i
Ends == (it.stop = "done") ~> it.ended
Delivers == \A n \in 1..MaxBlocks : (it.stop = "no" /\ Len(it.got) >= n) ~> (it.rcvd >= n \/ it.ended)
Advances == [](it.stop = "no") => <>(it.rcvd = MaxBlocks)
=============================================================================
