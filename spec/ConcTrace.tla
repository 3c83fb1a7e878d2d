----------------------------- MODULE ConcTrace -----------------------------
(***************************************************************************)
(* C26: histories of a chain that several goroutines use at once.          *)
(*                                                                         *)
(* An event with a field who begins an operation of that goroutine, and says    *)
(* what its results were; "return" ends it.  In between, the operation     *)
(* takes effect at once, as Chain says: the history is accepted if there   *)
(* is an order for that.  Nothing is lost by having operations take effect *)
(* only right before one of them has to return.                            *)
(*                                                                         *)
(* The hashes and times of the blocks of the main chain, which an          *)
(* operation that seals does not tell, come with the first event: they are *)
(* what the chain said in the end.                                         *)
(***************************************************************************)
EXTENDS ChainTrace
VARIABLES pos,   \* the next event
          begun  \* goroutine -> the event that its operation began with; 0 when it has taken effect
cv == <<chains, saved, unit, l, pos, begun>>
\* l is the event whose operation takes effect now, 0 if there is none

At == Events[pos]
First == LET RECURSIVE start(_)
             start(i) == IF Events[i].op = "reset" THEN Events[i] ELSE start(i - 1)
         IN start(l)
Blks == First.blks
Blk(n) == {i \in 1..Len(Blks) : Blks[i].n = n}
\* The following is implied by what is looked at in the end. It is for the
\* search to find out early that it went astray.
StateIs(o, w) == "bal" \in DOMAIN o =>
  /\ \A a \in DOMAIN o.bal   : o.bal[a]   = Bal(w, a)
  /\ \A a \in DOMAIN o.nonce : o.nonce[a] = Nonce(w, a)
  /\ \A a \in DOMAIN o.st : \A s \in DOMAIN o.st[a] : o.st[a][s] = Slot(w, a, s)
LogsBegin(logs) == /\ Len(logs) <= Len(First.logs)
                   /\ \A i \in 1..Len(logs) : LET x == logs[i]  y == First.logs[i] IN x.a = y.a /\ x.t = y.t /\ x.d = y.d /\ x.bn = y.bn
Placed(c) == "bn" \in DOMAIN Ev => Ev.bn = c.num /\ Ev.ti = Len(c.txs)
OnTrack == Ev.op \in {"call", "mine", "rsend", "create", "createat"} /\ Ev.c = 1 => LogsBegin(chains'[1].w.logs)

SealedBy(c) == \E i \in Blk(c.num + 1) :
  /\ Blks[i].h \notin Hashes(C)
  /\ \A j \in Blk(c.num) : StateIs(Blks[j], c.w)
  /\ Upd(Sealed(c, Blks[i].h, Blks[i].ts))
NewObject(x) == chains' = Over(chains, Ev.d, x) /\ UNCHANGED <<saved, unit>>

Effect ==
  CASE Ev.op = "rsend" /\ "who" \in DOMAIN Ev ->
         LET r == MineResult IN
         /\ Placed(C) /\ Ev.st = Ok(r) /\ GasOk(r) /\ Ev.h \notin DOMAIN C.w.tx
         /\ IF r.st = "ok" THEN SealedBy(MinedBy(r)) ELSE Upd(MinedBy(r))
    [] Ev.op = "seal" /\ "who" \in DOMAIN Ev /\ Ev.c = 1 -> SealedBy(C)
    [] Ev.op = "copy" -> Ev.st = "ok" /\ NewObject(CopyOf(C))
    [] Ev.op = "view" ->
         IF ~Viewable(C, Ev.blk) THEN Ev.r = "none" /\ Same
         ELSE IF ViewNum(C, Ev.blk) = C.num THEN Ev.r = "same" /\ Same
         ELSE Ev.r = "view" /\ NewObject(ViewOf(C, Ev.blk))
    [] Ev.op = "mine" -> Placed(C) /\ Step
    [] OTHER -> Step

Sequential == "who" \notin DOMAIN At
Begin  == /\ ~Sequential /\ At.op # "return"
          /\ At.who \notin DOMAIN begun
          /\ begun' = (At.who :> pos) @@ begun /\ pos' = pos + 1 /\ UNCHANGED <<chains, saved, unit, l>>
Return == /\ At.op = "return" /\ At.who \in DOMAIN begun /\ begun[At.who] = 0
          /\ begun' = [g \in DOMAIN begun \ {At.who} |-> begun[g]]
          /\ LET D == {At.drop[i] : i \in 1..Len(At.drop)} IN  \* nobody uses these any more
               chains' = IF D = {} THEN chains ELSE [d \in DOMAIN chains \ D |-> chains[d]]
          /\ pos' = pos + 1 /\ UNCHANGED <<saved, unit, l>>
Alone  == Sequential /\ DOMAIN begun = {} /\ l' = pos /\ pos' = pos + 1 /\ UNCHANGED <<chains, saved, unit, begun>>
Choose == /\ At.op = "return" /\ At.who \in DOMAIN begun /\ begun[At.who] # 0
          /\ \E g \in DOMAIN begun : begun[g] # 0 /\ l' = begun[g] /\ begun' = [begun EXCEPT ![g] = 0]
          /\ UNCHANGED <<chains, saved, unit, pos>>
Happen == l # 0 /\ Effect /\ OnTrack /\ l' = 0 /\ UNCHANGED <<pos, begun>>

CInit == chains = <<>> /\ saved = <<>> /\ unit = "1" /\ l = 0 /\ pos = 1 /\ begun = <<>>
CNext == \/ Happen
         \/ l = 0 /\ pos <= Len(Events) /\ (Begin \/ Return \/ Alone \/ Choose)
CSpec == CInit /\ [][CNext]_cv
\* One way to accept a history is enough: once the next one begins (or the trace ends)
\* the search forgets the others. Register 2 is how far that is.
Settled == IF TLCGetOrDefault(2, 0) < pos /\ (pos > Len(Events) \/ At.op = "reset") /\ l = 0 THEN TLCSet(2, pos) ELSE TRUE
Progress == /\ Track(pos + (IF l = 0 THEN 0 ELSE -1))
            /\ Settled
            /\ pos >= TLCGetOrDefault(2, 0)
=============================================================================
