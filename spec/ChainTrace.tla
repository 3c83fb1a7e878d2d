----------------------------- MODULE ChainTrace -----------------------------
(* recorded histories of tevm.Chain and its JSON-RPC interface against Chain *)
EXTENDS Chain, TraceLib
VARIABLE l

Ev == Events[l]
C  == chains[Ev.c]
Upd(c) == chains' = [chains EXCEPT ![Ev.c] = c] /\ UNCHANGED <<saved, unit>>
UpdW(w) == Upd([C EXCEPT !.w = w])
Same == UNCHANGED cvars
Opt(f, v) == f \in DOMAIN Ev => Ev[f] = v
Ok(r) == IF r.st = "ok" THEN "ok" ELSE "err"

\* the gas price of a call
Paid == IF "gp" \in DOMAIN Ev THEN Ev.gp ELSE 0

\* the remote chain below a fork, as the harness describes it
Remote ==
  IF "rem" \notin DOMAIN Ev THEN NoRemote
  ELSE LET R == Ev.rem IN
    [acc  |-> [a \in DOMAIN R.bal |-> [NoAcc EXCEPT !.bal = R.bal[a], !.nonce = R.nonce[a]]],
     code |-> R.code,
     st   |-> [x \in {<<y[1], y[2]>> : y \in {R.st[i] : i \in 1..Len(R.st)}} |->
                 (CHOOSE y \in {R.st[i] : i \in 1..Len(R.st)} : y[1] = x[1] /\ y[2] = x[2])[3] ]]

\* a retrieved block: its transactions are hashes, or the full transactions
BlkIs(r, b, full) ==
  /\ r.n = b.n
  /\ b.n # -1 =>
     /\ r.h = b.h /\ r.p = b.p /\ r.ts = b.ts /\ r.gas = b.gas
     /\ Len(r.txs) = Len(b.txs)
     /\ \A i \in 1..Len(b.txs) : IF full THEN r.txs[i] = C.w.tx[b.txs[i]] ELSE r.txs[i] = b.txs[i]

ObsIs(w) ==
  /\ "bal"   \in DOMAIN Ev => \A a \in DOMAIN Ev.bal   : Ev.bal[a]   = Bal(w, a)
  /\ "nonce" \in DOMAIN Ev => \A a \in DOMAIN Ev.nonce : Ev.nonce[a] = Nonce(w, a)
  /\ "code"  \in DOMAIN Ev => \A a \in DOMAIN Ev.code  : Ev.code[a]  = Code(w, a)
  /\ "dead"  \in DOMAIN Ev => \A a \in DOMAIN Ev.dead  : Ev.dead[a]  = Dead(w, a)
  /\ "ex"    \in DOMAIN Ev => \A a \in DOMAIN Ev.ex    : Ev.ex[a]    = Exists(w, a)
  /\ "empty" \in DOMAIN Ev => \A a \in DOMAIN Ev.empty : Ev.empty[a] = IsEmpty(w, a)
  /\ "st"    \in DOMAIN Ev => \A a \in DOMAIN Ev.st : \A s \in DOMAIN Ev.st[a] : Ev.st[a][s] = Slot(w, a, s)
  /\ "logs"  \in DOMAIN Ev => Ev.logs = w.logs
  /\ "refund" \in DOMAIN Ev => Ev.refund = w.refund
  /\ "num"   \in DOMAIN Ev => Ev.num = C.num
  /\ "total" \in DOMAIN Ev => Ev.total = Total(w)

\* the result of mining the transaction of this event
MineResult ==
  LET r == Exec(C, Ev.price, Ev.from, Ev.to, Ev.n, Ev.p)
  IN IF Ev.g = "tiny" /\ Starves(Ev.p) /\ Ev.to # "" /\ Code(C.w, Ev.to) = "I" /\ r.st # "short"
     THEN Done("fail", C.w, "") ELSE r

GasOk(r) == CASE r.st = "short" -> Ev.used = 0
              [] r.st = "fail"  -> Ev.used = Ev.gas
              [] OTHER          -> Ev.used \in 0..Ev.gas

MineTx == [from |-> Ev.from, to |-> Ev.to, n |-> Ev.n, inp |-> Ev.inp, gas |-> Ev.gas,
           price |-> Ev.price, nonce |-> Ev.nonce]

MinedBy(r) == Mined(C, r, Ev.h, Ev.used, MineTx)

\* stack of snapshots by handle
HandleAt(h) == {i \in 1..Len(C.snaps) : C.snaps[i].h = h}

ReadOk ==
  CASE Ev.k = "bal"    -> Ev.ri = Bal(C.w, Ev.a)
    [] Ev.k = "nonce"  -> Ev.ri = Nonce(C.w, Ev.a)
    [] Ev.k = "code"   -> Ev.rs = Code(C.w, Ev.a)
    [] Ev.k = "hash"   -> Ev.rs = Code(C.w, Ev.a)
    [] Ev.k = "size"   -> Ev.rb = (Code(C.w, Ev.a) # "")
    [] Ev.k = "st"     -> Ev.rs = Slot(C.w, Ev.a, Ev.s)
    [] Ev.k = "dead"   -> Ev.rb = Dead(C.w, Ev.a)
    [] Ev.k = "ex"     -> Ev.rb = Exists(C.w, Ev.a)
    [] Ev.k = "empty"  -> Ev.rb = IsEmpty(C.w, Ev.a)
    [] Ev.k = "refund" -> Ev.ri = C.w.refund
    [] OTHER -> FALSE

Step ==
  CASE Ev.op = "reset" ->
         /\ "rem" \in DOMAIN Ev => Ev.num = Ev.rem.block + 1
         /\ chains' = << NewChain(Ev.num, Ev.hash, Ev.ts, Remote) >>
         /\ saved' = <<>> /\ unit' = Ev.unit
    [] Ev.op = "addbal" -> UpdW(AddBal(C.w, Ev.a, Ev.n))
    [] Ev.op = "subbal" -> UpdW(SubBal(C.w, Ev.a, Ev.n))
    [] Ev.op = "newacct" -> ~Exists(C.w, Ev.a) /\ UpdW(SetAcc(C.w, Ev.a, [NoAcc EXCEPT !.bal = Ev.n]))
    [] Ev.op = "call" ->
         LET r == Call(C.w, Env(C, 0), unit, Ev.from, Ev.to, 0, Ev.p)
         IN Ev.st = Ok(r) /\ (r.st = "ok" => Opt("ret", r.ret)) /\ UpdW(r.w)
    [] Ev.op = "send" ->
         LET r == Call(C.w, Env(C, 0), unit, Ev.from, Ev.to, Ev.n, <<>>)
         IN Ev.st = Ok(r) /\ UpdW(r.w)
    [] Ev.op = "create" ->
         LET r == Create(C.w, Env(C, 0), unit, Ev.from, 0, Ev.p)
         IN Ev.st = Ok(r) /\ (r.st = "ok" => Opt("addr", r.ret)) /\ UpdW(r.w)
    [] Ev.op = "createat" ->
         LET r == CreateAt(C.w, Env(C, 0), unit, Ev.a, Ev.from, Ev.p)
         IN Ev.st = Ok(r) /\ UpdW(r.w)
    [] Ev.op = "mine" ->
         LET r == MineResult
         IN /\ Opt("st", Ok(r)) /\ (r.st = "ok" /\ Ev.to # "" => Opt("ret", r.ret))
            /\ GasOk(r) /\ Ev.h \notin DOMAIN C.w.tx
            /\ Upd(MinedBy(r))
    [] Ev.op = "rsend" ->
         LET r == MineResult
         IN /\ Ev.st = Ok(r) /\ GasOk(r) /\ Ev.h \notin DOMAIN C.w.tx
            /\ IF r.st = "ok"
               THEN Ev.hash \notin Hashes(C) /\ Upd(Sealed(MinedBy(r), Ev.hash, Ev.ts))
               ELSE Ev.hash = C.hash /\ Upd(MinedBy(r))
    [] Ev.op = "seal" ->
         /\ Ev.num = C.num + 1 /\ Ev.hash \notin Hashes(C)
         /\ Upd(Sealed(C, Ev.hash, Ev.ts))
    [] Ev.op = "static" ->
         LET r == Static(C.w, Env(C, 0), unit, Ev.from, Ev.to, Ev.p)
         IN Ev.st = Ok(r) /\ (r.st = "ok" => Opt("ret", r.ret)) /\ Same
    [] Ev.op = "rcall" ->
         /\ IF ~Viewable(C, Ev.blk) THEN Ev.st = "err"
            ELSE LET r == Static(WorldAt(C, Ev.blk), EnvAt(C, Ev.blk, Paid), unit, Ev.from, Ev.to, Ev.p)
                 IN Ev.st = Ok(r) /\ (r.st = "ok" => Opt("ret", r.ret))
         /\ Same
    [] Ev.op = "rest" ->
         /\ IF ~Viewable(C, Ev.blk) THEN Ev.st = "err"
            ELSE Ev.st = Ok(ExecIn(WorldAt(C, Ev.blk), EnvAt(C, Ev.blk, Paid), Ev.from, Ev.to, Ev.n, Ev.p))
         /\ Same
    [] Ev.op = "rbal" ->
         /\ IF ~Viewable(C, Ev.blk) THEN Ev.st = "err"
            ELSE Ev.st = "ok" /\ Ev.r = Bal(WorldAt(C, Ev.blk), Ev.a)
         /\ Same
    [] Ev.op = "rnum" -> Ev.st = "ok" /\ Ev.n = C.num /\ Same
    \* what isn't a request, or has the wrong parameters, is refused
    [] Ev.op = "rbad" -> Ev.st = "err" /\ Same
    \* the EVM's own view of the state
    [] Ev.op = "s.create"   -> UpdW(CreateAccount(C.w, Ev.a))
    [] Ev.op = "s.addbal"   -> UpdW(AddBal(C.w, Ev.a, Ev.n))
    [] Ev.op = "s.subbal"   -> UpdW(SubBal(C.w, Ev.a, Ev.n))
    [] Ev.op = "s.setnonce" -> UpdW(SetNonce(C.w, Ev.a, Ev.n))
    [] Ev.op = "s.setcode"  -> UpdW(SetCode(C.w, Ev.a, Ev.v))
    [] Ev.op = "s.setst"    -> UpdW(SetSlot(C.w, Ev.a, Ev.s, Ev.v))
    [] Ev.op = "s.suicide"  -> UpdW(Suicide(C.w, Ev.a))
    [] Ev.op = "s.log"      -> UpdW(AddLog(C.w, RawLog(Ev.a, Ev.t, Ev.d, Ev.bn)))
    [] Ev.op = "s.addrefund" -> UpdW([C.w EXCEPT !.refund = @ + Ev.n])
    [] Ev.op = "s.subrefund" -> UpdW([C.w EXCEPT !.refund = @ - Ev.n])
    [] Ev.op = "s.snap"     -> /\ \A i \in 1..Len(C.snaps) : C.snaps[i].h < Ev.hd
                               /\ Upd([C EXCEPT !.snaps = Append(@, [h |-> Ev.hd, w |-> C.w])])
    [] Ev.op = "s.revert"   -> IF HandleAt(Ev.hd) = {} THEN Ev.st = "refused" /\ Same
                               ELSE LET i == CHOOSE i \in HandleAt(Ev.hd) : TRUE IN
                                    /\ Ev.st = "ok"
                                    /\ Upd([C EXCEPT !.w = C.snaps[i].w, !.snaps = SubSeq(@, 1, i - 1)])
    [] Ev.op = "rd" -> ReadOk /\ Same
    [] Ev.op = "copy" -> chains' = Append(chains, CopyOf(C)) /\ UNCHANGED <<saved, unit>>
    [] Ev.op = "view" ->
         IF ~Viewable(C, Ev.blk) THEN Ev.r = "none" /\ Same
         ELSE IF ViewNum(C, Ev.blk) = C.num THEN Ev.r = "same" /\ Same
         ELSE Ev.r = "view" /\ chains' = Append(chains, ViewOf(C, Ev.blk)) /\ UNCHANGED <<saved, unit>>
    [] Ev.op = "save" -> saved' = Append(saved, C) /\ UNCHANGED <<chains, unit>>
    [] Ev.op = "load" ->
         LET x == [saved[Ev.i] EXCEPT !.filt = Nothing, !.nf = 0]
         IN /\ chains' = IF Ev.d > Len(chains) THEN Append(chains, x) ELSE [chains EXCEPT ![Ev.d] = x]
            /\ UNCHANGED <<saved, unit>>
    [] Ev.op = "blk" ->
         LET b == IF Ev.by = "hash" THEN BlkByHash(C, Ev.h)
                  ELSE IF Ev.by = "num" THEN BlkByNum(C, Ev.n)
                  ELSE IF Ev.n = -1 THEN PendingBlk(C) ELSE BlkByNum(C, C.num - 1)
         IN BlkIs(Ev.r, b, Ev.full) /\ Same
    [] Ev.op = "tx" ->
         /\ IF Ev.h \in DOMAIN C.w.tx THEN Ev.st = "ok" /\ Ev.r = C.w.tx[Ev.h] ELSE Ev.st = "err"
         /\ Same
    [] Ev.op = "rx" ->
         /\ IF Ev.h \in DOMAIN C.w.rx
            THEN Ev.st = "ok" /\ Ev.r = (IF C.w.rx[Ev.h].st = 1 THEN C.w.rx[Ev.h] ELSE [C.w.rx[Ev.h] EXCEPT !.addr = ""])
            ELSE Ev.st = "err"
         /\ Same
    [] Ev.op = "newf" ->
         IF Ev.from >= 0 /\ Ev.to >= 0 /\ Ev.from > Ev.to THEN Ev.st = "err" /\ Same
         ELSE /\ Ev.st = "ok" /\ Ev.id \notin DOMAIN C.filt
              /\ Upd([C EXCEPT !.filt = Over(@, Ev.id, NewFilter(C, Ev.from, Ev.to, Ev.addr, Ev.topics)), !.nf = @ + 1])
    [] Ev.op = "poll" ->
         IF Ev.id \notin DOMAIN C.filt THEN Ev.st = "err" /\ Same
         ELSE /\ Ev.st = "ok" /\ Ev.logs = Changes(C, Ev.id)
              /\ Upd([C EXCEPT !.filt[Ev.id].seen = Len(C.w.logs)])
    [] Ev.op = "flogs" ->
         IF Ev.id \notin DOMAIN C.filt THEN Ev.st = "err" /\ Same
         ELSE /\ Ev.st = "ok" /\ Ev.logs = AllLogs(C, Ev.id)
              /\ Upd([C EXCEPT !.filt[Ev.id].seen = Len(C.w.logs)])
    [] Ev.op = "unf" ->
         /\ Ev.st = "ok" /\ Ev.r = (Ev.id \in DOMAIN C.filt)
         /\ Upd([C EXCEPT !.filt = [i \in DOMAIN @ \ {Ev.id} |-> @[i]]])
    \* the remote chain of a fork is only read, and only at the fork block
    [] Ev.op = "req" ->
         /\ Ev.m \in {"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt"}
         /\ Ev.blk = Ev.fork /\ Same
    \* a view goes its own way when it is sealed: nobody else notices
    [] Ev.op = "vseal" -> C.view /\ Same
    [] Ev.op = "obs" -> ObsIs(C.w) /\ Same
    [] OTHER -> FALSE

TInit == chains = <<>> /\ saved = <<>> /\ unit = "1" /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<chains, saved, unit, l>>
=============================================================================
