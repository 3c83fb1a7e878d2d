------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The mock chain (tevm.Chain) as its users see it.                        *)
(*                                                                         *)
(* chains is the family of chain objects of a history: the first one, its  *)
(* copies, views of past blocks, and chains loaded from saved ones.  Each  *)
(* object has its own world; nothing is shared, which is precisely what    *)
(* copies and views are supposed to look like.                             *)
(*                                                                         *)
(* The operators below give the object that results from an operation;     *)
(* the actions of ChainTrace and MCChain apply them.                       *)
(***************************************************************************)
EXTENDS EVM

VARIABLES chains, saved, unit

cvars == <<chains, saved, unit>>

NewChain(num, hash, ts, rem) ==
  [w |-> EmptyWorld(rem), num |-> num, hash |-> hash, parent |-> "", ts |-> ts, txs |-> <<>>, gas |-> 0,
   prx |-> <<>>, sealed |-> Nothing, filt |-> Nothing, nf |-> 0, view |-> FALSE, snaps |-> <<>>, top |-> -1]

\* the pending block, or a sealed one, as it is retrieved
PendingBlk(c) == [n |-> c.num, h |-> c.hash, p |-> c.parent, ts |-> c.ts, txs |-> c.txs, gas |-> c.gas]

\* objects for block designations: -1 is pending, -2 latest (pending if nothing is sealed)
ViewNum(c, b) ==
  IF b = -1 \/ b = c.num THEN c.num
  ELSE IF b = -2 \/ b = c.num - 1
       THEN IF (c.num - 1) \in DOMAIN c.sealed THEN c.num - 1 ELSE c.num
       ELSE b

\* whether block b can be viewed
Viewable(c, b) == LET n == ViewNum(c, b) IN n = c.num \/ (~c.view /\ n \in DOMAIN c.sealed)

WorldAt(c, b) == LET n == ViewNum(c, b) IN IF n = c.num THEN c.w ELSE c.sealed[n].w
NumAt(c, b)   == ViewNum(c, b)
\* what an execution at gas price gp finds around it in the pending block, or in block b
Env(c, gp) == [num |-> c.num, ts |-> c.ts, parent |-> c.parent, gp |-> gp]
EnvAt(c, b, gp) ==
  LET n == ViewNum(c, b) IN
  IF n = c.num THEN Env(c, gp)
  ELSE [num |-> n, ts |-> c.sealed[n].blk.ts, parent |-> c.sealed[n].blk.p, gp |-> gp]

\* the chain object for block b, when it is not the pending one
ViewOf(c, b) ==
  LET s == c.sealed[ViewNum(c, b)]
  IN [c EXCEPT !.w = s.w, !.num = s.blk.n, !.hash = s.blk.h, !.parent = s.blk.p, !.ts = s.blk.ts,
               !.txs = s.blk.txs, !.gas = s.blk.gas, !.prx = <<>>, !.filt = Nothing, !.nf = 0,
               !.view = TRUE, !.snaps = <<>>, !.top = -1]

\* a copy has no filters; snapshots taken before remain usable in it
CopyOf(c) == [c EXCEPT !.filt = Nothing, !.nf = 0]

----------------------------------------------------------------------------
(* the ledger *)

\* where a log emitted now stands in the pending block
RECURSIVE Trailing(_, _)
Trailing(logs, num) == IF logs = <<>> \/ logs[Len(logs)].bn # num THEN 0
                       ELSE 1 + Trailing(SubSeq(logs, 1, Len(logs) - 1), num)

\* the logs after position l0 belong to transaction h, number ti of block (num, bh)
Stamp(logs, l0, num, bh, h, ti) ==
  LET first == Trailing(SubSeq(logs, 1, l0), num)
  IN [i \in 1..Len(logs) |-> IF i <= l0 THEN logs[i]
        ELSE [logs[i] EXCEPT !.bh = bh, !.h = h, !.ti = ti, !.li = first + (i - l0) - 1]]

\* what a transaction does: to = "" creates a contract
ExecIn(w, env, from, to, n, p) ==
  IF to = "" THEN Create(w, env, unit, from, n, p) ELSE Call(w, env, unit, from, to, n, p)
Exec(c, gp, from, to, n, p) == ExecIn(c.w, Env(c, gp), from, to, n, p)

\* mine: r is the result of its execution (Exec, or a failure for want of gas),
\* used the gas it used, tx the transaction's own fields
Mined(c, r, h, used, tx) ==
  LET ti   == Len(c.txs)
      l0   == Len(c.w.logs)
      w1   == r.w
      logs == Stamp(w1.logs, l0, c.num, c.hash, h, ti)
      rx   == [h |-> h, ti |-> ti, bh |-> "", bn |-> c.num, gas |-> used, cum |-> c.gas + used,
               addr |-> IF tx.to = "" THEN r.ret ELSE "",
               st |-> IF r.st = "ok" THEN 1 ELSE 0,
               logs |-> SubSeq(logs, l0 + 1, Len(logs))]
      full == tx @@ [h |-> h, bh |-> c.hash, bn |-> c.num, ti |-> ti]
  IN [c EXCEPT !.w = [w1 EXCEPT !.logs = logs, !.tx = Over(@, h, full)],
               !.txs = Append(@, h), !.gas = @ + used, !.prx = Append(@, rx)]

\* seal the pending block and go on with a new one
Sealed(c, hash, ts) ==
  LET w1 == [c.w EXCEPT !.rx = [h \in {c.prx[i].h : i \in 1..Len(c.prx)} |->
                                   LET i == CHOOSE i \in 1..Len(c.prx) : c.prx[i].h = h
                                   IN [c.prx[i] EXCEPT !.bh = c.hash]] @@ @]
  IN [c EXCEPT !.w = w1, !.prx = <<>>,
               !.sealed = Over(@, c.num, [w |-> w1, blk |-> PendingBlk(c)]),
               !.num = @ + 1, !.parent = c.hash, !.hash = hash, !.ts = ts, !.txs = <<>>, !.gas = 0]

Hashes(c) == {c.hash} \cup {c.sealed[n].blk.h : n \in DOMAIN c.sealed}

\* the block with number n or hash h; NoBlk if there is none
NoBlk == [n |-> -1]
BlkByNum(c, n) == IF n = c.num THEN PendingBlk(c)
                  ELSE IF n \in DOMAIN c.sealed THEN c.sealed[n].blk ELSE NoBlk
BlkByHash(c, h) == IF h = c.hash THEN PendingBlk(c)
                   ELSE IF \E n \in DOMAIN c.sealed : c.sealed[n].blk.h = h
                        THEN c.sealed[CHOOSE n \in DOMAIN c.sealed : c.sealed[n].blk.h = h].blk ELSE NoBlk

----------------------------------------------------------------------------
(* log filters *)

MatchTopics(pat, t) == \A i \in 1..Len(pat) : pat[i] = "" \/ (i <= Len(t) /\ t[i] = pat[i])

Matches(f, log) ==
  /\ f.from >= 0 => log.bn >= f.from
  /\ f.to >= 0   => log.bn <= f.to
  /\ f.addr # "" => log.a = f.addr
  /\ MatchTopics(f.topics, log.t)

\* -1 and -2 stand for the blocks pending and latest when the filter is made
NewFilter(c, from, to, addr, topics) ==
  [from |-> CASE from = -1 -> c.num [] from = -2 -> c.num - 1 [] OTHER -> from,
   to |-> to, addr |-> addr, topics |-> topics, seen |-> Len(c.w.logs)]

RECURSIVE Select(_, _)
Select(f, logs) == IF logs = <<>> THEN <<>>
                   ELSE (IF Matches(f, Head(logs)) THEN <<Head(logs)>> ELSE <<>>) \o Select(f, Tail(logs))

Changes(c, id) == LET f == c.filt[id] IN Select(f, SubSeq(c.w.logs, f.seen + 1, Len(c.w.logs)))
AllLogs(c, id) == Select(c.filt[id], c.w.logs)
=============================================================================
