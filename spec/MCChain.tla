------------------------------ MODULE MCChain ------------------------------
(***************************************************************************)
(* The family of chains, closed with users that do anything: exhaustively  *)
(* checked within small constants for the listed properties.               *)
(*                                                                         *)
(* Acts is the set of kinds of operations that take part, Progs the        *)
(* catalogue of programs.  act records the last operation (for the action  *)
(* properties), sum what the users added to the ether there is, got the    *)
(* logs a filter has been polled (C08) and base what there was in the      *)
(* filter's range when it was made.                                        *)
(***************************************************************************)
EXTENDS Chain
CONSTANTS Acts, Progs, Accts, Targets, Amounts, MaxChains, MaxSeals, Depth, Fork
VARIABLES act, sum, got

mvars == <<chains, saved, unit, act, sum, got>>

\* instructions and programs of the catalogue
St(s, v)  == [i |-> "sstore", s |-> s, k |-> "const", v |-> v]
StK(s, k, v) == [i |-> "sstore", s |-> s, k |-> k, v |-> v]
Lg(t, d)  == [i |-> "log", t |-> t, d |-> d]
Cl(k, to, n, f, s, p) == [i |-> "call", k |-> k, to |-> to, n |-> n, g |-> "big", f |-> f, s |-> s, p |-> p]
Cr(n, f, s, p) == [i |-> "create", n |-> n, f |-> f, s |-> s, p |-> p]
Rv == [i |-> "revert"]
Iv == [i |-> "invalid"]
Ds(to) == [i |-> "destroy", to |-> to]
Rt(k, v) == [i |-> "ret", k |-> k, v |-> v]

Prog(x) ==
  CASE x = "none"   -> <<>>
    [] x = "w1"     -> <<St("1", "1")>>
    [] x = "w2"     -> <<St("1", "2")>>
    [] x = "wr"     -> <<St("1", "3"), Rv>>
    [] x = "wi"     -> <<St("2", "3"), Iv>>
    [] x = "log1"   -> <<Lg(<<"1">>, "1")>>
    [] x = "log2"   -> <<Lg(<<"2", "1">>, "2"), Lg(<<>>, "3")>>
    [] x = "logr"   -> <<Lg(<<"1">>, "2"), Rv>>
    [] x = "sub"    -> <<St("1", "1"), Cl("call", "A/0", 1, "store", "2", <<St("1", "2"), Lg(<<"1">>, "1"), Rv>>)>>
    [] x = "subi"   -> <<Lg(<<>>, "1"), Cl("call", "A/0", 0, "ignore", "2", <<St("2", "2"), Iv>>), Lg(<<>>, "2")>>
    [] x = "subok"  -> <<Cl("call", "B", 1, "bubble", "2", <<>>), StK("2", "balance", "B")>>
    [] x = "deep"   -> <<Cl("call", "A/0", 0, "ignore", "1", <<St("1", "3"), Cl("call", "X", 2, "bubble", "1", <<St("1", "4")>>)>>), Lg(<<"2">>, "1")>>
    [] x = "dele"   -> <<Cl("delegate", "X", 0, "store", "1", <<St("2", "3")>>)>>
    [] x = "stat"   -> <<Cl("static", "X", 0, "store", "1", <<St("2", "3")>>)>>
    [] x = "make"   -> <<Cr(1, "store", "2", <<St("1", "1")>>)>>
    [] x = "maker"  -> <<Cr(1, "store", "2", <<St("1", "1"), Rv>>), Lg(<<>>, "3")>>
    [] x = "makesub" -> <<Cr(1, "ignore", "2", <<Cl("call", "A/0", 1, "ignore", "1", <<Lg(<<"1">>, "1")>>), Ds("B")>>)>>
    [] x = "die"    -> <<Ds("B")>>
    [] x = "dieself" -> <<Ds("X")>>
    [] x = "dier"   -> <<Cl("call", "X", 0, "ignore", "1", <<Ds("C")>>), Rv>>
    [] x = "ret1"   -> <<Rt("sload", "1")>>
    [] x = "retb"   -> <<Rt("balance", "B")>>
    [] x = "retc"   -> <<Rt("hascode", "X")>>
    [] x = "retn"   -> <<Rt("number", "")>>

P == Progs
\* programs that may be initialisers
InitProgs == {x \in Progs : LET p == Prog(x) IN \A j \in 1..Len(p) : p[j].i \notin {"ret", "invalid"}}

Blks(c) == {-1, -2, c.num, c.num + 1} \cup DOMAIN c.sealed
HashName(c) == "b" \o ToString(c.num + 1)
TxName == "t" \o ToString(TLCGet("level"))

Upd(i, c) == chains' = [chains EXCEPT ![i] = c] /\ UNCHANGED <<saved, unit>>
Did(o) == act' = o
Adds(n) == sum' = sum + n
Same == UNCHANGED cvars
Quiet == UNCHANGED <<sum, got>>

\* everything that an operation does to chain i
Op(i, o) ==
  LET c == chains[i] IN
  CASE o.op = "addbal" -> Upd(i, [c EXCEPT !.w = AddBal(@, o.a, o.n)]) /\ Adds(o.n) /\ UNCHANGED got
    [] o.op = "subbal" -> Bal(c.w, o.a) >= o.n /\ Upd(i, [c EXCEPT !.w = SubBal(@, o.a, o.n)]) /\ Adds(-o.n) /\ UNCHANGED got
    [] o.op = "call" -> Upd(i, [c EXCEPT !.w = Call(c.w, Env(c, 0), unit, o.from, o.to, 0, Prog(o.p)).w]) /\ Quiet
    [] o.op = "send" -> Upd(i, [c EXCEPT !.w = Call(c.w, Env(c, 0), unit, o.from, o.to, o.n, <<>>).w]) /\ Quiet
    [] o.op = "create" -> Upd(i, [c EXCEPT !.w = Create(c.w, Env(c, 0), unit, o.from, 0, Prog(o.p)).w]) /\ Quiet
    [] o.op = "createat" -> Upd(i, [c EXCEPT !.w = CreateAt(c.w, Env(c, 0), unit, o.a, o.from, Prog(o.p)).w]) /\ Quiet
    [] o.op \in {"mine", "rsend"} ->
         LET r == Exec(c, 3, o.from, o.to, o.n, Prog(o.p))
             m == Mined(c, r, TxName, 1, [from |-> o.from, to |-> o.to, n |-> o.n])
             d == IF o.op = "rsend" /\ r.st = "ok" THEN Sealed(m, HashName(c), 0) ELSE m
         IN Upd(i, [d EXCEPT !.snaps = <<>>]) /\ Quiet   \* no going back to before a transaction was recorded
    [] o.op = "seal" -> Cardinality(DOMAIN c.sealed) < MaxSeals /\ Upd(i, [Sealed(c, HashName(c), 0) EXCEPT !.snaps = <<>>]) /\ Quiet
    [] o.op \in {"static", "rcall", "rest", "rbal", "blk", "tx", "rx", "obs", "rd"} -> Same /\ Quiet
    [] o.op = "copy" -> Len(chains) < MaxChains /\ chains' = Append(chains, CopyOf(c)) /\ UNCHANGED <<saved, unit>> /\ Quiet
    [] o.op = "view" ->
         /\ Len(chains) < MaxChains /\ Viewable(c, o.blk) /\ ViewNum(c, o.blk) # c.num
         /\ chains' = Append(chains, ViewOf(c, o.blk)) /\ UNCHANGED <<saved, unit>> /\ Quiet
    [] o.op = "save" -> Len(saved) < 2 /\ saved' = Append(saved, c) /\ UNCHANGED <<chains, unit>> /\ Quiet
    [] o.op = "load" ->
         LET x == [saved[o.i] EXCEPT !.filt = Nothing, !.nf = 0]
         IN /\ chains' = IF o.n > Len(chains) THEN Append(chains, x) ELSE [chains EXCEPT ![o.n] = x]
            /\ UNCHANGED <<saved, unit>> /\ Quiet
    [] o.op = "s.snap" -> Len(c.snaps) < 3 /\ Upd(i, [c EXCEPT !.snaps = Append(@, [h |-> Len(@) + 1, w |-> c.w])]) /\ Quiet
    [] o.op = "s.revert" -> o.i <= Len(c.snaps) /\ Upd(i, [c EXCEPT !.w = c.snaps[o.i].w, !.snaps = SubSeq(@, 1, o.i - 1)]) /\ Quiet
    [] o.op = "s.create" -> Upd(i, [c EXCEPT !.w = CreateAccount(@, o.a)]) /\ Quiet
    [] o.op = "s.suicide" -> Upd(i, [c EXCEPT !.w = Suicide(@, o.a)]) /\ Quiet
    [] o.op = "s.addbal" -> Upd(i, [c EXCEPT !.w = AddBal(@, o.a, o.n)]) /\ Adds(o.n) /\ UNCHANGED got
    [] o.op = "s.setnonce" -> Upd(i, [c EXCEPT !.w = SetNonce(@, o.a, o.n)]) /\ Quiet
    [] o.op = "s.setcode" -> Upd(i, [c EXCEPT !.w = SetCode(@, o.a, o.v)]) /\ Quiet
    [] o.op = "s.setst" -> Upd(i, [c EXCEPT !.w = SetSlot(@, o.a, o.s, o.v)]) /\ Quiet
    [] o.op = "s.addrefund" -> Upd(i, [c EXCEPT !.w.refund = @ + o.n]) /\ Quiet
    [] o.op = "s.log" -> Upd(i, [c EXCEPT !.w = AddLog(@, RawLog(o.a, o.t, o.d, c.num))]) /\ Quiet
    [] o.op = "newf" ->
         /\ c.nf < 2
         /\ Upd(i, [c EXCEPT !.filt = Over(@, c.nf + 1, NewFilter(c, o.fromb, o.tob, o.a, o.t)), !.nf = @ + 1])
         /\ got' = Over(got, c.nf + 1, [l0 |-> Len(c.w.logs), logs |-> <<>>]) /\ UNCHANGED sum
    [] o.op = "poll" ->
         /\ o.i \in DOMAIN c.filt
         /\ got' = [got EXCEPT ![o.i].logs = @ \o Changes(c, o.i)]
         /\ Upd(i, [c EXCEPT !.filt[o.i].seen = Len(c.w.logs)]) /\ UNCHANGED sum
    [] o.op = "unf" ->
         /\ o.i \in DOMAIN c.filt
         /\ Upd(i, [c EXCEPT !.filt = [x \in DOMAIN @ \ {o.i} |-> @[x]]])
         /\ got' = [x \in DOMAIN got \ {o.i} |-> got[x]] /\ UNCHANGED sum

\* the operations that the users may try; the fields are those of the harness's scripts
On(k) == k \in Acts
Ops(i) ==
  LET c == chains[i] IN
  UNION {
    IF On("addbal") THEN [op : {"addbal"}, c : {i}, a : Accts, n : {1}] ELSE {},
    IF On("subbal") THEN [op : {"subbal"}, c : {i}, a : Accts, n : {1}] ELSE {},
    IF On("call") THEN [op : {"call"}, c : {i}, from : {"A"}, to : Targets, p : P] ELSE {},
    IF On("static") THEN [op : {"static", "est"} , c : {i}, from : {"B"}, to : Targets, p : P] ELSE {},
    IF On("send") THEN [op : {"send"}, c : {i}, from : Accts, to : Accts \cup Targets, n : Amounts] ELSE {},
    IF On("create") THEN [op : {"create"}, c : {i}, from : {"A"}, p : InitProgs] ELSE {},
    IF On("createat") THEN [op : {"createat"}, c : {i}, a : {"X"}, from : {"A"}, p : InitProgs] ELSE {},
    IF On("mine") THEN [op : {"mine"}, c : {i}, from : {"A"}, to : Targets, n : Amounts, p : P, g : {"big"}] ELSE {},
    IF On("rsend") /\ ~c.view THEN [op : {"rsend"}, c : {i}, from : {"A"}, to : Targets, n : Amounts, p : P, g : {"big"}] ELSE {},
    IF On("seal") /\ ~c.view THEN [op : {"seal"}, c : {i}] ELSE {},
    IF On("rcall") THEN [op : {"rcall"}, c : {i}, from : {"A"}, to : Targets, p : P, blk : Blks(c)] ELSE {},
    IF On("rest") THEN [op : {"rest"}, c : {i}, from : {"A"}, to : Targets, n : Amounts, p : P, blk : Blks(c)] ELSE {},
    IF On("rbal") THEN [op : {"rbal"}, c : {i}, a : Accts, blk : Blks(c)] ELSE {},
    IF On("view") /\ ~c.view THEN [op : {"view"}, c : {i}, blk : DOMAIN c.sealed] ELSE {},
    IF On("copy") THEN [op : {"copy"}, c : {i}] ELSE {},
    IF On("save") THEN [op : {"save"}, c : {i}] ELSE {},
    IF On("load") /\ i = 1 THEN [op : {"load"}, c : {1}, i : 1..Len(saved), n : 1..(IF Len(chains) < MaxChains THEN Len(chains) + 1 ELSE Len(chains))] ELSE {},
    IF On("s.snap") THEN [op : {"s.snap"}, c : {i}] ELSE {},
    IF On("s.revert") THEN [op : {"s.revert"}, c : {i}, i : 1..Len(c.snaps)] ELSE {},
    IF On("s.create") THEN [op : {"s.create"}, c : {i}, a : Accts] ELSE {},
    IF On("s.suicide") THEN [op : {"s.suicide"}, c : {i}, a : Accts] ELSE {},
    IF On("s.addbal") THEN [op : {"s.addbal"}, c : {i}, a : Accts, n : {2}] ELSE {},
    IF On("s.setnonce") THEN [op : {"s.setnonce"}, c : {i}, a : Accts, n : {1}] ELSE {},
    IF On("s.setcode") THEN [op : {"s.setcode"}, c : {i}, a : Accts, v : {"", "I"}] ELSE {},
    IF On("s.setst") THEN [op : {"s.setst"}, c : {i}, a : Accts, s : {"1"}, v : {"0", "1"}] ELSE {},
    IF On("s.addrefund") THEN [op : {"s.addrefund"}, c : {i}, n : {1}] ELSE {},
    IF On("s.log") THEN [op : {"s.log"}, c : {i}, a : {"A"}, t : {<<"1">>}, d : {"1"}] ELSE {},
    IF On("newf") /\ ~c.view THEN [op : {"newf"}, c : {i}, fromb : {0, -1}, tob : {-1, c.num}, a : {"", "A/0"}, t : {<<>>, <<"1">>, <<"", "1">>}] ELSE {},
    IF On("poll") THEN [op : {"poll"}, c : {i}, i : DOMAIN c.filt] ELSE {},
    IF On("unf") THEN [op : {"unf"}, c : {i}, i : DOMAIN c.filt] ELSE {} }

\* the family begins with a chain where A and B have ether and A has made a contract
\* (a fork has the contract X and the account C below it)
Remote0 == [acc |-> [a \in {"X", "C"} |-> [NoAcc EXCEPT !.bal = IF a = "X" THEN 2 ELSE 1, !.nonce = IF a = "X" THEN 0 ELSE 1]],
            code |-> "X" :> "I", st |-> [x \in {<<"X", "1">>, <<"X", "2">>} |-> IF x[2] = "1" THEN "2" ELSE "3"]]
Below == IF Fork THEN Remote0 ELSE NoRemote
World0 == LET w0 == SetBal(SetBal(EmptyWorld(Below), "A", 3), "B", 2)
          IN Create(w0, [num |-> 100, ts |-> 0, parent |-> "", gp |-> 0], "1", "A", 0, <<>>).w

MInit ==
  /\ chains = << [NewChain(100, "b100", 0, Below) EXCEPT !.w = World0] >>
  /\ saved = <<>> /\ unit = "1" /\ act = [op |-> "init", c |-> 1] /\ sum = (IF Fork THEN 8 ELSE 5) /\ got = Nothing

Do(K) == \E i \in 1..Len(chains) : \E o \in Ops(i) : o.op \in K /\ Op(i, IF o.op = "est" THEN [o EXCEPT !.op = "static"] ELSE o) /\ Did(o)

DoExec  == Do({"call", "send", "create", "createat", "mine", "rsend"})
DoEther == Do({"addbal", "subbal"})
DoSeal  == Do({"seal"})
DoRead  == Do({"static", "est", "rcall", "rest", "rbal"})
DoView  == Do({"view"})
DoCopy  == Do({"copy"})
DoSave  == Do({"save"})
DoLoad  == Do({"load"})
DoSnap  == Do({"s.snap"})
DoRevert == Do({"s.revert"})
DoWrite == Do({"s.create", "s.suicide", "s.addbal", "s.setnonce", "s.setcode", "s.setst", "s.addrefund", "s.log"})
DoFilt  == Do({"newf", "unf"})
DoPoll  == Do({"poll"})

MNext == \/ DoExec \/ DoEther \/ DoSeal \/ DoRead \/ DoView \/ DoCopy \/ DoSave \/ DoLoad
         \/ DoSnap \/ DoRevert \/ DoWrite \/ DoFilt \/ DoPoll
MSpec == MInit /\ [][MNext]_mvars
Bound == TLCGet("level") <= Depth
View == <<chains, saved, sum, got>>
\* transactions get fresh names, so states which differ by them are different

----------------------------------------------------------------------------
(* properties *)

Ids == 1..Len(chains)

TypeOK == \A i \in Ids :
  LET c == chains[i] IN
  /\ \A a \in DOMAIN c.w.acc : c.w.acc[a].bal >= 0 /\ c.w.acc[a].nonce >= 0
  /\ c.num = 100 + Cardinality(DOMAIN c.sealed) \/ c.view

\* nothing but the chain that an operation names changes (C06, C10)
Isolated == [][\A j \in Ids : j # act'.c /\ ~(act'.op = "load" /\ act'.n = j) => chains'[j] = chains[j]]_mvars

\* a sealed block never changes (C06, C07)
SealedFixed == [][\A i \in Ids : act'.op # "load" \/ act'.n # i =>
                    \A n \in DOMAIN chains[i].sealed : n \in DOMAIN chains'[i].sealed /\ chains'[i].sealed[n] = chains[i].sealed[n]]_mvars

\* queries and calls that are not transactions change nothing (C05)
ReadOnly == [][act'.op \in {"static", "est", "rcall", "rest", "rbal"} => chains' = chains]_mvars

\* ether moves but is neither made nor lost, except by a contract that destroys itself in its own favour (C04)
EtherKept == Len(chains) = 1 => Total(chains[1].w) = sum

\* a failed transaction leaves the world as it was, but for its record and the creator's nonce (C03)
FailedAtomic ==
  [][act'.op = "mine" =>
       LET c == chains[act'.c]
           d == chains'[act'.c]
       IN Exec(c, 3, act'.from, act'.to, act'.n, Prog(act'.p)).st # "ok" =>
            /\ d.w.acc = c.w.acc /\ d.w.code = c.w.code /\ d.w.st = c.w.st /\ d.w.logs = c.w.logs]_mvars

\* the ledger (C07)
Ledger == \A i \in Ids :
  LET c == chains[i] IN
  /\ \A h \in DOMAIN c.w.tx :
       LET t == c.w.tx[h]
           b == BlkByNum(c, t.bn)
       IN /\ b # NoBlk /\ b.h = t.bh /\ t.ti < Len(b.txs) /\ b.txs[t.ti + 1] = h
          /\ t.bn # c.num => /\ h \in DOMAIN c.w.rx
                             /\ c.w.rx[h].bh = t.bh /\ c.w.rx[h].ti = t.ti
                             /\ \A k \in 1..Len(c.w.rx[h].logs) : c.w.rx[h].logs[k].h = h
  /\ \A n \in DOMAIN c.sealed : \A k \in 1..Len(c.sealed[n].blk.txs) : c.sealed[n].blk.txs[k] \in DOMAIN c.w.tx
  /\ \A n \in DOMAIN c.sealed : (n - 1) \in DOMAIN c.sealed => c.sealed[n].blk.p = c.sealed[n - 1].blk.h
  \* log indices count up within a block
  /\ \A k \in 1..Len(c.w.logs) : c.w.logs[k].h # "" =>
       c.w.logs[k].li = Cardinality({j \in 1..(k - 1) : c.w.logs[j].bn = c.w.logs[k].bn})
LedgerInv == (\A i \in Ids : ~chains[i].view) => Ledger

\* what a filter was polled is exactly what matched, each once and in order (C08)
FilterExact == Len(chains) = 1 =>
  \A f \in DOMAIN chains[1].filt :
    got[f].logs = Select(chains[1].filt[f], SubSeq(chains[1].w.logs, got[f].l0 + 1, chains[1].filt[f].seen))

\* what lies below a fork is only read (C09)
RemoteFixed == \A i \in Ids : chains[i].w.rem = Below

\* reverting restores (C02)
Restored == [][act'.op = "s.revert" => chains'[act'.c].w = chains[act'.c].snaps[act'.i].w]_mvars
\* a write changes nothing else
OneAccount ==
  [][act'.op \in {"s.create", "s.suicide", "s.addbal", "s.setnonce", "s.setcode", "s.setst"} =>
       LET w == chains[act'.c].w
           x == chains'[act'.c].w
       IN \A b \in (DOMAIN w.acc \cup DOMAIN x.acc \cup Accts) \ {act'.a} : Acc(w, b) = Acc(x, b) /\ Code(w, b) = Code(x, b)]_mvars
=============================================================================
