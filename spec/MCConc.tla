------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* A chain whose methods read the state, work on it, and write it back     *)
(* while they hold a lock, used by several threads.  Every step of it is   *)
(* an operation of Chain that takes effect at once, or nothing: that       *)
(* refinement (Atomic) is what ConcTrace looks for in recorded histories.  *)
(*                                                                         *)
(* With Locked = FALSE there is no lock; with Split = TRUE a sent          *)
(* transaction is mined in one critical section and sealed in another.     *)
(* Both fail (MCConcUnlocked.cfg, MCConcSplit.cfg): the properties are not *)
(* empty.                                                                  *)
(***************************************************************************)
EXTENDS Chain
CONSTANTS Threads, PerThread, Locked, Split
VARIABLES pc, op, loc, lock, sent, cnt
mvars == <<cvars, pc, op, loc, lock, sent, cnt>>

Main == chains[1]
Ops == [k : {"send"}, from : {"A"}, to : {"B"}, n : {1, 2}] \cup [k : {"rsend"}, from : {"B"}, to : {"A"}, n : {1}]
       \cup [k : {"rsend"}, from : {"A"}, to : {"B"}, n : {3}] \cup [k : {"seal"}]
Name(t) == "t" \o ToString(t) \o "." \o ToString(cnt[t])
Tx(o) == [from |-> o.from, to |-> o.to, n |-> o.n, inp |-> "", gas |-> 100, price |-> 1, nonce |-> 0]
Next(c) == "b" \o ToString(c.num + 1)
Mine(c, o, h) == LET r == Exec(c, 3, o.from, o.to, o.n, <<>>) IN Mined(c, r, h, IF r.st = "ok" THEN 1 ELSE 0, Tx(o))
Works(c, o) == Exec(c, 3, o.from, o.to, o.n, <<>>).st = "ok"
\* the whole operation, as of module Chain
Apply(c, o, h) ==
  CASE o.k = "send" -> [c EXCEPT !.w = Call(c.w, Env(c, 0), unit, o.from, o.to, o.n, <<>>).w]
    [] o.k = "seal" -> Sealed(c, Next(c), 0)
    [] o.k = "rsend" -> LET m == Mine(c, o, h) IN IF Works(c, o) THEN Sealed(m, Next(m), 0) ELSE m

MInit == /\ chains = << [NewChain(0, "b0", 0, NoRemote) EXCEPT !.w = AddBal(AddBal(@, "A", 3), "B", 1)] >>
         /\ saved = <<>> /\ unit = "1" /\ lock = 0 /\ sent = {}
         /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> [k |-> "none"]]
         /\ loc = [t \in Threads |-> Main] /\ cnt = [t \in Threads |-> 0]
Begin(t) == /\ pc[t] = "idle" /\ cnt[t] < PerThread
            /\ \E o \in Ops : op' = [op EXCEPT ![t] = o]
            /\ pc' = [pc EXCEPT ![t] = "wait"] /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<cvars, loc, lock, sent>>
Take(t) == /\ pc[t] = "wait" /\ (Locked => lock = 0)
           /\ lock' = t /\ loc' = [loc EXCEPT ![t] = Main] /\ pc' = [pc EXCEPT ![t] = "in"]
           /\ UNCHANGED <<cvars, op, sent, cnt>>
Put(t) == /\ pc[t] = "in"
          /\ LET o == op[t] IN
               IF Split /\ o.k = "rsend" /\ Works(loc[t], o)
               THEN /\ chains' = <<Mine(loc[t], o, Name(t))>> /\ pc' = [pc EXCEPT ![t] = "wait"]
                    /\ op' = [op EXCEPT ![t] = [k |-> "seal"]]
               ELSE /\ chains' = <<Apply(loc[t], o, Name(t))>> /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED op
          /\ sent' = IF op[t].k = "rsend" THEN sent \cup {Name(t)} ELSE sent
          /\ lock' = 0 /\ UNCHANGED <<saved, unit, loc, cnt>>
MNext == \E t \in Threads : Begin(t) \/ Take(t) \/ Put(t)
MSpec == MInit /\ [][MNext]_mvars

Atomic == [][Main' # Main => \E t \in Threads : pc[t] = "in" /\ Main' = Apply(Main, op[t], Name(t))]_mvars
\* and so nothing is lost, or done twice
Conserved == Bal(Main.w, "A") + Bal(Main.w, "B") = 4 /\ Bal(Main.w, "A") >= 0 /\ Bal(Main.w, "B") >= 0
AllTxs == LET F(b) == {<<b, i>> : i \in 1..Len(BlkByNum(Main, b).txs)} IN UNION {F(b) : b \in 0..Main.num}
Recorded == /\ DOMAIN Main.w.tx = sent
            /\ Cardinality(AllTxs) = Cardinality(sent)
            /\ {BlkByNum(Main, x[1]).txs[x[2]] : x \in AllTxs} = sent
Linked == \A b \in 1..Main.num : (b - 1) \in DOMAIN Main.sealed /\ BlkByNum(Main, b).p = BlkByNum(Main, b - 1).h
=============================================================================
