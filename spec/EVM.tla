-------------------------------- MODULE EVM --------------------------------
(***************************************************************************)
(* The state of the mock chain as the EVM sees it (a "world") and what     *)
(* executing a transaction does to it.                                     *)
(*                                                                         *)
(* A world is a value, so taking a snapshot is remembering the value and   *)
(* reverting is going back to it: the meaning that tevm implements with    *)
(* copy-on-write trees.  Addresses, slots and values are strings; the      *)
(* contract made by account a with nonce n is called "a/n".  Ether is      *)
(* counted in integer units.                                               *)
(*                                                                         *)
(* Contracts are of one kind: interpreters (code "I") of the program that  *)
(* they are called with.  A program is a sequence of instructions          *)
(*   sstore s <value> | log t d | call k to n g f s p | create n f s p |   *)
(*   destroy to | revert | invalid | stop | ret <value>                    *)
(* where a <value> is a kind k with an operand v, and f says what becomes  *)
(* of the success of a call: ignore, bubble (revert if it failed), store   *)
(* (in slot s).                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoAcc == [bal |-> 0, nonce |-> 0, dead |-> FALSE]
Nothing == [x \in {} |-> 0]

\* rem is what lies below a forked chain; empty for an ordinary one
NoRemote == [acc |-> Nothing, code |-> Nothing, st |-> Nothing]

EmptyWorld(rem) ==
  [acc |-> Nothing, code |-> Nothing, st |-> Nothing, logs |-> <<>>, refund |-> 0,
   tx |-> Nothing, rx |-> Nothing, rem |-> rem]

Over(f, k, v) == (k :> v) @@ f

Exists(w, a) == a \in DOMAIN w.acc \/ a \in DOMAIN w.rem.acc
Acc(w, a) == IF a \in DOMAIN w.acc THEN w.acc[a]
             ELSE IF a \in DOMAIN w.rem.acc THEN w.rem.acc[a] ELSE NoAcc
Bal(w, a)   == Acc(w, a).bal
Nonce(w, a) == Acc(w, a).nonce
Dead(w, a)  == Acc(w, a).dead
Code(w, a)  == IF a \in DOMAIN w.code THEN w.code[a]
               ELSE IF a \in DOMAIN w.rem.code THEN w.rem.code[a] ELSE ""
Slot(w, a, s) == IF <<a, s>> \in DOMAIN w.st THEN w.st[<<a, s>>]
                 ELSE IF <<a, s>> \in DOMAIN w.rem.st THEN w.rem.st[<<a, s>>] ELSE "0"
IsEmpty(w, a) == ~Exists(w, a) \/ (Nonce(w, a) = 0 /\ Bal(w, a) = 0 /\ Code(w, a) = "")

SetAcc(w, a, acc) == [w EXCEPT !.acc = Over(@, a, acc)]
SetBal(w, a, n)   == SetAcc(w, a, [Acc(w, a) EXCEPT !.bal = n])
SetNonce(w, a, n) == SetAcc(w, a, [Acc(w, a) EXCEPT !.nonce = n])
SetCode(w, a, c)  == [w EXCEPT !.code = Over(@, a, c)]
SetSlot(w, a, s, v) == [w EXCEPT !.st = Over(@, <<a, s>>, v)]
AddLog(w, log)    == [w EXCEPT !.logs = Append(@, log)]

\* adding nothing to an account that does not exist does not bring it about
AddBal(w, a, n) == IF n = 0 /\ ~Exists(w, a) THEN w ELSE SetBal(w, a, Bal(w, a) + n)
SubBal(w, a, n) == SetBal(w, a, Bal(w, a) - n)

\* a new account keeps the ether that was sent to its address before
CreateAccount(w, a) == SetAcc(w, a, [NoAcc EXCEPT !.bal = Bal(w, a)])

Suicide(w, a) == IF Exists(w, a) THEN SetAcc(w, a, [Acc(w, a) EXCEPT !.dead = TRUE, !.bal = 0]) ELSE w

Transfer(w, from, to, n) ==
  IF n = 0 \/ from = to THEN w
  ELSE SetBal(SetBal(w, from, Bal(w, from) - n), to, Bal(w, to) + n)

RawLog(a, t, d, num) == [a |-> a, t |-> t, d |-> d, bn |-> num, bh |-> "", h |-> "", ti |-> 0, li |-> 0]

----------------------------------------------------------------------------
(* execution; a frame is [self, caller, value, static, init, origin, env, unit], *)
(* where env is the surroundings [num, ts, parent, gp] of the execution    *)

\* an amount of ether, as the harness prints a word holding it
Amount(f, n) == IF n = 0 THEN "0" ELSE IF f.unit = "1" THEN ToString(n) ELSE "u" \o ToString(n)

Value(w, f, k, v) ==
  CASE k = "const"   -> v
    [] k = "sload"   -> Slot(w, f.self, v)
    [] k = "balance" -> Amount(f, Bal(w, v))
    [] k = "caller"  -> f.caller
    [] k = "value"   -> Amount(f, f.value)
    [] k = "self"    -> f.self
    [] k = "number"  -> ToString(f.env.num)
    [] k = "time"    -> ToString(f.env.ts)
    [] k = "gasprice" -> IF f.env.gp < 100 THEN ToString(f.env.gp) ELSE "p" \o ToString(f.env.gp)
    \* of the block before
    [] k = "parent"  -> IF f.env.parent = "" THEN "genesis" ELSE f.env.parent
    [] k = "codehash" -> IF IsEmpty(w, v) THEN "0" ELSE "code:" \o Code(w, v)
    [] k = "origin"  -> f.origin
    [] k = "hascode" -> IF Code(w, v) # "" THEN "1" ELSE "0"

\* how a frame ended: "ok", "revert" (unused gas is returned) or "fail" (it is not)
Done(st, w, ret) == [st |-> st, w |-> w, ret |-> ret]

\* what an initialiser that destroys its contract returns: it deploys no code
Destroyed == "!"
Deployed(r) == IF r.ret = Destroyed THEN "" ELSE "I"

Failed(r, w) == IF r.st = "ok" THEN r ELSE Done(r.st, w, "")

ChildName(a, n) == a \o "/" \o ToString(n)

\* a program which runs out of gas when given next to none
Starves(p) == p # <<>> /\ p[1].i = "sstore"

RECURSIVE Run(_, _, _, _)
RECURSIVE DoCall(_, _, _, _, _, _)
RECURSIVE DoCreate(_, _, _, _)
RECURSIVE RunCode(_, _, _, _)

\* run program p at account code-holder a in frame f
RunCode(w, f, a, p) ==
  IF Code(w, a) = "I" THEN Run(w, f, p, 1)
  ELSE IF Code(w, a) = "" THEN Done("ok", w, "")
  ELSE Done("fail", w, "")

\* the call kinds; r.w is the resulting world whether or not it succeeded
DoCall(w, f, k, to, n, p) ==
  CASE k = "call" ->
        IF n # 0 /\ Bal(w, f.self) < n THEN Done("short", w, "")
        ELSE IF ~Exists(w, to) /\ n = 0 THEN Done("ok", w, "")
        ELSE LET w1 == IF Exists(w, to) THEN w ELSE CreateAccount(w, to)
                 w2 == Transfer(w1, f.self, to, n)
             IN Failed(RunCode(w2, [f EXCEPT !.self = to, !.caller = f.self, !.value = n, !.init = FALSE], to, p), w)
    [] k = "callcode" ->
        IF Bal(w, f.self) < n THEN Done("short", w, "")
        ELSE Failed(RunCode(w, [f EXCEPT !.caller = f.self, !.value = n, !.init = FALSE], to, p), w)
    [] k = "delegate" ->
        Failed(RunCode(w, [f EXCEPT !.init = FALSE], to, p), w)
    [] k = "static" ->
        Failed(RunCode(w, [f EXCEPT !.self = to, !.caller = f.self, !.value = 0, !.static = TRUE, !.init = FALSE], to, p), w)

\* create a contract from f.self; the result names the new account
DoCreate(w, f, n, p) ==
  IF Bal(w, f.self) < n THEN Done("short", w, "")
  ELSE
  LET nonce == Nonce(w, f.self)
      a  == ChildName(f.self, nonce)
      w1 == SetNonce(w, f.self, nonce + 1)
  IN IF Nonce(w1, a) # 0 \/ Code(w1, a) # "" THEN Done("fail", w1, "")
     ELSE
     LET w2 == SetNonce(CreateAccount(w1, a), a, 1)
         w3 == Transfer(w2, f.self, a, n)
         r  == Run(w3, [f EXCEPT !.self = a, !.caller = f.self, !.value = n, !.init = TRUE], p, 1)
     IN IF r.st = "ok" THEN Done("ok", SetCode(r.w, a, Deployed(r)), a)
        ELSE Done(r.st, w1, a)

\* continue with instruction i of program p
Run(w, f, p, i) ==
  IF i > Len(p) THEN Done("ok", w, "")
  ELSE LET x == p[i] IN
  CASE x.i = "stop"    -> Done("ok", w, "")
    [] x.i = "revert"  -> Done("revert", w, "")
    [] x.i = "invalid" -> Done("fail", w, "")
    [] x.i = "ret"     -> Done("ok", w, Value(w, f, x.k, x.v))
    [] x.i = "sstore"  -> IF f.static THEN Done("fail", w, "")
                          ELSE Run(SetSlot(w, f.self, x.s, Value(w, f, x.k, x.v)), f, p, i + 1)
    [] x.i = "log"     -> IF f.static THEN Done("fail", w, "")
                          ELSE Run(AddLog(w, RawLog(f.self, x.t, x.d, f.env.num)), f, p, i + 1)
    [] x.i = "destroy" -> IF f.static THEN Done("fail", w, "")
                          ELSE Done("ok", Suicide(AddBal(w, x.to, Bal(w, f.self)), f.self), IF f.init THEN Destroyed ELSE "")
    [] x.i = "call"    -> IF f.static /\ x.k = "call" /\ x.n # 0 THEN Done("fail", w, "")
                          ELSE LET r0 == DoCall(w, f, x.k, x.to, x.n, x.p)
                                   \* starved of gas, the callee's program cannot do its first write
                                   r  == IF x.g = "tiny" /\ Starves(x.p) /\ Code(w, x.to) = "I" /\ r0.st # "short"
                                         THEN Done("fail", w, "") ELSE r0
                                   ok == r.st = "ok"
                                   w1 == IF ok THEN r.w ELSE w
                               IN CASE x.f = "bubble" /\ ~ok -> Done("revert", w1, "")
                                    [] x.f = "store" -> IF f.static THEN Done("fail", w1, "")
                                                        ELSE Run(SetSlot(w1, f.self, x.s, IF ok THEN "1" ELSE "0"), f, p, i + 1)
                                    [] OTHER -> Run(w1, f, p, i + 1)
    [] x.i = "create"  -> IF f.static THEN Done("fail", w, "")
                          ELSE LET r  == DoCreate(w, f, x.n, x.p)
                                   ok == r.st = "ok"
                               IN CASE x.f = "bubble" /\ ~ok -> Done("revert", r.w, "")
                                    [] x.f = "store" -> Run(SetSlot(r.w, f.self, x.s, IF ok THEN r.ret ELSE "0"), f, p, i + 1)
                                    [] OTHER -> Run(r.w, f, p, i + 1)

----------------------------------------------------------------------------
(* top-level execution *)

Frame(from, env, unit) ==
  [self |-> from, caller |-> from, value |-> 0, static |-> FALSE, init |-> FALSE,
   origin |-> from, env |-> env, unit |-> unit]

Call(w, env, unit, from, to, n, p) == DoCall(w, Frame(from, env, unit), "call", to, n, p)

\* never changes anything
Static(w, env, unit, from, to, p) == DoCall(w, Frame(from, env, unit), "static", to, 0, p)

Create(w, env, unit, from, n, p) == DoCreate(w, Frame(from, env, unit), n, p)

\* a creation at a chosen address has no effect at all if it fails
CreateAt(w, env, unit, a, from, p) ==
  LET w1 == SetNonce(CreateAccount(w, a), a, 1)
      r  == Run(w1, [Frame(from, env, unit) EXCEPT !.self = a, !.init = TRUE], p, 1)
  IN IF r.st = "ok" THEN Done("ok", SetCode(r.w, a, Deployed(r)), a) ELSE Done(r.st, w, a)

RECURSIVE SumBal(_, _)
SumBal(w, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE x \in S : TRUE IN Bal(w, a) + SumBal(w, S \ {a})
Total(w) == SumBal(w, DOMAIN w.acc \cup DOMAIN w.rem.acc)
=============================================================================
