------------------------------- MODULE Sender -------------------------------
(***************************************************************************)
(* C16, C17: what a sender (seth.Sender) asks of the server, one request   *)
(* after another, as a function of what it was told to do and of the       *)
(* answers so far.                                                         *)
(*   op   what it was told: kind "call" "create" "constcall" "cancel"      *)
(*        "wait" "drain", the options given, the sender's configuration    *)
(*   tx   the transaction as filled in so far                              *)
(*   ph   what comes next; "end": nothing, the outcome is out              *)
(*   busy a request awaits its answer                                      *)
(*   h    the transaction being looked for; own: those still to drain      *)
(* Numbers are BigNums; optional ones are records [has, v].                *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNum
VARIABLE s

None == [has |-> FALSE, v |-> << >>]
Some(v) == [has |-> TRUE, v |-> v]
NoTx == [from |-> "", to |-> "", gas |-> None, price |-> None, value |-> None, data |-> "", nonce |-> None]
NoOp == [kind |-> "", from |-> "", to |-> "", gas |-> None, price |-> None, value |-> None, data |-> "", nonce |-> None,
         signer |-> "none", num |-> 6, den |-> 5, sprice |-> << >>, h |-> "", prompt |-> FALSE]
NoOut == [k |-> "", v |-> ""]
Idle == [on |-> FALSE, op |-> NoOp, tx |-> NoTx, ph |-> "end", busy |-> FALSE, h |-> "", own |-> {}, out |-> NoOut]

Init == s = Idle

Val(o) == IF o.has THEN o.v ELSE << >>
\* zero and nothing are the same value
SameTx(a, b) == /\ a.from = b.from /\ a.to = b.to /\ a.gas = b.gas /\ a.price = b.price
                /\ a.nonce = b.nonce /\ a.data = b.data /\ Val(a.value) = Val(b.value)

Err(t, k) == [t EXCEPT !.ph = "end", !.out = [k |-> k, v |-> ""]]
Ok(t, v) == [t EXCEPT !.ph = "end", !.out = [k |-> "ok", v |-> v]]

\* the price of a transaction that replaces one with price p
Outbid(p, mine) == IF Cmp(mine, p) > 0 THEN mine ELSE AddSmall(p, 1)
Pad(gas, op) == DivSmall(MulSmall(gas, op.num), op.den)[1]

\* with all of gas and price decided: sign or leave it to the server
\* (the signers hold the key of S, that of T, or refuse)
KeyOf(signer) == CASE signer = "ok" -> "S" [] signer = "wrong" -> "T" [] OTHER -> ""
Sign(t) == IF t.tx.from = KeyOf(t.op.signer) THEN [t EXCEPT !.ph = "raw"] ELSE Err(t, "local")
Priced(t) == IF t.op.signer = "none" THEN [t EXCEPT !.ph = "send"]
             ELSE IF t.tx.nonce.has THEN Sign(t) ELSE [t EXCEPT !.ph = "nonce"]

Begin(op) ==
  LET t == [Idle EXCEPT !.on = TRUE, !.op = op, !.h = op.h]
      tx == [NoTx EXCEPT !.from = (IF op.from = "" THEN "S" ELSE op.from), !.to = op.to, !.gas = op.gas, !.nonce = op.nonce,
                         !.price = (IF op.price.has THEN op.price ELSE Some(op.sprice)), !.value = op.value, !.data = op.data]
  IN s' = CASE op.kind = "call" -> IF op.gas.has THEN Priced([t EXCEPT !.tx = tx]) ELSE [t EXCEPT !.tx = tx, !.ph = "est"]
            [] op.kind = "create" -> [t EXCEPT !.tx = [tx EXCEPT !.to = ""], !.ph = "est"]
            [] op.kind = "constcall" -> [t EXCEPT !.tx = tx, !.ph = "ethcall"]
            [] op.kind \in {"cancel", "wait"} -> [t EXCEPT !.ph = "gettx"]
            [] op.kind = "drain" -> [t EXCEPT !.ph = "pend"]

Req(m, tx, blk, h, addr) == [m |-> m, tx |-> tx, blk |-> blk, h |-> h, addr |-> addr]
\* the requests that may come next
Wants(t) ==
  CASE t.ph = "est" -> { Req("eth_estimateGas", t.tx, "pending", "", "") }
    [] t.ph = "ethcall" -> { Req("eth_call", t.tx, "pending", "", "") }
    [] t.ph = "nonce" -> { Req("eth_getTransactionCount", NoTx, "pending", "", t.tx.from) }
    [] t.ph = "send" -> { Req("eth_sendTransaction", t.tx, "", "", "") }
    [] t.ph = "raw" -> { Req("eth_sendRawTransaction", t.tx, "", "", "") }
    [] t.ph = "gettx" -> { Req("eth_getTransactionByHash", NoTx, "", t.h, "") }
    [] t.ph = "receipt" -> { Req("eth_getTransactionReceipt", NoTx, "", t.h, "") }
    [] t.ph = "pend" -> { Req("eth_getBlockByNumber", NoTx, "pending", "", "") }
    \* draining: any of the sender's own, that the user was told of if asked to
    [] t.ph = "pick" -> IF t.op.prompt THEN {} ELSE { Req("eth_getTransactionByHash", NoTx, "", h, "") : h \in t.own }
    [] t.ph = "pick2" -> { Req("eth_getBlockByNumber", NoTx, "pending", "", "") } \cup
                         (IF t.op.prompt THEN {} ELSE { Req("eth_getTransactionByHash", NoTx, "", h, "") : h \in t.own })
    [] OTHER -> {}
Match(w, r) == /\ w.m = r.m /\ w.blk = r.blk /\ w.h = r.h /\ w.addr = r.addr /\ SameTx(w.tx, r.tx)

Request(r) ==
  /\ ~s.busy /\ \E w \in Wants(s) : Match(w, r)
  /\ s' = [s EXCEPT !.busy = TRUE, !.h = (IF r.h # "" THEN r.h ELSE @),
                    !.ph = (IF @ = "pick" \/ (@ = "pick2" /\ r.h # "") THEN "gettx" ELSE IF @ = "pick2" THEN "pend" ELSE @)]

\* the user is told of a transaction that draining waits for
Prompt(h) == /\ ~s.busy /\ s.op.prompt /\ s.ph \in {"pick", "pick2"} /\ h \in s.own
             /\ s' = [s EXCEPT !.h = h, !.ph = "gettx"]

\* an answer a: k "ok" or the kind of failure, and what it says
After(t, a) ==
  CASE a.k # "ok" -> Err(t, a.k)
    [] t.ph = "est" -> Priced([t EXCEPT !.tx.gas = Some(Pad(a.v, t.op))])
    [] t.ph = "nonce" -> Sign([t EXCEPT !.tx.nonce = Some(a.v)])
    [] t.ph = "ethcall" -> Ok(t, a.h)
    [] t.ph \in {"send", "raw"} -> IF t.op.kind = "create" THEN [t EXCEPT !.h = a.h, !.ph = "gettx"] ELSE Ok(t, a.h)
    [] t.ph = "gettx" /\ t.op.kind = "cancel" ->
         IF a.mined THEN Err(t, "cannotcancel")
         ELSE [t EXCEPT !.ph = "est", !.tx = [NoTx EXCEPT !.from = "S", !.to = "S", !.nonce = Some(a.nonce),
                                                         !.price = Some(Outbid(a.v, t.op.sprice))]]
    [] t.ph = "gettx" /\ ~a.mined -> t
    [] t.ph = "gettx" /\ t.op.kind = "wait" -> Ok(t, "")
    [] t.ph = "gettx" /\ t.op.kind = "create" -> [t EXCEPT !.ph = "receipt"]
    [] t.ph = "gettx" /\ t.op.kind = "drain" -> [t EXCEPT !.ph = "pick2", !.own = @ \ {t.h}]
    [] t.ph = "receipt" -> IF a.h = "" \/ ~a.good THEN Err(t, "local") ELSE Ok(t, a.h)
    [] t.ph = "pend" -> LET mine == { a.txs[i].h : i \in {i \in 1..Len(a.txs) : a.txs[i].from = "S"} }
                        IN IF mine = {} THEN Ok(t, "") ELSE [t EXCEPT !.own = mine, !.ph = "pick"]
Answer(a) == s.busy /\ s' = [After(s, a) EXCEPT !.busy = FALSE]

\* a local failure has no name of its own
End(out) == /\ ~s.busy /\ s.on /\ s.ph = "end"
            /\ IF s.out.k = "local" THEN out.k \notin {"ok", ""} ELSE out = s.out
            /\ s' = Idle
=============================================================================
