---------------------------- MODULE ClientCalls ----------------------------
(***************************************************************************)
(* C27: the typed methods of seth.Client.  A call has a name and           *)
(* arguments; it makes exactly one request, as a function of them, and     *)
(* its outcome is a function of the answer.                                *)
(* Parameters are records [t, s, n]: the type, its text, its number.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNum
VARIABLE c
P(t, s, n) == [t |-> t, s |-> s, n |-> n]
\* block designations: -2 and -1 stand for the pending and the latest block
Blk(b) == CASE b.tag = "pending" -> P("tag", "pending", << >>)
            [] b.tag = "latest" -> P("tag", "latest", << >>)
            [] OTHER -> P("num", "", b.n)        \* the number 0 also goes by "earliest"
Latest == [tag |-> "latest", n |-> << >>]
Pending == [tag |-> "pending", n |-> << >>]
Addr(a) == P("addr", a, << >>)
Hash(h) == P("hash", h, << >>)
Bool(b) == P("bool", IF b THEN "true" ELSE "false", << >>)
Tx(t) == P("tx", t, << >>)

\* the request that a call makes: its method and parameters
Request(k) ==
  CASE k.f = "ProtocolVersion" -> << "eth_protocolVersion", << >> >>
    [] k.f = "Syncing" -> << "eth_syncing", << >> >>
    [] k.f = "Coinbase" -> << "eth_coinbase", << >> >>
    [] k.f = "Mining" -> << "eth_mining", << >> >>
    [] k.f = "Hashrate" -> << "eth_hashrate", << >> >>
    [] k.f = "GasPrice" -> << "eth_gasPrice", << >> >>
    [] k.f = "Accounts" -> << "eth_accounts", << >> >>
    [] k.f = "BlockNumber" -> << "eth_blockNumber", << >> >>
    [] k.f = "Pending" -> << "eth_getBlockByNumber", << Blk(Pending), Bool(TRUE) >> >>
    [] k.f = "GetNonceAt" -> << "eth_getTransactionCount", << Addr(k.addr), Blk(k.blk) >> >>
    [] k.f = "GetNonce" -> << "eth_getTransactionCount", << Addr(k.addr), Blk(Latest) >> >>
    [] k.f = "GetBalanceAt" -> << "eth_getBalance", << Addr(k.addr), Blk(k.blk) >> >>
    [] k.f = "GetBalance" -> << "eth_getBalance", << Addr(k.addr), Blk(Latest) >> >>
    [] k.f = "GetBlock" -> << "eth_getBlockByNumber", << Blk(k.blk), Bool(k.full) >> >>
    [] k.f = "Latest" -> << "eth_getBlockByNumber", << Blk(Latest), Bool(k.full) >> >>
    [] k.f = "GetTransaction" -> << "eth_getTransactionByHash", << Hash(k.hash) >> >>
    [] k.f = "GetReceipt" -> << "eth_getTransactionReceipt", << Hash(k.hash) >> >>
    [] k.f = "GetCodeAt" -> << "eth_getCode", << Addr(k.addr), Blk(k.blk) >> >>
    [] k.f = "GetCode" -> << "eth_getCode", << Addr(k.addr), Blk(Latest) >> >>
    [] k.f = "StorageAt" -> << "eth_getStorageAt", << Addr(k.addr), Hash(k.hash), Blk(k.blk) >> >>
    [] k.f = "UnlockAccount" -> << "personal_unlockAccount", << Addr(k.addr), P("str", k.str, << >>), P("num", "", << >>) >> >>
    [] k.f = "Call" -> << "eth_sendTransaction", << Tx(k.tx) >> >>
    [] k.f = "RawCall" -> << "eth_sendRawTransaction", << P("data", k.str, << >>) >> >>
    [] k.f = "EstimateGas" -> << "eth_estimateGas", << Tx(k.tx), Blk(Pending) >> >>
    [] k.f = "ConstCall" -> << "eth_call", << Tx(k.tx), Blk(IF k.full THEN Pending ELSE Latest) >> >>
    [] k.f = "ConstCallAt" -> << "eth_call", << Tx(k.tx), Blk(k.blk) >> >>
    [] k.f = "Do" -> << k.str, << P("str", k.hash, << >>) >> >>

\* what the caller gets for an answer [k, s, n]
Outcome(k, a, out) ==
  CASE a.k = "ok" /\ k.f = "UnlockAccount" -> IF a.s = "true" THEN out.k = "ok" ELSE out.k = "denied"
    [] a.k = "ok" -> out.k = "ok" /\ out.s = a.s /\ out.n = a.n
    [] a.k = "null" -> out.k = "null"
    [] a.k = "rpc" -> out.k = "rpc" /\ out.s = a.s
    [] OTHER -> out.k \in {"rpc", "null", "transport", "form"}

(* a log of a receipt is the transfer of a token if it has the event's     *)
(* signature and two more topics, which are words: the addresses           *)
TransferSig == << 221, 242, 82, 173, 27, 226, 200, 155, 105, 194, 176, 104, 252, 55, 141, 170,
                  149, 43, 167, 241, 99, 196, 161, 22, 40, 245, 90, 77, 245, 35, 179, 239 >>
IsTransfer(log) == /\ Len(log.topics) = 3 /\ log.topics[1] = TransferSig
                   /\ Len(log.topics[2]) = 32 /\ Len(log.topics[3]) = 32
Significant(b) == IF \A i \in 1..Len(b) : b[i] = 0 THEN << >>
                  ELSE LET i == CHOOSE i \in 1..Len(b) : b[i] # 0 /\ \A j \in 1..(i - 1) : b[j] = 0 IN SubSeq(b, i, Len(b))
AsTransfer(r, log) == [token |-> log.addr, block |-> r.block, height |-> r.index, amount |-> Significant(log.data),
                       from |-> SubSeq(log.topics[2], 13, 32), to |-> SubSeq(log.topics[3], 13, 32)]
Transfer(r, log, ok, out, threw) ==
  /\ ok = IsTransfer(log) /\ (ok => out = AsTransfer(r, log))
  /\ threw = (r.status = 0)
  /\ UNCHANGED c

Idle == [on |-> FALSE, f |-> "", k |-> << >>, st |-> "idle", a |-> << >>]
Init == c = Idle
Begin(k) == ~c.on /\ c' = [on |-> TRUE, f |-> k.f, k |-> << k >>, st |-> "new", a |-> << >>]
Ask(m, ps) == c.on /\ c.st = "new" /\ << m, ps >> = Request(c.k[1]) /\ c' = [c EXCEPT !.st = "asked"]
Answer(a) == c.on /\ c.st = "asked" /\ c' = [c EXCEPT !.st = "answered", !.a = << a >>]
End(out) == c.on /\ c.st = "answered" /\ Outcome(c.k[1], c.a[1], out) /\ c' = Idle
=============================================================================
