--------------------------- MODULE MCClientCalls ---------------------------
(* every call with every kind of answer; prints each as a script for the       *)
(* harness, which fills in the values                                          *)
EXTENDS ClientCalls, TLC, Json
CONSTANT Emit
VARIABLES reqs, ended
Fs == {"ProtocolVersion", "Syncing", "Coinbase", "Mining", "Hashrate", "GasPrice", "Accounts", "BlockNumber", "Pending", "GetNonceAt",
       "GetNonce", "GetBalanceAt", "GetBalance", "GetBlock", "Latest", "GetTransaction", "GetReceipt", "GetCodeAt", "GetCode", "StorageAt",
       "UnlockAccount", "Call", "RawCall", "EstimateGas", "ConstCall", "ConstCallAt", "Do"}
Blks == {Latest, Pending, [tag |-> "num", n |-> << >>], [tag |-> "num", n |-> <<1, 0>>]}
Calls == [f : Fs, addr : {"A"}, hash : {"h"}, blk : Blks, full : BOOLEAN, str : {"m"}, tx : {"tx"}]
Kinds == {"ok", "null", "rpc", "transport", "form"}
MInit == Init /\ reqs = 0 /\ ended = FALSE
DBegin == ~ended /\ (\E k \in Calls : Begin(k)) /\ UNCHANGED <<reqs, ended>>
DAsk == c.on /\ c.st = "new" /\ Ask(Request(c.k[1])[1], Request(c.k[1])[2]) /\ reqs' = reqs + 1 /\ UNCHANGED ended
DAnswer == (\E kd \in Kinds : Answer([k |-> kd, s |-> "true", n |-> <<1>>])) /\ UNCHANGED <<reqs, ended>>
DEnd == /\ c.on /\ c.st = "answered" /\ End([k |-> c.a[1].k, s |-> "true", n |-> <<1>>])
        /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson([f |-> c.f, blk |-> c.k[1].blk, full |-> c.k[1].full, k |-> c.a[1].k])>>) ELSE TRUE
        /\ ended' = TRUE /\ UNCHANGED reqs
MNext == DBegin \/ DAsk \/ DAnswer \/ DEnd
MSpec == MInit /\ [][MNext]_<<c, reqs, ended>>
One == reqs <= 1 /\ (ended => reqs = 1)
\* success is never reported for an answer that has none
NoFalseData == c.on /\ c.st = "answered" /\ c.a[1].k # "ok" => ~Outcome(c.k[1], c.a[1], [k |-> "ok", s |-> c.a[1].s, n |-> c.a[1].n])
\* a block is always designated as given
Designated == c.on => \A i \in 1..Len(Request(c.k[1])[2]) : LET p == Request(c.k[1])[2][i] IN
   (p.t \in {"num", "tag"} /\ c.f \in {"GetNonceAt", "GetBalanceAt", "GetBlock", "GetCodeAt", "StorageAt", "ConstCallAt"}) =>
       p = (IF c.k[1].blk.tag = "num" THEN P("num", "", c.k[1].blk.n) ELSE P("tag", c.k[1].blk.tag, << >>))
=============================================================================
