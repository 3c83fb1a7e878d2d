------------------------------ MODULE MCSender ------------------------------
(* the sender with a server that may answer anything, and what C16 and C17     *)
(* say about the requests it makes; also prints what happened as a script      *)
EXTENDS Sender, FiniteSets, TLC, Json
CONSTANTS OpKinds, FailKinds, Signers, MaxPolls, Emit
VARIABLES subs,    \* the transactions submitted
          said,    \* the answers so far
          est,     \* the last estimate
          fails,
          told     \* transactions the user was told of
vars == <<s, subs, said, est, fails, told>>

Gas == {None, Some(<<5>>)}
Prices == {None, Some(<<1, 0>>)}
MCOps ==
  [kind : OpKinds \cap {"call"}, from : {"", "S", "T"}, to : {"", "T"}, gas : Gas, price : Prices,
   value : {None, Some(<< >>), Some(<<7>>)}, data : {"d"}, nonce : {None, Some(<<3>>)}, signer : Signers, num : {6}, den : {5},
   sprice : {<<200>>}, h : {""}, prompt : {FALSE}]
  \cup [kind : OpKinds \cap {"create", "constcall"}, from : {""}, to : {"T"}, gas : {None}, price : {None},
   value : {None, Some(<<7>>)}, data : {"d"}, nonce : {None}, signer : Signers, num : {6}, den : {5},
   sprice : {<<200>>}, h : {""}, prompt : {FALSE}]
  \cup [kind : OpKinds \cap {"cancel"}, from : {""}, to : {""}, gas : {None}, price : {None}, value : {None}, data : {""}, nonce : {None},
   signer : Signers, num : {6}, den : {5}, sprice : {<<200>>}, h : {"H1"}, prompt : {FALSE}]
  \cup [kind : OpKinds \cap {"wait", "drain"}, from : {""}, to : {""}, gas : {None}, price : {None}, value : {None}, data : {""}, nonce : {None},
   signer : {"none"}, num : {6}, den : {5}, sprice : {<<200>>}, h : {"H1"}, prompt : BOOLEAN]

NoAns == [k |-> "ok", v |-> << >>, h |-> "", mined |-> FALSE, nonce |-> << >>, good |-> TRUE, txs |-> << >>]
Pools == { << >>, << [h |-> "H3", from |-> "T"] >>, << [h |-> "H3", from |-> "T"], [h |-> "H4", from |-> "S"], [h |-> "H5", from |-> "S"] >>,
           << [h |-> "H6", from |-> "S"] >> }
Oks == CASE s.ph = "est" -> { [NoAns EXCEPT !.v = v] : v \in {<< >>, <<4>>, <<1, 0>>} }
         [] s.ph = "nonce" -> { [NoAns EXCEPT !.v = v] : v \in {<< >>, <<9>>} }
         [] s.ph \in {"send", "raw", "ethcall"} -> { [NoAns EXCEPT !.h = "H2"] }
         [] s.ph = "gettx" -> { [NoAns EXCEPT !.mined = b, !.nonce = <<8>>, !.v = v] : b \in BOOLEAN,
                                  v \in IF s.op.kind = "cancel" THEN {<<199>>, <<200>>, <<201>>, <<255, 255>>} ELSE {<<1>>} }
         [] s.ph = "receipt" -> { [NoAns EXCEPT !.h = h, !.good = b] : h \in {"", "N"}, b \in BOOLEAN }
         [] s.ph = "pend" -> { [NoAns EXCEPT !.txs = p] : p \in Pools }
         [] OTHER -> {}
Bads == { [NoAns EXCEPT !.k = k] : k \in FailKinds }

MInit == Init /\ subs = << >> /\ said = << >> /\ est = << >> /\ fails = 0 /\ told = {}
\* what a script says of an answer
Brief(a) == [k |-> a.k, mined |-> a.mined, good |-> a.good, addr |-> a.h # "",
             v |-> IF s.ph = "gettx" THEN Cmp(a.v, s.op.sprice) ELSE Len(a.v),
             txs |-> [i \in 1..Len(a.txs) |-> a.txs[i].from]]
DBegin == /\ ~s.on /\ said = << >> /\ \E op \in MCOps : Begin(op)
          /\ UNCHANGED <<subs, said, est, fails, told>>
DReq == /\ s.on /\ ~s.busy
        /\ \E w \in Wants(s) : /\ Request(w)
                               /\ subs' = IF w.m \in {"eth_sendTransaction", "eth_sendRawTransaction"} THEN Append(subs, w) ELSE subs
        /\ UNCHANGED <<said, est, fails, told>>
DPrompt == /\ s.on /\ \E h \in s.own : Prompt(h) /\ told' = told \cup {h} /\ UNCHANGED <<subs, said, est, fails>>
DOk == /\ s.on /\ s.busy /\ Len(said) < MaxPolls + 4
       /\ \E a \in Oks : /\ Answer(a) /\ said' = Append(said, Brief(a))
                         /\ est' = IF s.ph = "est" THEN a.v ELSE est
       /\ UNCHANGED <<subs, fails, told>>
DBad == /\ s.on /\ s.busy
        /\ \E a \in Bads : Answer(a) /\ said' = Append(said, Brief(a))
        /\ fails' = fails + 1 /\ UNCHANGED <<subs, est, told>>
DEnd == /\ s.on /\ ~s.busy /\ s.ph = "end"
        /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson([call |-> s.op, said |-> said])>>) ELSE TRUE
        /\ End(IF s.out.k = "local" THEN [k |-> "form", v |-> ""] ELSE s.out)
        /\ said' = << s.out >>      \* nothing follows
        /\ UNCHANGED <<subs, est, fails, told>>
MNext == DBegin \/ DReq \/ DPrompt \/ DOk \/ DBad \/ DEnd
MSpec == MInit /\ [][MNext]_vars

AtMostOnce == Len(subs) <= 1
\* exactly the transaction asked for
Exact == \A i \in 1..Len(subs) :
  LET t == subs[i].tx op == s.op IN
  s.on =>
  /\ op.kind \in {"call", "create", "cancel"}
  /\ op.kind = "call" => /\ t.to = op.to /\ t.data = op.data /\ Val(t.value) = Val(op.value)
                         /\ t.from = (IF op.from = "" THEN "S" ELSE op.from)
                         /\ t.price = (IF op.price.has THEN op.price ELSE Some(op.sprice))
                         /\ op.nonce.has => t.nonce = op.nonce
  /\ op.kind = "create" => t.to = "" /\ t.data = op.data /\ Val(t.value) = Val(op.value) /\ t.from = "S"
  /\ op.kind = "cancel" => /\ t.from = "S" /\ t.to = "S" /\ Val(t.value) = << >> /\ t.data = "" /\ t.nonce = Some(<<8>>)
                           /\ Cmp(t.price.v, op.sprice) >= 0
                           /\ Cmp(t.price.v, <<200>>) >= 0
  /\ t.gas.has /\ t.price.has
  /\ IF op.kind = "call" /\ op.gas.has THEN t.gas = op.gas
     ELSE ToNat(t.gas.v) = (ToNat(est) * 6) \div 5
  /\ (op.signer # "none") = (subs[i].m = "eth_sendRawTransaction")
  /\ op.signer # "none" => t.nonce.has /\ t.from = KeyOf(op.signer)
\* nothing is submitted when something before failed
NotAfterFailure == [][fails > 0 => subs' = subs]_vars
OnlyThen == s.out.k = "ok" /\ s.op.kind \in {"call", "create", "cancel"} => Len(subs) = 1
Tells == s.op.prompt /\ s.ph = "gettx" /\ s.op.kind = "drain" => s.h \in told
=============================================================================
