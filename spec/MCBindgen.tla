------------------------------ MODULE MCBindgen ------------------------------
(* Bindings of two contracts: every function of up to two inputs and two      *)
(* outputs, every way of asking for the contracts, and calls whose requests   *)
(* are right or wrong in one place.                                           *)
EXTENDS Bindgen, TLC, Json
CONSTANTS InTypes, OutTypes, MaxIn, MaxOut, Emit
VARIABLES stage, last, asked
mvars == <<given, pkg, stage, last, asked>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Fn(name, is, os, v) == [kind |-> "function", name |-> name, go |-> name, ins |-> is, outs |-> os, view |-> v]
Event(name, is) == [kind |-> "event", name |-> name, go |-> name, ins |-> is, outs |-> << >>, view |-> FALSE]
Fixtures(d) == << [name |-> "C", code |-> <<1>>, abi |-> <<Event("F", d.ins), d, Fn("G", << >>, << >>, FALSE)>>],
                  [name |-> "D", code |-> <<2>>, abi |-> <<Fn("H", << >>, << >>, TRUE)>>] >>
None == [req |-> "", n |-> 0, data |-> "", st |-> "", view |-> FALSE, ans |-> "", vals |-> ""]
MInit == given = << >> /\ pkg = NoPkg /\ stage = "pick" /\ last = None /\ asked = << >>
Shape(d) == [Ins |-> d.ins, Outs |-> d.outs, View |-> d.view]
Pick == /\ stage = "pick" /\ stage' = "bind"
        /\ \E is \in Seqs(InTypes, MaxIn), os \in Seqs(OutTypes, MaxOut), v \in BOOLEAN :
             LET d == Fn("F", is, os, v) IN
             /\ Given(Fixtures(d))
             /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson(Shape(d))>>) ELSE TRUE
        /\ UNCHANGED <<last, asked>>
DoBind == /\ ~Emit /\ stage = "bind" /\ stage' = "call"
          /\ \E ns \in {<<"C">>, <<"D", "C">>, <<"C", "E">>, <<"D">>}, code, wrote \in BOOLEAN, st \in {"ok", "err"} :
               Bind(ns, code, st, wrote) /\ asked' = ns
          /\ UNCHANGED last
\* a value of each kind, another of it, and what it is in words
V(t) == CASE t \in {"ints", "datas", "addrs"} -> [neg |-> FALSE, b |-> << >>, l |-> <<E!El(FALSE, <<7>>), E!El(FALSE, <<5>>)>>]
          [] t \in {"bytes", "string", "raw"} -> [neg |-> FALSE, b |-> <<7, 0, 9>>, l |-> << >>]
          [] OTHER -> [neg |-> FALSE, b |-> <<7>>, l |-> << >>]
ByHand(t) == CASE t \in {"ints", "addrs"} -> <<0, 0, 0, 2, 0, 0, 0, 7, 0, 0, 0, 5>>
               [] t = "datas" -> <<0, 0, 0, 2, 7, 0, 0, 0, 5, 0, 0, 0>>
               [] t \in {"bytes", "string", "raw"} -> <<0, 0, 0, 3, 7, 0, 9, 0>>
               [] t = "data" -> <<7, 0, 0, 0>>
               [] t = "bool" -> <<0, 0, 0, 1>>
               [] OTHER -> <<0, 0, 0, 7>>
Dyn(t) == t \in {"ints", "addrs", "datas", "bytes", "string", "raw"}
Hand(ts) ==
  CASE ts = << >> -> << >>
    [] Len(ts) = 1 -> IF Dyn(ts[1]) THEN <<0, 0, 0, 4>> \o ByHand(ts[1]) ELSE ByHand(ts[1])
    [] OTHER -> LET one == IF Dyn(ts[1]) THEN ByHand(ts[1]) ELSE << >>
                    two == IF Dyn(ts[2]) THEN ByHand(ts[2]) ELSE << >>
                IN (IF Dyn(ts[1]) THEN <<0, 0, 0, 8>> ELSE ByHand(ts[1]))
                   \o (IF Dyn(ts[2]) THEN <<0, 0, 0, 8 + Len(one)>> ELSE ByHand(ts[2])) \o one \o two
Sel4 == <<1, 2, 3, 4>>
F == given[1].abi[2]
Vals(ts) == [k \in 1..Len(ts) |-> V(ts[k])]
Seven(t) == IF t = "bool" THEN [V(t) EXCEPT !.b = <<1>>] ELSE V(t)
MInvoke ==
  /\ ~Emit /\ stage = "call" /\ stage' = "done"
  /\ \E req \in {"eth_call", "eth_sendTransaction", "eth_getCode"}, n \in 0..2, data \in {"right", "bare", "sel"},
        st \in {"ok", "err"}, ans \in {"right", "short", "none"}, vs \in {"right", "wrong", "none"} :
       LET r == [m |-> req, to |-> "t", from |-> "f",
                 data |-> CASE data = "right" -> Sel4 \o Hand(Ins(F)) [] data = "bare" -> Sel4 [] OTHER -> <<9, 9, 9, 9>> \o Hand(Ins(F))]
           a == IF F.view THEN Hand(Outs(F)) ELSE <<8, 8>>
           out == CASE ans = "none" -> << >> [] ans = "right" -> <<a>> [] OTHER -> <<IF a = << >> THEN a ELSE SubSeq(a, 1, Len(a) - 1)>>
           val == IF F.view THEN [k \in 1..Len(F.outs) |-> Seven(Outs(F)[k])] ELSE <<E!Raw(a)>>
           got == CASE vs = "right" -> val [] vs = "wrong" -> <<E!Raw(<<6>>)>> \o val [] OTHER -> << >>
       IN /\ Invoke("C", "F", [s \in {Signature(F)} |-> Sel4], "t", "f", Vals(F.ins), [k \in 1..n |-> r], out, st, got)
          /\ last' = [req |-> req, n |-> n, data |-> IF data = "bare" /\ F.ins = << >> THEN "right" ELSE data, st |-> st, view |-> F.view,
                      ans |-> ans, vals |-> IF vs = "none" /\ val = << >> THEN "right" ELSE vs]
  /\ UNCHANGED asked
MNext == Pick \/ DoBind \/ MInvoke
MSpec == MInit /\ [][MNext]_mvars
----------------------------------------------------------------------------
\* a package holds what was asked for, all of it or nothing
WholePkg == stage \in {"call", "done"} =>
  (IF \E i \in 1..Len(asked) : asked[i] = "E" THEN pkg = NoPkg ELSE pkg.cs = {asked[i] : i \in 1..Len(asked)})
\* the type of C offers F and G, or only G when F has no use
OffersRight == stage = "bind" =>
  {m.name : m \in Offers(Contract("C"))} = (IF F.view /\ F.outs = << >> THEN {"G"} ELSE {"F", "G"}) /\ Offers(Contract("D")) = {}
\* reading never makes a transaction, and all else makes exactly one, of just what was called
OnlyThat == stage = "done" =>
  /\ last.n = 1 /\ last.data = "right"
  /\ last.req = (IF last.view THEN "eth_call" ELSE "eth_sendTransaction")
\* success only with the values the node gave, and always with an answer that holds them
Truthful == stage = "done" =>
  /\ last.ans = "none" => last.st = "err"
  /\ (last.st = "ok" /\ last.ans = "right") => last.vals = "right"
  /\ (last.ans = "right") => last.st = "ok"
\* an event with its name and inputs hides a function
Finds == stage = "bind" => \A i \in 0..3 : (ENABLED Find("C", Signature(F), i)) <=> i = 1
=============================================================================
