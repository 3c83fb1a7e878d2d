------------------------------ MODULE Bindgen ------------------------------
(***************************************************************************)
(* C29: bindings generated for contracts.  A machine of generated          *)
(* packages: Bind runs the generator over what the compiler gave and       *)
(* leaves a package with a Go type per contract asked for; Methods is what *)
(* such a type offers; Invoke calls a method of it, which makes a call or  *)
(* a transaction of exactly the function bound, and gives what the node    *)
(* returned.  Find looks a descriptor up by its signature, Strip takes the *)
(* metadata off code.                                                      *)
(*                                                                         *)
(* A contract is [name, code, abi]; an entry of its abi is                 *)
(*   [kind, name, go, ins, outs, view]                                     *)
(* with the types of the inputs and outputs as Solidity names them, go     *)
(* the name with its first letter in upper case, and view whether it only  *)
(* reads.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS W, A
VARIABLES given, \* the contracts the compiler gives
          pkg    \* the generated package: a set of names of contracts, and whether with their code

NoPkg == [cs |-> {}, code |-> FALSE]
E == INSTANCE Abi WITH W <- W, A <- A, typ <- << >>, mem <- << >>

Names == {given[i].name : i \in 1..Len(given)}
Contract(n) == given[CHOOSE i \in 1..Len(given) : given[i].name = n]

----------------------------------------------------------------------------
(* types *)
Ints == {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
         "int24", "uint24", "uint112", "int128", "uint128", "int256", "uint256"}
Fixed == {"bytes1", "bytes4", "bytes20", "bytes32"}
IntLists == {"bool[]", "uint8[]", "uint64[]", "uint128[]", "uint256[]", "int256[]"}
FixedLists == {"bytes4[]", "bytes32[]"}
Known == Ints \cup Fixed \cup IntLists \cup FixedLists \cup {"address", "address[]", "bytes", "string"}

\* what a method takes for an input, and gives for an output
In(t) == CASE t \in Ints -> "int" [] t \in Fixed -> "data" [] t \in IntLists -> "ints" [] t \in FixedLists -> "datas"
           [] t = "address" -> "addr" [] t = "address[]" -> "addrs" [] t \in {"bytes", "string"} -> "bytes"
Out(t) == CASE t = "bool" -> "bool"
            [] t = "uint8" -> "u8" [] t = "uint16" -> "u16" [] t = "uint32" -> "u32" [] t = "uint64" -> "u64"
            [] t = "int8" -> "i8" [] t = "int16" -> "i16" [] t = "int32" -> "i32" [] t = "int64" -> "i64"
            [] t \in {"uint128", "uint256"} -> "int"
            [] t \in IntLists -> "ints" [] t \in FixedLists -> "datas"
            [] t = "address" -> "addr" [] t = "address[]" -> "addrs"
            [] t = "string" -> "string" [] t = "bytes" -> "raw"
            [] OTHER -> "data"        \* the word as it is
Ins(d) == [k \in 1..Len(d.ins) |-> In(d.ins[k])]
Outs(d) == [k \in 1..Len(d.outs) |-> Out(d.outs[k])]

\* a function that reads and gives nothing has no use
Bound(d) == d.kind = "function" /\ ~(d.view /\ d.outs = << >>)
Offers(c) == {[name |-> d.go, ins |-> Ins(d), outs |-> IF d.view THEN Outs(d) ELSE <<"hash">>] :
                d \in {c.abi[i] : i \in {j \in 1..Len(c.abi) : Bound(c.abi[j])}}}
Method(c, m) == c.abi[CHOOSE i \in 1..Len(c.abi) : Bound(c.abi[i]) /\ c.abi[i].go = m]
HasMethod(c, m) == \E i \in 1..Len(c.abi) : Bound(c.abi[i]) /\ c.abi[i].go = m

Join(ts) == IF ts = << >> THEN "" ELSE FoldLeft(LAMBDA a, t : a \o "," \o t, ts[1], Tail(ts))
Signature(d) == d.name \o "(" \o Join(d.ins) \o ")"

----------------------------------------------------------------------------
Given(cs) == given' = cs /\ UNCHANGED pkg

\* wrote: whether there is an output afterwards
Bind(names, code, st, wrote) ==
  /\ (st = "ok") <=> (\A i \in 1..Len(names) : names[i] \in Names)
  /\ wrote <=> (st = "ok")
  /\ pkg' = IF st = "ok" THEN [cs |-> {names[i] : i \in 1..Len(names)}, code |-> code] ELSE NoPkg
  /\ UNCHANGED given

\* the generated package compiles
Built(ok) == ok /\ pkg # NoPkg /\ UNCHANGED <<given, pkg>>

Methods(n, ms) ==
  /\ n \in pkg.cs
  /\ {ms[i] : i \in 1..Len(ms)} = Offers(Contract(n)) /\ Len(ms) = Cardinality(Offers(Contract(n)))
  /\ UNCHANGED <<given, pkg>>
Code(n, code) == pkg.code /\ n \in pkg.cs /\ code = Contract(n).code /\ UNCHANGED <<given, pkg>>

\* reqs: the requests the node was sent; ans: what it answers to the call or transaction, none if it refuses;
\* sel: the selectors of the signature of every function
Sent(q, m) == SelectSeq(q, LAMBDA r : r.m = m)
Invoke(n, m, sel, to, from, args, reqs, ans, st, vals) ==
  /\ n \in pkg.cs /\ HasMethod(Contract(n), m)
  /\ LET d == Method(Contract(n), m)
         data == sel[Signature(d)] \o E!Enc(Ins(d), args)
         kind == IF d.view THEN "eth_call" ELSE "eth_sendTransaction"
         q == Sent(reqs, kind)
     IN /\ Len(q) = 1 /\ q[1].to = to /\ q[1].from = from /\ q[1].data = data
        \* gas is estimated for the same call; nothing else is asked for
        /\ \A i \in 1..Len(reqs) : reqs[i].m \in {kind} \cup (IF d.view THEN {} ELSE {"eth_estimateGas"})
        /\ \A i \in 1..Len(reqs) : reqs[i].to = to /\ reqs[i].data = data
        /\ IF ans = << >> THEN st = "err"
           ELSE IF d.view
           THEN LET r == E!Dec(ans[1], Outs(d)) IN
                IF st = "ok" THEN E!Complete(r) /\ Len(vals) = Len(r) /\ \A k \in 1..Len(r) : vals[k] = r[k][1]
                ELSE st = "err" /\ ~E!Canonical(ans[1], Outs(d), r)
           ELSE st = "ok" /\ vals = <<E!Raw(ans[1])>>
  /\ UNCHANGED <<given, pkg>>

\* the first entry with the signature
Find(n, desc, i) ==
  /\ n \in Names
  /\ LET c == Contract(n)
         hits == {k \in 1..Len(c.abi) : Signature(c.abi[k]) = desc}
     IN IF hits = {} THEN i = 0 ELSE i \in hits /\ \A k \in hits : i <= k
  /\ UNCHANGED <<given, pkg>>

Prefix == <<161, 101, 98, 122, 122, 114, 48, 88, 32>>
Suffix == <<0, 41>>
Meta(c) ==
  LET n == Len(c) IN
  /\ n >= 43
  /\ SubSeq(c, n - 42, n - 34) = Prefix
  /\ SubSeq(c, n - 1, n) = Suffix
Strip(c, out, hash) ==
  /\ IF Meta(c) THEN hash = SubSeq(c, Len(c) - 33, Len(c) - 2) /\ out = SubSeq(c, 1, Len(c) - 43)
     ELSE hash = << >> /\ out = c
  /\ UNCHANGED <<given, pkg>>
=============================================================================
