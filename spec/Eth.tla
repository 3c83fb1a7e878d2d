--------------------------------- MODULE Eth ---------------------------------
(***************************************************************************)
(* C24: the eth command.  The state is what the command finds when it      *)
(* runs: directories with files in them (some of which are keys), and what *)
(* the node knows about the contracts.  Every command is one action; what  *)
(* it may send and print is determined by its arguments and that state.    *)
(*                                                                         *)
(* Texts whose characters matter for parsing are sequences of codes.  A    *)
(* file: [valid, shown, id, addr, key, pass, opens]: whether it is a key   *)
(* file; the name `eth keys' shows; its id; the address it names ("" if    *)
(* none); the address of the key in it, its passphrase, and whether it is  *)
(* intact.  A pattern is a sequence of alternatives [ls, toks, rs]: tokens *)
(* (a character, `.', or `\' and a character), bound to the start and to   *)
(* the end of the text or not.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, BigNum, TLC
CONSTANTS W, A,   \* bytes in a word, in an address
          Nobody  \* the address that is all zeros, as text
VARIABLES dirs,   \* the directories that exist
          files,  \* <<dir, name>> -> file
          code    \* address (bytes) -> [kind, sels, raw, entries]: kind is none, strange, or table
vars == <<dirs, files, code>>
AB == INSTANCE Abi WITH typ <- files, mem <- files
SC == INSTANCE Scalars WITH Size <- [x \in {} |-> 0], typ <- files, mem <- files

----------------------------------------------------------------------------
(* choosing a key *)
Char(s, i) == SubSeq(s, i, i)
Tok(t, c) == IF t = "." THEN TRUE ELSE IF Len(t) = 2 THEN Char(t, 2) = c ELSE t = c
AltMatch(a, s) == \E o \in 0..Len(s) - Len(a.toks) :
  /\ a.ls => o = 0
  /\ a.rs => o + Len(a.toks) = Len(s)
  /\ \A j \in 1..Len(a.toks) : Tok(a.toks[j], Char(s, o + j))
Match(p, s) == \E i \in 1..Len(p) : AltMatch(p[i], s)
Cat(ts) == FoldLeft(LAMBDA x, t : x \o t, "", ts)
AltText(a) == (IF a.ls THEN "^" ELSE "") \o Cat(a.toks) \o (IF a.rs THEN "$" ELSE "")
RECURSIVE PatText(_)
PatText(p) == IF p = << >> THEN "" ELSE IF Len(p) = 1 THEN AltText(p[1]) ELSE AltText(p[1]) \o "|" \o PatText(Tail(p))

Here(paths) == {k \in DOMAIN files : k[1] \in paths /\ files[k].valid}
Sure(p, f) == Match(p, f.shown) \/ (f.addr # "" /\ Match(p, f.addr))
Maybe(p, f) == Sure(p, f) \/ Match(p, f.id) \/ (f.addr = "" /\ Match(p, Nobody))
\* the files that may be chosen, and whether refusing is right
Choice(paths, p, bad) ==
  LET h == Here(paths)
      s == {k \in h : Sure(p, files[k])}
      m == {k \in h : Maybe(p, files[k])}
      same == \A x, y \in s : files[x].key = files[y].key
  IN IF bad THEN [refuse |-> TRUE, from |-> {}]
     ELSE IF p = << >> THEN [refuse |-> TRUE, from |-> IF Cardinality(h) = 1 THEN h ELSE {}]
     ELSE [refuse |-> Cardinality(s) # 1 \/ m # s \/ ~(paths \subseteq dirs),
           from |-> IF s = {} THEN m ELSE IF Cardinality(s) = 1 \/ same THEN s ELSE {}]
\* a file can be opened, and holds the key it says it does
Usable(f, typed) == f.opens /\ f.pass = typed /\ f.addr \in {"", f.key}
Refusable(sel, typed) == sel.refuse \/ \E k \in sel.from : ~Usable(files[k], typed)
SignsAs(sel, typed) == {files[k].key : k \in {j \in sel.from : Usable(files[j], typed)}}

----------------------------------------------------------------------------
(* arguments: whether one is accepted (yes, no, either) or nothing is known *)
(* about it (any), the type it is encoded as, and its value                 *)
Arg(may, t, v) == [may |-> may, t |-> t, v |-> v]
Zero == AB!Num(<< >>)
No == Arg("no", "int", Zero)
Unsettled == Arg("any", "int", Zero)
Weaker(a, b) == IF "no" \in {a, b} THEN "no" ELSE IF "any" \in {a, b} THEN "any" ELSE IF "either" \in {a, b} THEN "either" ELSE "yes"

Plain == {8, 16, 32, 64, 128, 256}
Widths == {8 * k : k \in 1..32}
IntNames == [s \in {("uint" \o ToString(n)) : n \in Widths} \cup {("int" \o ToString(n)) : n \in Widths} |->
               [signed |-> Char(s, 1) = "i", bits |-> CHOOSE n \in Widths : s \in {("uint" \o ToString(n)), ("int" \o ToString(n))}]]
FixNames == [s \in {("bytes" \o ToString(n)) : n \in 1..32} |-> CHOOSE n \in 1..32 : s = "bytes" \o ToString(n)]

InRange(v, bits, signed) ==
  LET n == bits \div 8 IN
  IF signed THEN IF v.neg THEN Cmp(v.b, AB!Half(n)) <= 0 ELSE Cmp(v.b, AB!Half(n)) < 0
  ELSE ~v.neg /\ Len(v.b) <= n
IntArg(x, bits, signed) ==
  LET p == SC!ParseNumber(x)
      oks == {r \in p.rs : r.st = "ok"}
  IN IF p.any THEN Unsettled
     ELSE IF oks = {} THEN No
     ELSE LET v == (CHOOSE r \in oks : TRUE).v IN
          IF ~InRange(v, bits, signed) THEN No
          ELSE Arg(IF bits \in Plain /\ p.rs = oks THEN "yes" ELSE "either", "int", [neg |-> v.neg, b |-> v.b, l |-> << >>])
\* bytes are written with or without a prefix
Bare(x) == IF SC!HasOx(x) THEN SubSeq(x, 3, Len(x)) ELSE x
BytesArg(x) == IF ~SC!All(SC!IsHex, Bare(x)) THEN No
               ELSE Arg(IF Len(Bare(x)) % 2 = 0 THEN "yes" ELSE "either", "bytes", AB!Raw(SC!Unhex(Bare(x))))
FixArg(x, n) == LET a == BytesArg(x) IN IF a.may = "no" \/ Len(a.v.b) # n THEN No ELSE [a EXCEPT !.t = "data"]
\* as ParseFixed; an address without its prefix or with an odd number of digits is not settled
AddrArg(x) == LET p == SC!ParseFixed(x, A) IN
  IF p.any THEN Unsettled
  ELSE IF \A r \in p.rs : r.st = "err"
       THEN IF ~SC!HasOx(x) /\ SC!All(SC!IsHex, x) /\ Len(x) = 2 * A THEN Arg("either", "addr", AB!Raw(SC!Unhex(x))) ELSE No
  ELSE Arg(IF Cardinality(p.rs) = 1 THEN "yes" ELSE "either", "addr", AB!Raw((CHOOSE r \in p.rs : r.st = "ok").v.b))
True_ == <<116, 114, 117, 101>>
False_ == <<102, 97, 108, 115, 101>>
BoolArg(x) == IF x = True_ THEN Arg("yes", "int", AB!Num(<<1>>)) ELSE IF x = False_ THEN Arg("yes", "int", Zero) ELSE No
Scalar(t, x) ==
  CASE t = "bool" -> BoolArg(x)
    [] t = "address" -> AddrArg(x)
    [] t \in {"bytes", "string"} -> BytesArg(x)
    [] t \in DOMAIN FixNames -> FixArg(x, FixNames[t])
    [] t \in DOMAIN IntNames -> IntArg(x, IntNames[t].bits, IntNames[t].signed)
    [] t \in {"int", "uint"} -> [IntArg(x, 256, t = "int") EXCEPT !.may = IF @ = "yes" THEN "either" ELSE @]
    [] OTHER -> No
Known(t) == t \in {"bool", "address", "bytes", "string", "int", "uint"} \cup DOMAIN FixNames \cup DOMAIN IntNames

RECURSIVE SplitCodes(_)
SplitCodes(x) == LET cs == {i \in 1..Len(x) : x[i] = 44} IN
  IF cs = {} THEN <<x>>
  ELSE LET i == CHOOSE i \in cs : \A j \in cs : i <= j IN <<SubSeq(x, 1, i - 1)>> \o SplitCodes(SubSeq(x, i + 1, Len(x)))
ListType(t) == CASE t = "addr" -> "addrs" [] t = "data" -> "datas" [] t = "int" -> "ints" [] OTHER -> ""
ListArg(et, x) ==
  IF Len(x) < 2 \/ x[1] # 91 \/ x[Len(x)] # 93 THEN No
  ELSE LET y == SubSeq(x, 2, Len(x) - 1)
           as == [i \in 1..Len(SplitCodes(y)) |-> Scalar(et, SplitCodes(y)[i])]
           may == FoldLeft(LAMBDA m, a : Weaker(m, a.may), "yes", as)
       IN IF y = << >> THEN Arg(IF Known(et) THEN "yes" ELSE "either", "ints", AB!List(<< >>))
          ELSE IF ~Known(et) \/ ListType(as[1].t) = "" THEN IF Known(et) /\ may # "no" THEN Unsettled ELSE No
          ELSE Arg(IF as[1].t = "data" THEN Weaker(may, "either") ELSE may, ListType(as[1].t),
                   AB!List([i \in 1..Len(as) |-> AB!El(as[i].v.neg, as[i].v.b)]))
EndsIn(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
ArgOf(t, x) == IF EndsIn(t, "[]") THEN ListArg(SubSeq(t, 1, Len(t) - 2), x) ELSE Scalar(t, x)

----------------------------------------------------------------------------
(* a method: its name, its types *)
Index(s, c) == {i \in 1..Len(s) : Char(s, i) = c}
Least(is) == CHOOSE i \in is : \A j \in is : i <= j
RECURSIVE SplitText(_)
SplitText(s) == IF Index(s, ",") = {} THEN <<s>>
                ELSE LET i == Least(Index(s, ",")) IN <<SubSeq(s, 1, i - 1)>> \o SplitText(SubSeq(s, i + 1, Len(s)))
Method(s) ==
  LET l == Index(s, "(")  r == Index(s, ")") IN
  IF l = {} \/ r # {Len(s)} \/ Cardinality(l) # 1 THEN [ok |-> FALSE, name |-> "", types |-> << >>]
  ELSE LET in == SubSeq(s, Least(l) + 1, Len(s) - 1)
           nm == SubSeq(s, 1, Least(l) - 1)
           ts == IF in = "" THEN << >> ELSE SplitText(in)
       IN [ok |-> nm # "" \/ ts = << >>, name |-> nm, types |-> ts]
Prefix(args, n) == SubSeq(args, 1, n)
Args(m, args) == [i \in 1..Len(m.types) |-> ArgOf(m.types[i], args[i])]
AllMay(as) == FoldLeft(LAMBDA x, a : Weaker(x, a.may), "yes", as)
Payload(sel, as) == sel \o AB!Enc([i \in 1..Len(as) |-> as[i].t], [i \in 1..Len(as) |-> as[i].v])
\* the data a method is called with; there is no telling what the fallback function is called with
DataOk(m, sel, as, data) == IF m.name = "" THEN data \in {<< >>, sel} ELSE AllMay(as) = "any" \/ data = Payload(sel, as)

CodeAt(a) == IF a \in DOMAIN code THEN code[a] ELSE [kind |-> "none", sels |-> {}, raw |-> "", entries |-> << >>]
\* the contract has the method, as far as its code tells
Offers(a, m, sel, force) == force \/ m.name = "" \/ (CodeAt(a).kind = "table" /\ sel \in CodeAt(a).sels)

----------------------------------------------------------------------------
(* what a run that is refused does: nothing *)
Refused(o) == o.exit # 0 /\ o.sent = << >> /\ o.out = ""

Put(d, n, f) == d \in dirs /\ files' = [k \in DOMAIN files \cup {<<d, n>>} |-> IF k = <<d, n>> THEN f ELSE files[k]] /\ UNCHANGED <<dirs, code>>
Delete(d, n) == files' = [k \in DOMAIN files \ {<<d, n>>} |-> files[k]] /\ UNCHANGED <<dirs, code>>
MakeDir(d) == dirs' = dirs \cup {d} /\ UNCHANGED <<files, code>>
RemoveDir(d) == dirs' = dirs \ {d} /\ files' = [k \in {j \in DOMAIN files : j[1] # d} |-> files[k]] /\ UNCHANGED code
Deploy(a, c) == code' = [x \in DOMAIN code \cup {a} |-> IF x = a THEN c ELSE code[x]] /\ UNCHANGED <<dirs, files>>

\* k: [paths, pat, bad, typed], how a key was to be chosen
\* e: [to, sig, sel, args, force, n, g, nonce, node]; o: [exit, out, sent]
Selection(k) == Choice(k.paths, k.pat, k.bad)
Gwei(g) == Strip(MulSmall(MulSmall(g, 1000000), 1000))
Call(k, e, o) ==
  LET sel == Selection(k)
      m == Method(e.sig)
      a == AddrArg(e.to)
      enough == m.ok /\ Len(e.args) >= Len(m.types)
      as == IF enough THEN Args(m, e.args) ELSE << >>
      must == \/ a.may = "no" \/ ~m.ok \/ ~enough \/ Len(e.args) > Len(m.types) \/ AllMay(as) = "no"
              \/ (a.may # "any" /\ ~Offers(a.v.b, m, e.sel, e.force))
              \/ SignsAs(sel, k.typed) = {} \/ e.g.neg
      may == must \/ a.may # "yes" \/ AllMay(as) # "yes" \/ Refusable(sel, k.typed) \/ e.n < -1 \/ Len(e.g.b) > 4
  IN /\ UNCHANGED vars
     /\ IF e.node = "down" THEN o.exit # 0 /\ o.sent = << >> /\ o.out = ""
        ELSE \/ (must \/ may) /\ Refused(o)
             \/ /\ ~must /\ Len(o.sent) = 1
                /\ LET t == o.sent[1] IN
                     /\ t.from \in SignsAs(sel, k.typed)
                     /\ a.may = "any" \/ t.to = a.v.b
                     /\ DataOk(m, e.sel, as, t.data)
                     /\ t.value = << >> /\ t.gp = Gwei(e.g.b)
                     /\ t.nonce = IF e.n >= 0 THEN e.n ELSE e.nonce
                     /\ IF e.node = "reject" THEN o.exit # 0 /\ o.out = "" ELSE o.exit = 0 /\ o.out = t.hash

\* e: [input, hashed, exact, prefix, both]; o: [exit, out, sent, by]: whose signature comes out
Sign(k, e, o) ==
  LET sel == Selection(k)
      must == ~e.input \/ (e.hashed /\ (e.prefix \/ ~e.exact)) \/ e.both \/ SignsAs(sel, k.typed) = {}
  IN /\ UNCHANGED vars
     /\ \/ (must \/ Refusable(sel, k.typed)) /\ Refused(o)
        \/ ~must /\ o.exit = 0 /\ o.sent = << >> /\ o.by \in SignsAs(sel, k.typed)

\* o.list: the lines [shown, addr]
List(paths, o) ==
  LET h == Here(paths) IN
  /\ UNCHANGED vars /\ o.sent = << >>
  /\ \/ ~(paths \subseteq dirs) /\ o.exit # 0
     \/ /\ o.exit = 0 /\ Len(o.list) = Cardinality(h)
        /\ \A x \in {[shown |-> files[k].shown, addr |-> files[k].addr] : k \in h} :
             Cardinality({i \in 1..Len(o.list) : o.list[i].shown = x.shown /\ (x.addr = "" \/ o.list[i].addr = x.addr)})
               >= Cardinality({k \in h : files[k].shown = x.shown /\ files[k].addr = x.addr})

\* a key is made, and kept in a file that is opened by what was typed; f is that file
Generate(name, typed, f, o) ==
  /\ UNCHANGED vars /\ o.exit = 0 /\ o.sent = << >>
  /\ f.valid /\ f.opens /\ f.pass = typed /\ (name # "" => f.shown = name)
  /\ f.key # "" /\ \A k \in DOMAIN files : files[k].key # f.key

----------------------------------------------------------------------------
(* reading *)
RECURSIVE DecText(_)
DecText(b) == IF b = << >> THEN << >> ELSE LET r == DivSmall(b, 10) IN Append(DecText(r[1]), 48 + r[2])
Decimal(b) == IF b = << >> THEN <<48>> ELSE DecText(b)
Returns(t) == CASE t \in {"string", "bytes"} -> "bytes" [] t = "bool" -> "bool" [] t = "address" -> "addr"
                [] t \in DOMAIN FixNames -> "data" [] t \in {"int", "uint"} \cup DOMAIN IntNames -> "big" [] OTHER -> ""
\* the lines that may show value v of type t
Shown(t, v) ==
  CASE t = "string" -> {v.b}
    [] t = "bytes" -> {SC!Digits(v.b)}
    [] t = "bool" -> {IF v.b = << >> THEN False_ ELSE True_}
    [] t = "address" -> {SC!Ox \o SC!Digits(v.b)}
    [] t \in DOMAIN FixNames -> {SC!Digits(v.b), SubSeq(SC!Digits(v.b), 1, 2 * FixNames[t])}
    [] Char(t, 1) = "i" /\ Len(v.b) = W /\ v.b[1] >= 128 -> {Decimal(v.b), <<45>> \o Decimal(AB!Complement(v.b, W))}
    [] OTHER -> {Decimal(v.b)}
\* e.words are what follows the method: [x, s], the same text in both forms; ret is what the node gives
\* o: [exit, lines, sent, calls]
Read(e, o) ==
  LET m == Method(e.sig)
      a == AddrArg(e.to)
      n == Len(m.types)
      enough == m.ok /\ Len(e.words) >= n
      as == IF enough THEN Args(m, [i \in 1..n |-> e.words[i].x]) ELSE << >>
      ts == IF enough THEN [i \in 1..Len(e.words) - n |-> e.words[n + i].s] ELSE << >>
      rs == [i \in 1..Len(ts) |-> Returns(ts[i])]
      got == AB!Dec(e.ret, rs)
      must == \/ a.may = "no" \/ ~enough \/ AllMay(as) = "no" \/ (a.may # "any" /\ ~Offers(a.v.b, m, e.sel, e.force))
              \/ \E i \in 1..Len(rs) : rs[i] = ""
      may == must \/ a.may # "yes" \/ AllMay(as) # "yes" \/ e.node # "up" \/ ~AB!Complete(got)
                  \/ \E i \in 1..Len(rs) : ts[i] \in DOMAIN IntNames /\ IntNames[ts[i]].bits \notin Plain
      asked(c) == (a.may = "any" \/ c.to = a.v.b) /\ DataOk(m, e.sel, as, c.data)
  IN /\ UNCHANGED vars /\ o.sent = << >>
     \* whatever is asked is what was to be asked
     /\ must => o.calls = << >> \/ (~(a.may = "no") /\ enough /\ AllMay(as) # "no")
     /\ \A i \in 1..Len(o.calls) : enough /\ asked(o.calls[i])
     /\ \/ may /\ o.exit # 0
        \/ /\ ~must /\ e.node = "up" /\ AB!Complete(got) /\ o.exit = 0 /\ Len(o.calls) >= 1
           /\ Len(o.lines) = Len(ts) /\ \A i \in 1..Len(ts) : o.lines[i] \in Shown(ts[i], got[i][1])

----------------------------------------------------------------------------
(* the other commands *)
\* parts: the files [there, x]; raw: what was posted, in order; rejected: how many the node takes before it rejects one (-1: all)
Hex(x) == LET y == IF x # << >> /\ x[Len(x)] = 10 THEN SubSeq(x, 1, Len(x) - 1) ELSE x IN
          IF ~SC!All(SC!IsHex, Bare(y)) \/ Len(y) % 2 = 1 \/ y = << >> THEN No
          ELSE Arg(IF SC!HasOx(y) THEN "either" ELSE "yes", "bytes", AB!Raw(SC!Unhex(Bare(y))))
Post(parts, takes, raw, hashes, o) ==
  LET hs == [i \in 1..Len(parts) |-> IF parts[i].there THEN Hex(parts[i].x) ELSE No]
      must == parts = << >> \/ AllMay(hs) = "no"
      posted == IF takes = -1 \/ takes >= Len(parts) THEN Len(parts) ELSE takes + 1
  IN /\ UNCHANGED vars /\ o.sent = << >>
     /\ \/ (must \/ AllMay(hs) # "yes") /\ raw = << >> /\ o.exit # 0
        \/ /\ ~must /\ raw = [i \in 1..posted |-> hs[i].v.b]
           /\ (o.exit = 0) = (takes = -1 \/ takes >= Len(parts))
           /\ o.list = SubSeq(hashes, 1, IF o.exit = 0 THEN Len(parts) ELSE takes)
CodeOf(to, o) ==
  LET a == AddrArg(to) IN
  /\ UNCHANGED vars /\ o.sent = << >>
  /\ IF a.may = "no" THEN o.exit # 0
     ELSE \/ a.may # "yes" /\ o.exit # 0
          \/ o.exit = 0 /\ (a.may # "any" => o.out = CodeAt(a.v.b).raw)
\* o.list: the entries [sel, pc] shown
Table(to, o) ==
  LET a == AddrArg(to)
      c == CodeAt(a.v.b)
  IN /\ UNCHANGED vars /\ o.sent = << >>
     /\ IF a.may = "no" \/ c.kind # "table" THEN o.exit # 0
        ELSE \/ a.may # "yes" /\ o.exit # 0
             \/ o.exit = 0 /\ (a.may # "any" => o.list = c.entries)
\* ref is the signer by another implementation
Recover(ref, o) == /\ UNCHANGED vars /\ o.sent = << >>
                   /\ IF ref = "" THEN o.exit # 0 ELSE o.exit = 0 /\ o.out = ref
=============================================================================
