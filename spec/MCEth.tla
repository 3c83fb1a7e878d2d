-------------------------------- MODULE MCEth --------------------------------
(* Choosing a key: two files of every form that matters, every kind of pattern *)
(* and passphrase.  Arguments: every integer near the bounds of its type.      *)
EXTENDS Eth, Json
CONSTANTS Emit, Part  \* "keys" or "args"
VARIABLES sc, last, stage
mvars == <<dirs, files, code, sc, last, stage>>
Forms == {"good", "incomplete", "noise", "broken"}
Names == {"none", "own", "same"}
Addrs == {"own", "none", "other"}
Pats == {"name", "addr", "id", "addrs", "names", "alt", "all", "junk", "none", "bad", "wrongend"}
Key(k) == "0xa" \o ToString(k)
Toks(s) == [i \in 1..Len(s) |-> Char(s, i)]
Whole(s) == [ls |-> TRUE, toks |-> Toks(s), rs |-> TRUE]
Some(ts) == [ls |-> FALSE, toks |-> ts, rs |-> FALSE]
Pattern(c, t) ==
  CASE c = "name" -> <<Whole("n" \o ToString(t))>>
    [] c = "addr" -> <<Some(Toks("a" \o ToString(t)))>>
    [] c = "id" -> <<Whole("i" \o ToString(t))>>
    [] c = "addrs" -> <<[ls |-> TRUE, toks |-> Toks("0xa."), rs |-> TRUE]>>
    [] c = "names" -> <<Some(<<"n", ".">>)>>
    [] c = "alt" -> <<Whole("n1"), Whole("n2")>>
    [] c = "all" -> <<Some(<< >>)>>
    [] c = "junk" -> <<Some(Toks("zz"))>>
    [] c = "wrongend" -> <<[ls |-> FALSE, toks |-> Toks("0xa"), rs |-> TRUE]>>
    [] OTHER -> << >>
\* file i holds key k
File(i, x) ==
  [valid |-> x.form \in {"good", "broken"}, id |-> "i" \o ToString(i),
   shown |-> CASE x.nm = "none" -> "i" \o ToString(i) [] x.nm = "own" -> "n" \o ToString(i) [] OTHER -> "n1",
   addr |-> CASE x.ad = "own" -> Key(x.k) [] x.ad = "none" -> "" [] OTHER -> Key(3 - x.k),
   key |-> Key(x.k), pass |-> "p" \o ToString(i), opens |-> x.form # "broken"]
FileDescs == [form : Forms, nm : Names, ad : Addrs, k : 1..2]

e0 == [to |-> <<48, 120, 48, 49>>, sig |-> "f()", sel |-> <<1, 2, 3, 4>>, args |-> << >>, force |-> TRUE, n |-> -1,
       g |-> [neg |-> FALSE, b |-> <<4>>], nonce |-> 7, node |-> "up"]
k0 == [paths |-> {"d1"}, pat |-> <<Some(<< >>)>>, bad |-> FALSE, typed |-> "p1"]
Nothing == [exit |-> 1, out |-> "", sent |-> << >>]
Tx(from, data) == [from |-> from, to |-> <<1>>, data |-> data, value |-> << >>, gp |-> <<238, 107, 40, 0>>, nonce |-> 7, hash |-> "h"]
Does(from, data) == [exit |-> 0, out |-> "h", sent |-> <<Tx(from, data)>>]

MInit == /\ dirs = {"d1", "d2"} /\ files = [x \in {} |-> 0] /\ code = [x \in {} |-> 0]
         /\ sc = [part |-> ""] /\ last = Nothing /\ stage = "pick"

PickKeys == /\ stage = "pick" /\ Part = "keys" /\ stage' = "run"
            /\ \E a, b \in FileDescs, c \in Pats, t \in 1..2, p \in {"p1", "p2"}, ps \in {{"d1"}, {"d1", "d2"}, {"d1", "d3"}} :
                 /\ b.nm = "same" \/ a.nm # "same"
                 /\ a.form = "good" /\ a.k = 1
                 /\ sc' = [part |-> "keys", a |-> a, b |-> b, pat |-> c, t |-> t, typed |-> p, paths |-> ps]
                 /\ files' = (<<"d1", "f1">> :> File(1, a)) @@ (<<"d2", "f2">> :> File(2, b))
            /\ UNCHANGED <<dirs, code, last>>
RunKeys == /\ stage = "run" /\ Part = "keys" /\ stage' = "ran"
           /\ \E o \in {Nothing} \cup {Does(f, <<1, 2, 3, 4>>) : f \in {"0xa1", "0xa2"}} :
                /\ Call([paths |-> sc.paths, pat |-> Pattern(sc.pat, sc.t), bad |-> sc.pat = "bad", typed |-> sc.typed], e0, o)
                /\ last' = o
           /\ UNCHANGED sc
\* ---- integers near the bounds, as text and as what they are
Texts == {<<v, [i \in 1..Len(ToString(v)) |-> LET ch == Char(ToString(v), i) IN IF ch = "-" THEN 45 ELSE 48 + (CHOOSE d \in 0..9 : ToString(d) = ch)]>> :
            v \in {0, 1, 5, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, -1, -127, -128, -129, -255, -256, -32768, -32769}}
IntTypes == [t \in {"int8", "uint8", "int16", "uint16"} |->
  CASE t = "int8" -> [lo |-> -128, hi |-> 127] [] t = "uint8" -> [lo |-> 0, hi |-> 255]
    [] t = "int16" -> [lo |-> -32768, hi |-> 32767] [] t = "uint16" -> [lo |-> 0, hi |-> 65535]]
\* two's complement, counted by hand
ByHand(v) == IF v >= 0 THEN PadLeft(FromNat(v), W) ELSE [i \in 1..W |-> IF i <= W - 2 THEN 255 ELSE PadLeft(FromNat(65536 + v), 2)[i - W + 2]]
PickArgs == /\ stage = "pick" /\ Part = "args" /\ stage' = "run"
            /\ \E t \in DOMAIN IntTypes, x, y \in Texts, shape \in {"one", "two", "list", "more", "fewer"} :
                 /\ shape \in {"two", "list"} \/ y[1] = -1
                 /\ sc' = [part |-> "args", t |-> t, x |-> x, y |-> y, shape |-> shape]
            /\ files' = (<<"d1", "f1">> :> File(1, [form |-> "good", nm |-> "own", ad |-> "own", k |-> 1]))
            /\ UNCHANGED <<dirs, code, last>>
Sel4 == <<1, 2, 3, 4>>
Hand == CASE sc.shape = "two" -> Sel4 \o ByHand(sc.x[1]) \o ByHand(sc.y[1])
          [] sc.shape = "list" -> Sel4 \o PadLeft(<<W>>, W) \o PadLeft(<<2>>, W) \o ByHand(sc.x[1]) \o ByHand(sc.y[1])
          [] OTHER -> Sel4 \o ByHand(sc.x[1])
RunArgs == /\ stage = "run" /\ Part = "args" /\ stage' = "ran"
           /\ LET e == [e0 EXCEPT !.sig = CASE sc.shape \in {"two", "fewer"} -> "f(" \o sc.t \o "," \o sc.t \o ")"
                                            [] sc.shape = "list" -> "f(" \o sc.t \o "[])" [] OTHER -> "f(" \o sc.t \o ")",
                                  !.args = CASE sc.shape \in {"two", "more"} -> <<sc.x[2], sc.y[2]>>
                                             [] sc.shape = "list" -> << <<91>> \o sc.x[2] \o <<44>> \o sc.y[2] \o <<93>> >>
                                             [] OTHER -> <<sc.x[2]>>]
              IN \E o \in {Nothing, Does("0xa1", Hand), Does("0xa2", Hand), Does("0xa1", Sel4), Does("0xa1", Sel4 \o ByHand(sc.y[1]))} :
                   Call(k0, e, o) /\ last' = o
           /\ UNCHANGED sc
Done == /\ stage = "ran" /\ stage' = "done" /\ UNCHANGED <<dirs, files, code, sc, last>>
        /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson(sc)>>) ELSE TRUE
\* told once (by each worker), so that it can be seen that nothing here is vacuous
ASSUME \A i \in 101..105 : TLCSet(i, FALSE)
Took(i, name) == IF Emit \/ TLCGet(i) THEN TRUE ELSE TLCSet(i, TRUE) /\ PrintT(<<"TOOK", name>>)
MNext == \/ PickKeys /\ Took(101, "PickKeys")
         \/ RunKeys /\ Took(102, "RunKeys")
         \/ PickArgs /\ Took(103, "PickArgs")
         \/ RunArgs /\ Took(104, "RunArgs")
         \/ Done /\ Took(105, "Done")
MSpec == MInit /\ [][MNext]_mvars

\* ---- the keys that a class of patterns means, told without matching anything
Sent == last.sent # << >>
F(i) == IF i = 1 THEN sc.a ELSE sc.b
There(i) == (i = 1 \/ "d2" \in sc.paths) /\ F(i).form \in {"good", "broken"}
HasName(i, n) == There(i) /\ ((F(i).nm = "own" /\ n = i) \/ (F(i).nm = "same" /\ n = 1))
Named(i) == There(i) /\ F(i).nm # "none"
HasAddr(i, k) == There(i) /\ ((F(i).ad = "own" /\ F(i).k = k) \/ (F(i).ad = "other" /\ F(i).k = 3 - k))
Meant == {i \in 1..2 :
  CASE sc.pat = "name" -> HasName(i, sc.t)
    [] sc.pat = "addr" -> HasAddr(i, sc.t)
    [] sc.pat = "id" -> There(i) /\ i = sc.t
    [] sc.pat = "addrs" -> HasAddr(i, 1) \/ HasAddr(i, 2)
    [] sc.pat \in {"names", "alt"} -> Named(i)
    [] sc.pat \in {"all", "none"} -> There(i)
    [] OTHER -> FALSE}
Ran == stage = "ran"
\* only a key that was meant signs, and only if all that were meant are that key
Exact == Ran /\ Part = "keys" /\ Sent => /\ \E i \in Meant : Key(F(i).k) = last.sent[1].from
                                        /\ (sc.pat = "id" \/ \A x, y \in Meant : F(x).k = F(y).k)
\* the passphrase was that file's, and the file holds what it says
Opened == Ran /\ Part = "keys" /\ Sent => \E i \in Meant : Key(F(i).k) = last.sent[1].from /\ F(i).form = "good" /\ F(i).ad # "other"
                                                     /\ sc.typed = "p" \o ToString(i)
\* it is not refused without reason
Works == Ran /\ Part = "keys" /\ ~Sent => \/ Cardinality(Meant) # 1 \/ "d3" \in sc.paths
           \/ \E i \in Meant : F(i).form # "good" \/ F(i).ad = "other" \/ sc.typed # "p" \o ToString(i)
           \/ sc.pat \in {"id", "none"} \/ \E z \in 1..2 : There(i) /\ F(z).ad = "none"
\* an integer is sent as what it is, if its type has it, and refused if not
In(x) == IntTypes[sc.t].lo <= x[1] /\ x[1] <= IntTypes[sc.t].hi
Fits == sc.shape \notin {"more", "fewer"} /\ In(sc.x) /\ (sc.shape \in {"two", "list"} => In(sc.y))
Exactly == Ran /\ Part = "args" => IF Fits THEN Sent /\ last.sent[1].data = Hand /\ last.sent[1].from = "0xa1" ELSE ~Sent
=============================================================================
