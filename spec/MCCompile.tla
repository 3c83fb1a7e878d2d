----------------------------- MODULE MCCompile -----------------------------
(* Every history of compilations over a few sources, with entries spoilt and    *)
(* lost, source files rewritten and failing runs.  The environment's compiler   *)
(* numbers its runs: a bundle is [run, key].                                    *)
EXTENDS Compile, TLC, Json
CONSTANTS Depth, Emit, Deep
VARIABLES count, trail, last
NM == {"a", "b"}
BD == {"x", "y"}
Keys == {[m \in S |-> f[m]] : S \in (SUBSET NM) \ {{}}, f \in [NM -> BD]}
Tmps == IF Deep THEN {"t", "u"} ELSE {"t"}
mvars == <<vars, count, trail, last>>
MInit == /\ cache = {} /\ strs = {} /\ blocked = {} /\ disk = {} /\ rest = "" /\ settings = ""
         /\ count = 0 /\ trail = << >> /\ last = [op |-> ""]
Log(op) == trail' = IF Emit THEN Append(trail, op) ELSE << >>
B(i, key) == [run |-> i, key |-> key]
\* the bundle of a run, or a remembered one
Outcome(t, key, good) ==
  \/ \E x \in Mine(t, key) :
       /\ Run(t, key, << >>, "s", TRUE, TRUE, "ok", x.bundle) /\ count' = count
       /\ last' = [op |-> "ran", tmp |-> t, key |-> key, st |-> "ok", got |-> x.bundle, ran |-> FALSE]
  \/ /\ Run(t, key, <<key>>, "s", TRUE, TRUE, IF good THEN "ok" ELSE "err", IF good THEN B(count + 1, key) ELSE B(0, key))
     /\ count' = count + 1
     /\ last' = [op |-> "ran", tmp |-> t, key |-> key, st |-> IF good THEN "ok" ELSE "err", got |-> B(count + 1, key), ran |-> TRUE]
DoCompile == \E t \in Tmps, key \in Keys, good \in BOOLEAN :
               Outcome(t, key, good) /\ Log([op |-> "compile", tmp |-> t, key |-> key, good |-> good])
DoSpoil == \E t \in Tmps, key \in {x.key : x \in cache} :
               Spoil(t, {key}) /\ Log([op |-> "spoil", tmp |-> t, key |-> key]) /\ last' = [op |-> "spoil"] /\ UNCHANGED count
DoWrite == \E m \in NM, b \in BD :
               Write([path |-> m, let |-> m, dir |-> "d", body |-> b]) /\ Log([op |-> "write", name |-> m, body |-> b])
               /\ last' = [op |-> "write"] /\ UNCHANGED count
DoRemove == \E f \in disk : Remove(f.path) /\ Log([op |-> "unlink", name |-> f.path]) /\ last' = [op |-> "unlink"] /\ UNCHANGED count
DoGlob == \E t \in Tmps, let \in NM \cup {"*"} :
            LET F == Matched("d", let) IN
            /\ Log([op |-> "glob", tmp |-> t, let |-> let])
            /\ IF F = {} THEN RunGlob(t, "d", let, << >>, "s", TRUE, TRUE, "err", B(0, [m \in {} |-> ""])) /\ last' = [op |-> "none"] /\ UNCHANGED count
                         ELSE Outcome(t, Content(F), TRUE)
MNext == TLCGet("level") <= Depth /\ (DoCompile \/ DoSpoil \/ DoWrite \/ DoRemove \/ DoGlob)
Done == /\ TLCGet("level") = Depth + 1 /\ Emit /\ PrintT(<<"SCRIPT", ToJson(trail)>>) /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext \/ Done]_mvars
\* the compiler runs only for what is not certain to be remembered
Frugal == [][last'.op = "ran" /\ last'.ran => \A x \in Mine(last'.tmp, last'.key) : ~x.sure]_mvars
\* a result is of the sources that were given
NeverOthers == last.op = "ran" /\ last.st = "ok" => last.got.key = last.key
\* what is remembered is of a run with these sources
Sound == \A x \in cache : x.bundle.key = x.key /\ x.bundle.run \in 1..count
\* one entry for a list of sources, and at most one list of sources for the same names is certain to be kept
OneEach == \A x, y \in cache : x.tmp = y.tmp /\ x.key = y.key => x = y
Latest == \A x, y \in cache : x.tmp = y.tmp /\ Names(x.key) = Names(y.key) /\ x.sure /\ y.sure => x = y
=============================================================================
