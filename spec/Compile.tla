------------------------------- MODULE Compile -------------------------------
(***************************************************************************)
(* Compilation of Solidity sources with a cache of bundles on disk         *)
(* (compile.go): Compile, CompileGlob and CompileString, any number of     *)
(* caches (directories for temporary files), and what else can happen to   *)
(* the files: entries damaged, cut short and removed, sources rewritten.   *)
(*                                                                         *)
(* The sources of a compilation are a function from names to texts.  The   *)
(* compiler is not part of the system: what it is given (`runs`) and what  *)
(* comes of it (`fits`: the result is what this run makes, `st`: whether   *)
(* it makes one) are the environment's.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES
  cache,     \* remembered bundles: set of [tmp, key, bundle, sure]; one that is not sure may have been lost
  strs,      \* bundles of CompileString: set of [code, bundle]
  blocked,   \* directories in which no cache can be kept
  disk,      \* the source files: set of [path, let, dir, body], body "/" for a directory
  rest,      \* every file that is none of the above
  settings   \* what every run of the compiler is given besides sources ("" before the first)
vars == <<cache, strs, blocked, disk, rest, settings>>

Names(key) == DOMAIN key
\* sources as a list of [name, body] with different names
KeyOf(srcs) == [n \in {srcs[i].name : i \in 1..Len(srcs)} |-> srcs[CHOOSE i \in 1..Len(srcs) : srcs[i].name = n].body]
\* entries that a compilation of key under t may remove
Stale(t, key) == {x \in cache : x.tmp = t /\ Names(x.key) = Names(key) /\ x.key # key}
Doubt(S) == {[x EXCEPT !.sure = FALSE] : x \in S}
Mine(t, key) == {x \in cache : x.tmp = t /\ x.key = key}

\* the remembered bundle is returned, and the compiler doesn't run
Hit(t, key, runs, st, got) ==
  /\ runs = << >> /\ st = "ok"
  /\ \E x \in Mine(t, key) : x.bundle = got
  /\ UNCHANGED <<cache, settings>>

\* the compiler runs, once, with exactly these sources and the usual settings;
\* what it makes is returned and remembered, its failure reported and forgotten
Miss(t, key, runs, set, present, fits, st, got) ==
  /\ \A x \in Mine(t, key) : ~x.sure
  /\ runs = IF present THEN <<key>> ELSE << >>
  /\ IF present THEN set # "" /\ settings \in {"", set} /\ settings' = set ELSE UNCHANGED settings
  /\ fits
  /\ st \in {"ok", "err"} /\ (~present => st = "err")
  /\ LET others == cache \ (Mine(t, key) \cup Stale(t, key)) IN
     cache' = others \cup Doubt(Stale(t, key)) \cup
              IF st = "ok" THEN {[tmp |-> t, key |-> key, bundle |-> got, sure |-> t \notin blocked]} ELSE Mine(t, key)

Run(t, key, runs, set, present, fits, st, got) ==
  /\ Hit(t, key, runs, st, got) \/ Miss(t, key, runs, set, present, fits, st, got)
  /\ UNCHANGED <<strs, blocked, disk, rest>>

\* CompileString isn't bound to remember anything
RunString(name, code, runs, set, present, fits, st, got) ==
  /\ \/ /\ runs = << >> /\ st = "ok" /\ [code |-> code, bundle |-> got] \in strs /\ UNCHANGED settings
     \/ /\ runs = IF present THEN <<[n \in {name} |-> code]>> ELSE << >>
        /\ IF present THEN set # "" /\ settings \in {"", set} /\ settings' = set ELSE UNCHANGED settings
        /\ fits /\ st \in {"ok", "err"} /\ (~present => st = "err")
  /\ strs' = IF st = "ok" THEN strs \cup {[code |-> code, bundle |-> got]} ELSE strs
  /\ UNCHANGED <<cache, blocked, disk, rest>>

\* a glob stands for the files with a first letter, or all, of a directory
Matched(dir, let) == {f \in disk : f.dir = dir /\ let \in {"*", f.let}}
Content(F) == [p \in {f.path : f \in F} |-> (CHOOSE f \in F : f.path = p).body]
RunGlob(t, dir, let, runs, set, present, fits, st, got) ==
  LET F == Matched(dir, let) IN
  IF F = {} \/ \E f \in F : f.body = "/"
  THEN st = "err" /\ runs = << >> /\ UNCHANGED vars
  ELSE Run(t, Content(F), runs, set, present, fits, st, got)

\* entries are written half-way, damaged or removed: they are found out or still good
Spoil(t, keys) ==
  /\ cache' = {IF x.tmp = t /\ x.key \in keys THEN [x EXCEPT !.sure = FALSE] ELSE x : x \in cache}
  /\ UNCHANGED <<strs, blocked, disk, rest, settings>>
\* no cache can be kept any more / again
Block(t) == /\ blocked' = blocked \cup {t} /\ cache' = Doubt(cache)
            /\ UNCHANGED <<strs, disk, rest, settings>>
Unblock(t) == /\ blocked' = blocked \ {t} /\ cache' = Doubt(cache)
              /\ UNCHANGED <<strs, disk, rest, settings>>
Write(f) == /\ disk' = {g \in disk : g.path # f.path} \cup {f}
            /\ UNCHANGED <<cache, strs, blocked, rest, settings>>
Remove(p) == /\ disk' = {g \in disk : g.path # p} /\ UNCHANGED <<cache, strs, blocked, rest, settings>>
\* other files change by the environment
Other(r) == /\ rest' = r /\ UNCHANGED <<cache, strs, blocked, disk, settings>>

-----------------------------------------------------------------------------
\* What a run of the compiler makes: out is its output, [st, ids, contracts,
\* warnings]: ids are the files by number ("" where there is none), contracts
\* those of every file, without repetition.
BodyOf(key, name) == IF name \in DOMAIN key THEN key[name] ELSE ""
Bundles(out, key, got) ==
  /\ got.files = out.ids
  /\ got.sources = [i \in 1..Len(out.ids) |-> BodyOf(key, out.ids[i])]
  /\ Len(got.contracts) = Len(out.contracts)
  /\ {got.contracts[i] : i \in 1..Len(got.contracts)} = {out.contracts[i] : i \in 1..Len(out.contracts)}
  /\ got.warnings = out.warnings
\* the result of a run that printed out
Fits(out, key, st, got) == IF out.st = "ok" THEN st = "ok" /\ Bundles(out, key, got) ELSE st = "err"
\* finding a contract by name
Find(b, name, i) == IF \E j \in 1..Len(b.contracts) : b.contracts[j].name = name
                    THEN i \in 1..Len(b.contracts) /\ b.contracts[i].name = name
                    ELSE i = 0
=============================================================================
