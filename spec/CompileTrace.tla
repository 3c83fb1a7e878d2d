---------------------------- MODULE CompileTrace ----------------------------
EXTENDS Compile, TraceLib
VARIABLE l
Ev == Events[l]
Runs == [i \in 1..Len(Ev.runs) |-> KeyOf(Ev.runs[i])]
Key == KeyOf(Ev.srcs)
Clear == cache' = {} /\ strs' = {} /\ blocked' = {} /\ disk' = {}
Untouched == rest = Ev.rest
Step ==
  CASE Ev.op = "reset" -> Clear /\ rest' = Ev.rest /\ UNCHANGED settings
    [] Ev.op = "compile" -> Untouched /\ Run(Ev.tmp, Key, Runs, Ev.set, Ev.present, Fits(Ev.out, Key, Ev.st, Ev.got), Ev.st, Ev.got)
    [] Ev.op = "string" -> Untouched /\ RunString("<stdin>", Ev.code, Runs, Ev.set, Ev.present,
                              Fits(Ev.out, [x \in {"<stdin>"} |-> Ev.code], Ev.st, Ev.got), Ev.st, Ev.got)
    [] Ev.op = "glob" -> Untouched /\ RunGlob(Ev.tmp, Ev.dir, Ev.let, Runs, Ev.set, Ev.present,
                              Fits(Ev.out, Content(Matched(Ev.dir, Ev.let)), Ev.st, Ev.got), Ev.st, Ev.got)
    [] Ev.op = "spoil" -> Spoil(Ev.tmp, {KeyOf(Ev.keys[i]) : i \in 1..Len(Ev.keys)})
    [] Ev.op = "block" -> Block(Ev.tmp)
    [] Ev.op = "unblock" -> Unblock(Ev.tmp)
    [] Ev.op = "write" -> Write(Ev.file)
    [] Ev.op = "unlink" -> Remove(Ev.path)
    [] Ev.op = "other" -> Other(Ev.rest)
    [] Ev.op = "find" -> Find(Ev.got, Ev.name, Ev.i) /\ UNCHANGED vars
    [] OTHER -> FALSE
TInit == cache = {} /\ strs = {} /\ blocked = {} /\ disk = {} /\ rest = "" /\ settings = "" /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
