---------------------------- MODULE BindgenTrace ----------------------------
EXTENDS Bindgen, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> given' = << >> /\ pkg' = NoPkg
    [] Ev.op = "given" -> Given(Ev.cs)
    [] Ev.op = "bind" -> Bind(Ev.names, Ev.code, Ev.st, Ev.wrote)
    [] Ev.op = "built" -> Built(Ev.ok)
    [] Ev.op = "methods" -> Methods(Ev.c, Ev.ms)
    [] Ev.op = "code" -> Code(Ev.c, Ev.code)
    [] Ev.op = "invoke" -> Invoke(Ev.c, Ev.m, Ev.sel, Ev.to, Ev.from, Ev.args, Ev.reqs, Ev.ans, Ev.st, Ev.vals)
    [] Ev.op = "find" -> Find(Ev.c, Ev.desc, Ev.i)
    [] Ev.op = "strip" -> Strip(Ev.code, Ev.out, Ev.hash)
    [] OTHER -> FALSE
TInit == given = << >> /\ pkg = NoPkg /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<given, pkg, l>>
=============================================================================
