------------------------------ MODULE KeysTrace ------------------------------
EXTENDS Keys, TraceLib
VARIABLE l
N256 == <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254,
          186, 174, 220, 230, 175, 72, 160, 59, 191, 210, 94, 140, 208, 54, 65, 65>>
Half256 == DivSmall(N256, 2)[1]
NoFile == [kdf |-> "", params |-> "", cipher |-> "", iv |-> "", ct |-> "", mac |-> "", addr |-> ""]
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> files' = [i \in 1..3 |-> NoFile] /\ encs' = {} /\ macs' = {} /\ known' = {} /\ sigs' = {}
    [] Ev.op = "meet" -> Meet(Ev.key, Ev.pub, Ev.addr)
    [] Ev.op = "tell" -> Tell(Ev.key, Ev.pub, Ev.addr)
    [] Ev.op = "make" -> Make(Ev.i, Ev.f, Ev.key, Ev.pass)
    [] Ev.op = "export" -> Ev.name = Ev.gotname /\ Export(Ev.i, Ev.f, Ev.key, Ev.pass, Ev.name, Ev.id, Ev.version)
    [] Ev.op = "change" -> Change(Ev.i, Ev.f)
    [] Ev.op = "open" -> Open(Ev.i, Ev.pass, Ev.st, Ev.key)
    [] Ev.op = "sign" -> Sign(Ev.key, Ev.hash, Ev.sig, Ev.ref)
    [] Ev.op = "recover" -> Recover(Ev.sig, Ev.hash, Ev.st, Ev.pub, Ev.ref)
    [] Ev.op = "compose" -> Compose(Ev.r, Ev.s, Ev.v, Ev.out)
    [] Ev.op = "parts" -> Decompose(Ev.sig, Ev.r, Ev.s, Ev.v)
    [] Ev.op = "valid" -> Judge(Ev.sig, Ev.ok)
    [] OTHER -> FALSE
TInit == files = << >> /\ encs = {} /\ macs = {} /\ known = {} /\ sigs = {} /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
