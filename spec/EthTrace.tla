------------------------------ MODULE EthTrace ------------------------------
EXTENDS Eth, TraceLib
VARIABLE l
Ev == Events[l]
NoBody == "0x0000000000000000000000000000000000000000"
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* how a key was to be chosen; the text of the pattern is what the specification says it is
K == [paths |-> SetOf(Ev.paths), pat |-> Ev.pat, bad |-> Ev.bad, typed |-> Ev.typed]
Spec_ == Ev.bad \/ Ev.spec = PatText(Ev.pat)
E == [to |-> Ev.to, sig |-> Ev.sig, sel |-> Ev.sel, args |-> Ev.args, force |-> Ev.force, n |-> Ev.n, g |-> Ev.g,
      nonce |-> Ev.nonce, node |-> Ev.node]
R == [to |-> Ev.to, sig |-> Ev.sig, sel |-> Ev.sel, words |-> Ev.words, force |-> Ev.force, ret |-> Ev.ret, node |-> Ev.node]
S == [input |-> Ev.input, hashed |-> Ev.hashed, exact |-> Ev.exact, prefix |-> Ev.prefix, both |-> Ev.both]
Step ==
  CASE Ev.op = "reset" -> dirs' = {} /\ files' = [x \in {} |-> 0] /\ code' = [x \in {} |-> 0]
    [] Ev.op = "put" -> Put(Ev.d, Ev.name, Ev.f)
    [] Ev.op = "remove" -> Delete(Ev.d, Ev.name)
    [] Ev.op = "mkdir" -> MakeDir(Ev.d)
    [] Ev.op = "rmdir" -> RemoveDir(Ev.d)
    [] Ev.op = "deploy" -> Deploy(Ev.addr, [kind |-> Ev.kind, sels |-> {Ev.entries[i].sel : i \in 1..Len(Ev.entries)}, raw |-> Ev.raw, entries |-> Ev.entries])
    [] Ev.op = "call" -> Spec_ /\ Call(K, E, Ev)
    [] Ev.op = "sign" -> Spec_ /\ Sign(K, S, Ev)
    [] Ev.op = "list" -> List(SetOf(Ev.paths), Ev)
    [] Ev.op = "keygen" -> Generate(Ev.name, Ev.typed, Ev.f, Ev)
    [] Ev.op = "read" -> Read(R, Ev)
    [] Ev.op = "post" -> Post(Ev.parts, Ev.takes, Ev.raw, Ev.hashes, Ev)
    [] Ev.op = "code" -> CodeOf(Ev.to, Ev)
    [] Ev.op = "jumptab" -> Table(Ev.to, Ev)
    [] Ev.op = "recover" -> Recover(Ev.ref, Ev)
    [] OTHER -> FALSE
TInit == dirs = {} /\ files = [x \in {} |-> 0] /\ code = [x \in {} |-> 0] /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
