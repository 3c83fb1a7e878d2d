------------------------------ MODULE RlpTrace ------------------------------
EXTENDS Rlp, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> tx' = Blank
    [] Ev.op = "fill" -> Fill(Ev.f, Ev.b)
    [] Ev.op = "hash" -> Hashed(Ev.pre, Ev.digest, Ev.hash)
    [] Ev.op = "sign" -> SignedBy(Ev.pre, Ev.digest, Ev.hash, Ev.ok, Ev.r, Ev.s, Ev.v, Ev.st, Ev.out)
    [] Ev.op = "encode" -> Encoded(Ev.r, Ev.s, Ev.v, Ev.out)
    [] Ev.op = "look" -> Look(Ev.t)
    [] OTHER -> FALSE
TInit == tx = Blank /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<tx, l>>
=============================================================================
