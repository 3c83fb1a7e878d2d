----------------------------- MODULE KeccakTrace -----------------------------
EXTENDS Keccak, TraceLib
VARIABLE l
Ev == Events[l]
Step ==
  CASE Ev.op = "reset" -> hashers' = << >>
    [] Ev.op = "new" -> New(Ev.h, Ev.size)
    [] Ev.op = "write" -> Write(Ev.h, Ev.b)
    [] Ev.op = "clear" -> Reset(Ev.h)
    [] Ev.op = "sum" -> /\ SubSeq(Ev.out, 1, Len(Ev.before)) = Ev.before
                        /\ Sum(Ev.h, SubSeq(Ev.out, Len(Ev.before) + 1, Len(Ev.out)))
    [] Ev.op = "whole" -> Whole(Ev.b, Ev.size, Ev.out)
    \* the address of a public key
    [] Ev.op = "address" -> /\ Ev.out = SubSeq(Keccak256(Ev.b), 13, 32)
                            /\ UNCHANGED hashers
    [] OTHER -> FALSE
TInit == hashers = << >> /\ l = 1
TNext == l <= Len(Events) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<hashers, l>>
=============================================================================
