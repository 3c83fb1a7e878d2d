---------------------------- MODULE MCSourceMap ----------------------------
(* Every short program and every short source map of a bundle of two files. *)
EXTENDS SourceMap, TLC, Json
CONSTANTS Emit, Steps, Entries
VARIABLES code, map, stage
Absent == -9
Files == <<<<10, 11, 12, 13>>, <<20, 21>>>>
Ops == {0, 95, 96, 97, 128}
F3 == {None, 0, 1}
E3 == [s : {None, 0, 1, 3}, l : {None, 1, 4}, f : {None, 0, 1, -1, 2}]
E2 == [s : {None, 0, 1}, l : {None, 1, 4}, f : {None, 1, -1}]
MInit == srcs = Files /\ cons = << >> /\ code = << >> /\ map = << >> /\ stage = "code"
\* an instruction with its operand, which looks like an instruction that has one; at the end it may be cut
Instr(b, cut) == <<b>> \o [i \in 1..(Operand(b) - (IF cut THEN 1 ELSE 0)) |-> 96 + (i % 2)]
Add == /\ stage = "code" /\ Len(Numbers(code)) = Len(code)
       /\ \E b \in Ops, cut \in BOOLEAN :
            /\ cut => Operand(b) > 0
            /\ code' = code \o Instr(b, cut)
            /\ LET k == IF code = << >> THEN 1 ELSE Numbers(code)[Len(code)] + 1 IN
               /\ k <= Steps
               /\ stage' = IF cut \/ k = Steps THEN "map" ELSE stage
       /\ UNCHANGED <<vars, map>>
Turn == stage = "code" /\ stage' = "map" /\ UNCHANGED <<vars, code, map>>
Put == /\ stage = "map" /\ Len(map) < Entries
       /\ \E e \in IF map = << >> THEN E3 ELSE E2 :
            /\ map = << >> => e.s # None /\ e.l # None /\ e.f # None
            /\ map' = Append(map, e)
       /\ UNCHANGED <<vars, code, stage>>
Done == /\ stage = "map" /\ stage' = "done" /\ Load(Files, <<[code |-> code, map |-> map]>>) /\ UNCHANGED <<code, map>>
        /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson([code |-> code, map |-> map])>>) ELSE TRUE
MNext == Add \/ Turn \/ Put \/ Done
MSpec == MInit /\ [][MNext]_<<vars, code, map, stage>>
N == Numbers(code)
\* instructions are numbered from 1 without gaps, and an operand belongs to its instruction
Numbered == /\ Len(N) = Len(code)
            /\ code # << >> => N[1] = 1
            /\ \A i \in 1..(Len(code) - 1) : N[i + 1] \in {N[i], N[i] + 1}
            /\ \A i \in 1..Len(code) : (i = 1 \/ N[i - 1] # N[i]) =>
                 LET w == Cardinality({j \in 1..Len(code) : N[j] = N[i]}) - 1 IN
                 w <= Operand(code[i]) /\ (w < Operand(code[i]) => N[Len(N)] = N[i])
\* filling in twice is filling in once, and a longer map doesn't change what comes before
Stable == /\ Filled(Filled(map)) = Filled(map)
          /\ map # << >> => Filled(SubSeq(map, 1, Len(map) - 1)) = SubSeq(Filled(map), 1, Len(map) - 1)
\* a text is part of a file, of the length that its entry says
Within == stage = "done" => \A pc \in -1..(Len(code) + 1) :
            LET t == SourceAt(srcs, cons[1], pc) IN
            t # << >> => /\ pc \in 0..(Len(code) - 1)
                         /\ \E f \in 1..2, s \in 1..4 : s + Len(t) - 1 <= Len(Files[f]) /\ t = SubSeq(Files[f], s, s + Len(t) - 1)
                         /\ Len(t) = cons[1].pos[N[pc + 1]].l
=============================================================================
