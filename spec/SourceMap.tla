------------------------------ MODULE SourceMap ------------------------------
(***************************************************************************)
(* From a program counter of a compiled contract to the text it comes from *)
(* (compile.go: SourceOf).  A bundle is a list of source files (sequences  *)
(* of bytes) and of contracts [code, map]: the code is a sequence of bytes *)
(* and the map one entry for every instruction, in order.  An entry gives  *)
(* the first byte s, the length l and the number f of the file; a field    *)
(* that it leaves out (None) is that of the entry before.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT None
VARIABLES srcs, cons
vars == <<srcs, cons>>

\* the bytes after an opcode that belong to it
Operand(b) == IF b \in 96..127 THEN b - 95 ELSE 0

\* the number of the instruction to which each byte of the code belongs
RECURSIVE NumbersFrom(_, _, _, _)
NumbersFrom(code, i, left, k) ==       \* i: next byte; left: operand bytes still to come of instruction k
  IF i > Len(code) THEN << >>
  ELSE IF left > 0 THEN <<k>> \o NumbersFrom(code, i + 1, left - 1, k)
  ELSE <<k + 1>> \o NumbersFrom(code, i + 1, Operand(code[i]), k + 1)
Numbers(code) == NumbersFrom(code, 1, 0, 0)

\* entries with nothing left out
Fill(e, before) == [s |-> IF e.s = None THEN before.s ELSE e.s, l |-> IF e.l = None THEN before.l ELSE e.l,
                    f |-> IF e.f = None THEN before.f ELSE e.f]
RECURSIVE FilledFrom(_, _, _)
FilledFrom(map, i, before) ==
  IF i > Len(map) THEN << >> ELSE LET e == Fill(map[i], before) IN <<e>> \o FilledFrom(map, i + 1, e)
Filled(map) == FilledFrom(map, 1, [s |-> 0, l |-> 0, f |-> 0])

\* the text of an entry; no text if it isn't within a file of the bundle
Text(files, e) ==
  IF e.f < 0 \/ e.f >= Len(files) \/ e.s < 0 \/ e.l < 0 THEN << >>
  ELSE LET t == files[e.f + 1] IN
       IF e.s > Len(t) \/ e.l > Len(t) - e.s THEN << >> ELSE SubSeq(t, e.s + 1, e.s + e.l)

Prepared(c) == [code |-> c.code, map |-> c.map, at |-> Numbers(c.code), pos |-> Filled(c.map)]
SourceAt(files, p, pc) ==
  IF pc < 0 \/ pc >= Len(p.code) THEN << >>
  ELSE LET i == p.at[pc + 1] IN IF i > Len(p.pos) THEN << >> ELSE Text(files, p.pos[i])

Load(files, contracts) == srcs' = files /\ cons' = [i \in 1..Len(contracts) |-> Prepared(contracts[i])]
Look(c, pc, text) == text = SourceAt(srcs, cons[c], pc) /\ UNCHANGED vars
=============================================================================
