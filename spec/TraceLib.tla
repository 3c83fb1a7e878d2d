------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* What every trace specification shares: the recorded events of the real  *)
(* code (one JSON object per line of the file named by the environment     *)
(* variable TRACE) and the acceptance report.  Histories follow one        *)
(* another in a file; an event with op "reset" starts a new one.           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

\* The trace is accepted iff every event was consumed.  For specifications
\* that take exactly one step per event the number consumed is the depth of
\* the state graph.
Report == PrintT(<<"TRACE_RESULT", TLCGet("stats").diameter - 1, Len(Events)>>)

\* For specifications with silent steps: the highest position reached is
\* kept in TLC register 1 by using Track(l) as a CONSTRAINT (one worker).
Track(l) == IF TLCGetOrDefault(1, 0) < l THEN TLCSet(1, l) ELSE TRUE
ReportTracked == TLCGet("stats").diameter > 0 => PrintT(<<"TRACE_RESULT", TLCGetOrDefault(1, 0) - 1, Len(Events)>>)
=============================================================================
