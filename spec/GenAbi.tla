------------------------------- MODULE GenAbi -------------------------------
(* argument lists by the classes of their values, for the harness *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Emit
VARIABLES args, end
Classes(t) ==
  CASE t = "int" -> {"zero", "one", "byte", "top", "max", "over", "neg1", "min", "under", "rnd"}
    [] t = "addr" -> {"zero", "lead", "rnd"}
    [] t = "data" -> {"0", "1", "31", "32", "33", "lead"}
    [] t = "bytes" -> {"0", "1", "31", "32", "33", "64", "100"}
    [] OTHER -> {"0", "1", "2", "5"}
ETypes == {"int", "addr", "data", "bytes", "ints", "addrs", "datas"}
Init == args = << >> /\ end = FALSE
Add == ~end /\ Len(args) < N /\ \E t \in ETypes : \E c \in Classes(t) : args' = Append(args, [t |-> t, c |-> c]) /\ UNCHANGED end
End == /\ ~end /\ end' = TRUE /\ UNCHANGED args
       /\ IF Emit THEN PrintT(<<"SCRIPT", ToJson(args)>>) ELSE TRUE
Next == Add \/ End
Spec == Init /\ [][Next]_<<args, end>>
=============================================================================
