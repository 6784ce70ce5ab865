----------------------------- MODULE GroupsTrace ----------------------------
(* Recorded groups-mode calls against Groups.  Cases: {id, file, ev}.        *)
EXTENDS Groups, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, k
vars == <<c, l, k>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ k = EmptyG
E == Cases[c].ev[l]
Step == /\ l <= Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
        /\ \/ E.op = "read" /\ E.ok /\ k' = [k EXCEPT !.file = GPut(@, E.dig, E["in"])]
           \/ E.op = "genc" /\ GEncOk(k, <<>>, E) /\ k' = GEncUpd(k, E)
           \/ E.op = "gdec" /\ GDecOk(k, E) /\ k' = GDecUpd(k, E)
           \/ E.op \in {"load", "end", "save", "derive"} /\ k' = k
Finish == l > Len(Cases[c].ev) /\ UNCHANGED vars
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
