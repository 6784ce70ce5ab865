------------------------------ MODULE ToolsTrace ----------------------------
(* Recorded histories of tool runs in one directory.  Cases: {id, conts, ev} *)
EXTENDS Tools, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l
vars == <<c, l>>
Init == c \in 1..Len(Cases) /\ l = 1
Ev == Cases[c].ev
Step == /\ l <= Len(Ev) /\ RunOk(Cases[c].conts, Ev[l])
        /\ (l > 1 => Ev[l].before = Ev[l - 1].after)     \* one history: nothing else happens in between
        /\ l' = l + 1 /\ c' = c
Finish == l > Len(Ev) /\ UNCHANGED vars
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
