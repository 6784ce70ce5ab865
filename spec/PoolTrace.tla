------------------------------ MODULE PoolTrace -----------------------------
(* Histories of the real thread pool, one per schedule, against Pool.        *)
(* Cases: {id, ev: sequence of <<kind, number>>}; task i of batch k is       *)
(* numbered 100 * (k - 1) + i.                                               *)
EXTENDS Pool, Sequences, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l
vars == <<c, l, ph, b, n, begun, ended>>
E == Cases[c].ev[l]
Init == PInit /\ c \in 1..Len(Cases) /\ l = 1
Task == E[2] - 100 * (b - 1)
Step == /\ l <= Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
        /\ \/ E[1] = "start" /\ Start(E[2])
           \/ E[1] = "begin" /\ Begin(Task)
           \/ E[1] = "end" /\ End(Task)
           \/ E[1] = "return" /\ E[2] = n /\ Return
           \/ E[1] = "close" /\ Close
           \/ E[1] = "gone" /\ Gone
(* "stuck", "crash" and "livelock" are no steps of a pool *)
Finish == l > Len(Cases[c].ev) /\ ph = "gone" /\ UNCHANGED vars
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
