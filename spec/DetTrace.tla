------------------------------ MODULE DetTrace ------------------------------
(* One case holds every recorded call on one piece of data, from all runs.   *)
EXTENDS Determinism, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, s
vars == <<c, l, s>>
E == Cases[c].ev[l]
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = Fresh
Consume ==
  /\ l <= Len(Cases[c].ev)
  /\ \/ E.op = "r" /\ CanCall(s, <<E.key>>, E.res, E.kept) /\ s' = Call(s, <<E.key>>, E.res)
     \/ E.op = "f" /\ CanFeed(s, E.d, E.a, E.res, E.kept) /\ s' = Feed(s, E.d, E.a, E.res)
  /\ l' = l + 1 /\ c' = c
Finish == l = Len(Cases[c].ev) + 1 /\ UNCHANGED vars
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
