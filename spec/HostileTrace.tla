--------------------------- MODULE HostileTrace ---------------------------
(* Recorded histories of calls on untrusted bytes against Hostile. *)
EXTENDS Hostile, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, s
vars == <<c, l, s>>
Ev == Cases[c].ev
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = Idle
Consume ==
  /\ l <= Len(Ev)
  /\ \/ Ev[l].op = "call" /\ CanCall(s, Ev[l]) /\ s' = Call(s, Ev[l])
     \/ Ev[l].op = "ret" /\ CanReturn(s, Ev[l]) /\ s' = Return(s)
     \/ Ev[l].op = "end" /\ ~s.busy /\ s' = s
  /\ l' = l + 1 /\ c' = c
Finish == l = Len(Ev) + 1 /\ Len(Ev) > 0 /\ Ev[Len(Ev)].op = "end" /\ UNCHANGED vars
Spec == Init /\ [][Consume \/ Finish]_vars
=============================================================================
