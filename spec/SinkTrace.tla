------------------------------ MODULE SinkTrace ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
S == INSTANCE Sink WITH MaxL <- 0, MaxAns <- 0, L <- 0, s <- 0, ncalls <- 0, rc <- 0, taken <- 0
VARIABLES c, l, s
vars == <<c, l, s>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = S!Start
Consume == /\ l <= Len(Case.calls)
           /\ S!CallOk(Case.L, s, Case.calls[l][1])
           /\ s' = S!After(s, Case.calls[l][1], Case.calls[l][2])
           /\ l' = l + 1 /\ c' = c
Finish == /\ l = Len(Case.calls) + 1
          /\ Case.pref /\ ~Case.inmod /\ ~Case.crash
          /\ S!ReturnOk(Case.L, s, Case.rc)
          /\ UNCHANGED vars
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
