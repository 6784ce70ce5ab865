---------------------------- MODULE StreamTrace -----------------------------
(* Every recorded call of the real incremental decoder must be allowed by   *)
(* Stream!CallOk, and every recorded run must end as the contract says.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
St == INSTANCE Stream WITH MaxN <- 0, MaxL <- 0, MaxRoom <- 0, run <- 0, s <- 0, given <- 0, last <- 0
VARIABLES c, l, s
vars == <<c, l, s>>
Case == Cases[c]
Run == [N |-> Case.N, L |-> Case.L, good |-> Case.good,
        whole |-> IF Case.pfx THEN Case.used ELSE -1]
(* a call is logged as <<ain, aout, used, made, st, delivered bytes are the
   next bytes of the result, cursors are consistent>> *)
Ans(x) == [ain |-> x[1], aout |-> x[2], used |-> x[3], made |-> x[4], st |-> x[5]]
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = St!Start
Consume == /\ l <= Len(Case.ev)
           /\ LET x == Case.ev[l] IN
              /\ x[7] = 1
              /\ (Case.good \/ Case.prefix) => x[6] = 1
              /\ St!CallOk(Run, s, Ans(x))
              /\ s' = St!After(s, Ans(x))
           /\ l' = l + 1 /\ c' = c
(* how a completely recorded run may end *)
EndOk == /\ ~Case.gaveup
         /\ Case.whole /\ Case.good => s.fin = St!DONE /\ s.pos = Case.N
         /\ Case.good => Case.st = "DONE" /\ Case.out = Case.want
         /\ ~Case.good => (Case.st # "DONE" \/ Case.pfx)
         /\ Case.prefix => Case.st = "NEEDIN" \/ Case.st = "ERROR"
         /\ Case.again \in {"", Case.st} /\ Case.againmade = 0
Finish == l = Len(Case.ev) + 1 /\ EndOk /\ UNCHANGED vars
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
