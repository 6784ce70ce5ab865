------------------------------ MODULE MetaTrace -----------------------------
(* What the real code made of metadata sections (kind "probe"), and which    *)
(* sections the real encoder made of files (kind "file").                    *)
EXTENDS Metadata, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 1
Verdict(k) == IF k.intact THEN Parse(k.raw) ELSE Bad
Said(k) == IF k.st = 0 THEN [ok |-> TRUE, app |-> k.app, com |-> k.com, tail |-> k.tail] ELSE Bad
ProbeOk(k) ==
  /\ ~k.crash
  /\ Verdict(k) = Said(k)
  /\ IF k.st = 0 THEN k.rc = 1 /\ \A i \in 1..Len(k.ss) : k.ss[i][1] = "DONE" /\ k.ss[i][2] = k.out
     ELSE k.rc = 0 /\ \A i \in 1..Len(k.ss) : k.ss[i][1] # "DONE"
FileOk(k) ==
  /\ ~k.crash
  /\ k.ok = (k.shorts <= ShortLimit /\ Len(k.app) - k.shorts <= MultiLimit /\ Len(k.com) <= MultiLimit)
  /\ k.ok => /\ k.intact /\ Parse(k.raw) = [ok |-> TRUE, app |-> k.app, com |-> k.com, tail |-> k.tail]
             /\ k.same /\ \A i \in 1..Len(k.ss) : k.ss[i][1] = "DONE" /\ k.ss[i][3]
Finish == l = 1 /\ (IF Case.kind = "probe" THEN ProbeOk(Case) ELSE FileOk([Case EXCEPT !.shorts = Cardinality({i \in 1..Len(Case.app) : ToRaw(Case.app[i]) # Case.app[i]})])) /\ l' = 2 /\ c' = c
Next == Finish \/ (l = 2 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
