---------------------------- MODULE ServeTrace ----------------------------
(* Requests and reads recorded from the integrations against Serve. *)
EXTENDS Serve, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l
vars == <<c, l>>
Init == c \in 1..Len(Cases) /\ l = 1
E == Cases[c].ev[l]
Step == /\ l <= Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
        /\ (CASE E.op = "apache" -> ApacheOk(E.q, E.e)
              [] E.op = "nginx" -> NginxOk(E.q, E.e)
              [] E.op = "load" -> LoadOk(E.q, E.e)
              [] E.op = "import" -> E.res = (IF E.converter THEN "ok" ELSE "exit")
              [] OTHER -> FALSE) = TRUE
Finish == l > Len(Cases[c].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
