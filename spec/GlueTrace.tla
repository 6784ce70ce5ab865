------------------------------ MODULE GlueTrace ------------------------------
(* Recorded calls of the bindings against Glue.  Cases: {id, ev}.            *)
EXTENDS Glue, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, k
vars == <<c, l, k>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ k = [api |-> <<>>, inst |-> <<>>]
E == Cases[c].ev[l]
Q == <<E.dir, E["in"]>>
Step ==
  /\ l <= Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ CASE E.op = "api" -> (GHas(k.api, Q) => k.api[Q] = [ok |-> E.ok, out |-> E.out]) /\ k' = [k EXCEPT !.api = (Q :> [ok |-> E.ok, out |-> E.out]) @@ @]
       [] E.op = "conv" -> GHas(k.api, Q) /\ ConvOk(k.api, Q, E) /\ k' = k
       [] E.op = "init" -> E.room = Room /\ E.fields /\ E.d \notin DOMAIN k.inst
                           /\ k' = [k EXCEPT !.inst = (E.d :> [r |-> [N |-> E.N, L |-> E.L, good |-> E.good, whole |-> -1], s |-> St!Start]) @@ @]
       [] E.op = "proc" -> /\ GHas(k.inst, E.d) /\ E.fields
                           /\ LET i == k.inst[E.d]
                                  r == [i.r EXCEPT !.whole = IF E.pfx THEN i.s.pos + E.n ELSE -1]
                              IN ProcOk(r, i.s, E) /\ k' = [k EXCEPT !.inst[E.d].s = ProcUpd(i.s, E)]
       [] E.op = "free" -> GHas(k.inst, E.d) /\ k' = [k EXCEPT !.inst = [x \in DOMAIN @ \ {E.d} |-> @[x]]]
       [] E.op = "null" -> E.ok /\ k' = k          \* functions taking a result accept none
       [] E.op = "end" -> DOMAIN k.inst = {} /\ k' = k
       [] OTHER -> FALSE
Finish == l > Len(Cases[c].ev) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
