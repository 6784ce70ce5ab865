------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The algorithm of ParallelExecutor at the level of its critical sections,*)
(* atomic operations and condition variables (spurious wakeups included).  *)
(* TLC checks that it refines Pool and that it always finishes.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, Batches, Variant      \* workers, sizes of the batches, "good" or a broken variant (to see that the checks can fail)
VARIABLES pc, my, next, num, busy, term, mp, bi, abs
vars == <<pc, my, next, num, busy, term, mp, bi, abs>>
NW == Cardinality(W)
Init == /\ pc = [w \in W |-> "check"] /\ my = [w \in W |-> 0] /\ next = 0 /\ num = 0 /\ busy = 0 /\ term = FALSE
        /\ mp = "idle" /\ bi = 0 /\ abs = [ph |-> "idle", b |-> 0, n |-> 0, begun |-> {}, ended |-> {}]
WakeMain == IF mp = "asleep" THEN "check" ELSE IF mp = "dasleep" THEN "dcheck" ELSE mp
WakeAll(p) == [w \in W |-> IF p[w] = "asleep" THEN "check" ELSE p[w]]
(* worker: under the lock, wait for something to claim *)
Check(w) == pc[w] = "check" /\ UNCHANGED <<my, next, num, term, bi, abs>>
   /\ IF next < num THEN /\ busy' = (IF Variant = "latebusy" /\ ~term THEN busy ELSE busy + 1)
                         /\ pc' = [pc EXCEPT ![w] = IF term THEN "gone" ELSE IF Variant = "latebusy" THEN "inc" ELSE "claim"]
                         /\ mp' = IF term THEN WakeMain ELSE mp
      ELSE pc' = [pc EXCEPT ![w] = "asleep"] /\ UNCHANGED <<busy, mp>>
Inc(w) == pc[w] = "inc" /\ busy' = busy + 1 /\ pc' = [pc EXCEPT ![w] = "claim"] /\ UNCHANGED <<my, next, num, term, mp, bi, abs>>
Claim(w) == pc[w] = "claim" /\ my' = [my EXCEPT ![w] = next] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![w] = "test"] /\ UNCHANGED <<num, busy, term, mp, bi, abs>>
Test(w) == pc[w] = "test" /\ pc' = [pc EXCEPT ![w] = IF my[w] >= num THEN "leave" ELSE "begin"] /\ UNCHANGED <<my, next, num, busy, term, mp, bi, abs>>
BeginW(w) == pc[w] = "begin" /\ pc' = [pc EXCEPT ![w] = "end"] /\ abs' = [abs EXCEPT !.begun = @ \cup {my[w]}] /\ UNCHANGED <<my, next, num, busy, term, mp, bi>>
EndW(w) == pc[w] = "end" /\ pc' = [pc EXCEPT ![w] = "claim"] /\ abs' = [abs EXCEPT !.ended = @ \cup {my[w]}] /\ UNCHANGED <<my, next, num, busy, term, mp, bi>>
Leave(w) == pc[w] = "leave" /\ pc' = [pc EXCEPT ![w] = "check"] /\ busy' = busy - 1 /\ mp' = WakeMain /\ UNCHANGED <<my, next, num, term, bi, abs>>
Spurious(w) == pc[w] = "asleep" /\ pc' = [pc EXCEPT ![w] = "check"] /\ UNCHANGED <<my, next, num, busy, term, mp, bi, abs>>
Worker(w) == Check(w) \/ Inc(w) \/ Claim(w) \/ Test(w) \/ BeginW(w) \/ EndW(w) \/ Leave(w)
(* the caller *)
Exec == /\ mp = "idle" /\ bi < Len(Batches) /\ bi' = bi + 1 /\ next' = 0 /\ num' = Batches[bi + 1] /\ mp' = "check"
        /\ pc' = WakeAll(pc) /\ abs' = [ph |-> "batch", b |-> abs.b + 1, n |-> Batches[bi + 1], begun |-> {}, ended |-> {}] /\ UNCHANGED <<my, busy, term>>
MainCheck == /\ mp = "check" /\ UNCHANGED <<pc, my, next, num, busy, term, bi>>
             /\ IF next >= num /\ (Variant = "nobusy" \/ busy = 0) THEN mp' = "idle" /\ abs' = [abs EXCEPT !.ph = "idle"] ELSE mp' = "asleep" /\ abs' = abs
CloseM == /\ mp = "idle" /\ bi = Len(Batches) /\ mp' = "close2" /\ abs' = [abs EXCEPT !.ph = "closing"] /\ UNCHANGED <<pc, my, next, num, busy, term, bi>>
Dtor == /\ mp = "close2" /\ term' = TRUE /\ next' = 0 /\ num' = (IF Variant = "oldclose" THEN 0 ELSE 1) /\ mp' = "dcheck" /\ pc' = WakeAll(pc) /\ UNCHANGED <<my, busy, bi, abs>>
DtorCheck == /\ mp = "dcheck" /\ UNCHANGED <<pc, my, next, num, busy, term, bi>>
             /\ IF busy = NW THEN mp' = "gone" /\ abs' = [abs EXCEPT !.ph = "gone"] ELSE mp' = "dasleep" /\ abs' = abs
Main == Exec \/ MainCheck \/ CloseM \/ Dtor \/ DtorCheck
SpuriousMain == mp \in {"asleep", "dasleep"} /\ mp' = WakeMain /\ UNCHANGED <<pc, my, next, num, busy, term, bi, abs>>
Next == Main \/ SpuriousMain \/ (\E w \in W : Worker(w) \/ Spurious(w)) \/ (mp = "gone" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A w \in W : WF_vars(Worker(w))
P == INSTANCE Pool WITH ph <- abs.ph, b <- abs.b, n <- abs.n, begun <- abs.begun, ended <- abs.ended
(* Pool's actions are deterministic given the step, so the refinement is an  *)
(* invariant over steps; the begin of a task that was begun already shows as *)
(* a stuttering step, which OnceOnly rules out.                              *)
Refines == [][\/ abs' = abs
              \/ P!Start(Batches[bi'])
              \/ \E i \in 0..9 : P!Begin(i) \/ P!End(i)
              \/ P!Return \/ P!Close \/ P!Gone]_vars
OnceOnly == \A w \in W : (pc[w] = "begin" => my[w] \notin abs.begun /\ abs.ph = "batch" /\ my[w] < abs.n) /\ (pc[w] = "end" => my[w] \in abs.begun \ abs.ended /\ abs.ph = "batch")
Finishes == <>(mp = "gone")
=============================================================================
