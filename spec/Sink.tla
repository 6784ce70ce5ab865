-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* Output callbacks.  A one-shot function has a result of L bytes and hands *)
(* it to a callback in pieces; the callback answers how many bytes it took. *)
(* The function succeeds iff every piece was taken whole, all pieces        *)
(* together are the result, and it never calls again after any other        *)
(* answer.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
(* s: [given |-> bytes handed over, refused |-> a call was not fully taken] *)
Start == [given |-> 0, refused |-> FALSE]
CallOk(L, s, n) == ~s.refused /\ n >= 0 /\ s.given + n <= L
After(s, n, r) == [given |-> s.given + n, refused |-> r # n]
ReturnOk(L, s, rc) == rc \in {0, 1} /\ (rc = 1 <=> (~s.refused /\ s.given = L))

(* Bounded model: any splitting of the result, any callback.                *)
CONSTANTS MaxL, MaxAns
VARIABLES L, s, ncalls, rc, taken
vars == <<L, s, ncalls, rc, taken>>
Init == L \in 0..MaxL /\ s = Start /\ ncalls = 0 /\ rc = -1 /\ taken = <<>>
Call == /\ rc = -1 /\ ncalls <= MaxL + 1
        /\ \E n \in 0..MaxL, r \in 0..MaxAns :
             /\ CallOk(L, s, n) /\ (n > 0 \/ ncalls < 2)
             /\ s' = After(s, n, r) /\ ncalls' = ncalls + 1
             /\ taken' = IF r = n THEN taken \o [i \in 1..n |-> s.given + i] ELSE taken
        /\ UNCHANGED <<L, rc>>
Return == /\ rc = -1 /\ (s.refused \/ s.given = L)
          /\ rc' \in {0, 1} /\ ReturnOk(L, s, rc')
          /\ UNCHANGED <<L, s, ncalls, taken>>
Next == Call \/ Return \/ (rc # -1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* success means: the callback took every byte of the result once, in order *)
SuccessIsWhole == rc = 1 => taken = [i \in 1..L |-> i]
FailureIsRefusal == rc = 0 => s.refused
Silent == [][s.refused => s' = s]_vars
=============================================================================
