------------------------------ MODULE GlueMC ------------------------------
(* A client which does as the comment on the exported functions says, with a *)
(* decoder that does what its contract allows: it gets the whole result.     *)
(* Eager: the decoder takes all input it is offered whatever the room; a     *)
(* decoder that leaves some (Eager = FALSE) loses data behind this interface.*)
EXTENDS Glue
CONSTANTS N, L, Eager
VARIABLES s, given, code, real, idle
vars == <<s, given, code, real, idle>>
R == [N |-> N, L |-> L, good |-> TRUE, whole |-> -1]
(* s: the decoder's own view; given: bytes the client has handed over; real: what the decoder was really given *)
Init == s = St!Start /\ given = 0 /\ code = 0 /\ real = 0 /\ idle = 0
Call(n) ==
  \E made \in 0..Room, used \in 0..n, st \in {St!NEEDIN, St!NEEDOUT, St!ERROR, St!DONE} :
    /\ Eager => used = n
    /\ LET a == [ain |-> n, aout |-> Room, used |-> used, made |-> made, st |-> st] IN
       /\ St!CallOk(R, s, a)
       /\ s' = St!After(s, a)
       /\ code' = CASE st \in {St!NEEDIN, St!NEEDOUT} -> 0 [] st = St!DONE -> 1 [] OTHER -> 2
       /\ given' = given + n /\ real' = real + used
       /\ idle' = IF n = 0 /\ made = 0 /\ code' = 0 THEN 1 ELSE 0
Next == \/ code = 0 /\ (given < N \/ idle = 0) /\ \E n \in 0..(N - given) : Call(n)
        \/ (code # 0 \/ (given = N /\ idle = 1)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(code = 0 /\ given < N /\ Call(1)) /\ WF_vars(code = 0 /\ given = N /\ idle = 0 /\ Call(0))
(* nothing is lost between the client and the decoder *)
Taken == real = given
Whole == code = 1 => s.out = L
Gets == <>(code = 1)
=============================================================================
