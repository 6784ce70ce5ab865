----------------------------- MODULE CodecTrace -----------------------------
(* Is every recorded history a behaviour of Codec?  One initial state per   *)
(* recorded case; a history the specification does not allow deadlocks.     *)
EXTENDS Codec, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, kd
vars == <<c, l, kd>>
Ev == Cases[c].ev
F == Cases[c].facts
Init == c \in 1..Len(Cases) /\ l = 1 /\ kd = EmptyK
Consume == /\ l <= Len(Ev)
           /\ Allowed(kd, F, Ev[l])
           /\ kd' = After(kd, Ev[l]) /\ l' = l + 1 /\ c' = c
(* a history is complete only if its last event is the driver's "end" *)
Finish == l = Len(Ev) + 1 /\ Len(Ev) > 0 /\ Ev[Len(Ev)].op = "end" /\ UNCHANGED vars
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
(* What a stream decodes to never changes, and no byte string is both a     *)
(* valid stream and a truncation or extension of one.                       *)
OrigStable == [][c' = c => \A s \in DOMAIN kd.orig : s \in DOMAIN kd'.orig /\ kd'.orig[s] = kd.orig[s]]_vars
Unambiguous == \A a, b \in DOMAIN kd.src : kd.src[a] = kd.src[b] => a = b
=============================================================================
