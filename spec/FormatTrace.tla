----------------------------- MODULE FormatTrace ----------------------------
(* Each case: a stream, what the real decoder made of it, and (for streams   *)
(* just made) what the real reader made of the file.  The specification      *)
(* reads the stream itself, a block at a time.                               *)
EXTENDS Brunsli, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, s
vars == <<c, l, s>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = [ok |-> TRUE, raw |-> FALSE, walk |-> <<>>]
N == Len(s.walk)
(* step l: 1 the side information, 2..N+1 the DC blocks, N+2 the orders,      *)
(* N+3..2N+2 the AC blocks, 2N+3 the comparison                              *)
Advance ==
  CASE l = 1 -> Begin(Case.d, Case.meta)
    [] l \in 2..(N + 1) -> DcStep(s, l - 1)
    [] l = N + 2 -> Turn(s)
    [] OTHER -> AcStep(s, l - N - 2)
Right ==                              \* the real decoder agrees
  IF s.raw THEN Case.st = 0 /\ Case.raw /\ Case.file = s.file
  ELSE IF ~Ends(s.acb, s.e) THEN Case.st # 0
  ELSE /\ Case.st = 0 /\ ~Case.raw /\ Case.img = Image(s) /\ Case.ver = s.hd.ver
       /\ (Case.orig => Case.same)
Read == l >= 1 /\ s.ok /\ ~s.raw /\ (IF l = 1 THEN TRUE ELSE l <= 2 * N + 2) /\ s' = TLCEval(Advance) /\ l' = l + 1 /\ c' = c
Judge == /\ l > 1 /\ (IF ~s.ok \/ s.raw THEN TRUE ELSE l = 2 * N + 3)
         /\ (IF s.ok THEN Right ELSE Case.st # 0 /\ ~Case.orig) = TRUE
         /\ l' = 0 /\ c' = c /\ s' = [ok |-> FALSE, raw |-> FALSE, walk |-> <<>>]
Done == l = 0 /\ UNCHANGED vars
Next == Read \/ Judge \/ Done
Spec == Init /\ [][Next]_vars
View == <<c, l>>
Brief == [c |-> c, l |-> l]
=============================================================================
