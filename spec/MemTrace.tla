------------------------------- MODULE MemTrace -----------------------------
(* Recorded decoding runs: [kind, toks, crash, zero, est, pts, st]; pts are  *)
(* the turning points of the amount allocated.  kind "emitted": the stream   *)
(* came from the encoder; "coefdamage": such a stream with bytes of its      *)
(* coefficient sections replaced; "tokens": a sequence Container describes;  *)
(* "absent": no data.                                                        *)
EXTENDS Container, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, live
vars == <<c, l, live>>
C == Cases[c]
(* how far the container machine gets: the header is unreadable *)
HeaderBad(x) == LET m1 == RunFrom(Start, SubSeq(x.toks, 1, IF x.cut THEN Len(x.toks) - 1 ELSE Len(x.toks)), 1)
                    short == IF Len(x.toks) < 2 THEN SubSeq(x.toks, 1, Len(x.toks)) ELSE SubSeq(x.toks, 1, 2)
                    m2 == RunFrom(Start, short, 1)
                IN IF Len(x.toks) < 2 \/ (x.cut /\ Len(x.toks) = 2) THEN TRUE ELSE m2.stage = "bad"
EstOk(x) == /\ ~x.crash
            /\ CASE x.kind = "absent" -> x.zero
                 [] x.kind = "emitted" -> ~x.zero
                 [] x.kind = "tokens" -> (HeaderBad(x) => x.zero) /\ (~x.cut /\ Verdict(x.toks) = "ok" => ~x.zero)
                 [] OTHER -> TRUE
Init == c \in 1..Len(Cases) /\ l = 0 /\ live = 0
Start0 == l = 0 /\ EstOk(C) /\ l' = 1 /\ UNCHANGED <<c, live>>
Move == /\ l >= 1 /\ l <= Len(C.pts)
        /\ live' = C.pts[l]
        /\ (~C.zero \/ C.st = 0) => live' <= C.est
        /\ l' = l + 1 /\ c' = c
Finish == l > Len(C.pts) /\ UNCHANGED vars
Next == Start0 \/ Move \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
