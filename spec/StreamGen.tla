----------------------------- MODULE StreamGen ------------------------------
(* The schedules the conformance run replays: every client behaviour of     *)
(* StreamGen with Depth free choices followed by a repeated progressing     *)
(* pair.  Input classes are positions relative to the stream's sections.    *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
(* m: a piece of one arbitrary size; M: pieces of arbitrary, changing sizes  *)
In == {"0", "1", "5", "s", "t", "h", "i", "a", "m"}
Out == {"0", "1", "37", "a"}
Tails == {<<"1", "1">>, <<"1", "a">>, <<"a", "1">>, <<"s", "a">>, <<"t", "3">>, <<"h", "100">>, <<"i", "2">>, <<"7", "5">>, <<"a", "a">>, <<"64", "0">>, <<"m", "a">>, <<"m", "50">>, <<"M", "a">>, <<"M", "M">>, <<"M", "1">>}
Step == {<<i, o>> : i \in In, o \in Out}
Scheds == {<<t>> : t \in Tails} \cup {<<a, t>> : a \in Step, t \in Tails} \cup {<<a, b, t>> : a \in Step, b \in Step, t \in Tails}
(* room 0 for ever makes no progress: such clients alternate instead *)
Fix(sq) == IF sq[Len(sq)][2] = "0" THEN Append(sq, <<"a", "50">>) ELSE sq
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({Fix(x) : x \in Scheds}))
=============================================================================
