------------------------------ MODULE ToolsGen ------------------------------
(* Enumerates tool runs and short histories of them.  A run is               *)
(* [t, args, f]: tool, arguments (names in the directory), injected fault.   *)
(* Names: i0..i5 files prepared by the harness (see c18.py), and others.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Tools4 == {"cbrunsli", "dbrunsli", "cbrunsli-groups", "dbrunsli-groups"}
Ins == {"jpg", "odd", "bad", "cutjpg", "brn", "grp", "raw", "cutbrn", "dmgbrn", "longbrn", "empty", "one", "absent", "dir", "nul", "huge", "", "na me", "d/in", "nodir/in", "noperm", "link", "dangle", "-x", "prog", "tail", "nometa"}
Outs == {"DEFAULT", "fresh", "long", "SAME", "dir", "nodir/o", "d/o", "", "full", "ro", "TOOLONG", "link", "dangle", "-o"}
Faults == {"", "fopen:1:fail", "fopen:2:fail", "fseek:1:fail", "fseek:2:fail", "ftell:1:fail", "fread:1:fail", "fread:1:one", "fread:2:fail", "fread:3:one", "fclose:1:fail", "fclose:2:fail",
           "fwrite:1:fail", "fwrite:1:one", "fwrite:2:fail", "fwrite:1:half", "fwrite:2:one", "fsize:0", "fsize:1", "fsize:100", "fsize:HALF", "fsize:LAST", "fsize:ALL"}
Arg(i, o) == IF o = "DEFAULT" THEN <<i>> ELSE IF o = "SAME" THEN <<i, i>> ELSE <<i, o>>
R(t, a, f) == [t |-> t, args |-> a, f |-> f]
Singles == {<<R(t, Arg(i, o), "")>> : t \in Tools4, i \in Ins, o \in Outs}
Faulty == {<<R(t, Arg(i, o), f)>> : t \in Tools4, i \in {"jpg", "prog", "brn", "grp", "raw", "bad"}, o \in {"DEFAULT", "fresh", "long"}, f \in Faults}
Counts == {<<R(t, a, "")>> : t \in Tools4, a \in {<<>>, <<"jpg", "fresh", "long">>, <<"brn", "fresh", "">>, <<"jpg", "a", "b", "c">>, <<"", "fresh">>, <<"", "">>, <<"--help">>, <<"-h">>}}
(* encode then decode (and again), with the second run reading what the first wrote, with a fault or overwriting in between *)
O1 == {"DEFAULT", "long", "SAME", "x"}
OutOf(t, i, o) == IF o = "DEFAULT" THEN i \o (IF t \in {"cbrunsli", "cbrunsli-groups"} THEN ".brn" ELSE ".jpg") ELSE IF o = "SAME" THEN i ELSE o
Pairs == {<<R(t, Arg(i, o), f), R(u, Arg(OutOf(t, i, o), q), "")>> :
           t \in Tools4, u \in Tools4, i \in {"jpg", "prog", "tail", "brn", "grp", "raw", "odd"}, o \in O1, q \in {"DEFAULT", "SAME", "y", "jpg"}, f \in {"", "fclose:2:fail", "fsize:HALF", "fread:2:one"}}
Triples == {<<R(t, Arg(i, o), ""), R(u, Arg(OutOf(t, i, o), q), ""), R(v, Arg(OutOf(u, OutOf(t, i, o), q), o), "")>> :
           t \in {"cbrunsli", "cbrunsli-groups"}, u \in {"dbrunsli", "dbrunsli-groups"}, v \in Tools4, i \in {"jpg", "prog", "tail"}, o \in O1, q \in {"DEFAULT", "SAME", "long"}}
All == TLCEval(Singles \cup Faulty \cup Counts \cup Pairs \cup Triples)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[s |-> x] : x \in All})) /\ PrintT(Cardinality(All))
Spec == Init /\ [][Next]_done
=============================================================================
