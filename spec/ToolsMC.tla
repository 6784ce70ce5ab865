------------------------------- MODULE ToolsMC ------------------------------
(* The design of a tool run: read all of the input in pieces, close it,      *)
(* convert, write in pieces, close; any step can fail, writes can be         *)
(* partial, and data handed to the system may be lost when closing fails.    *)
(* Every ending satisfies RunOk, for all tools, arguments and file systems   *)
(* of a small universe; and every run ends.                                  *)
EXTENDS Tools
CONSTANT Flaw   \* "" or the name of a broken variant, which must be caught
K == 3
(* J an image, U not representable, S its stream, P a proper prefix of S, Q one of J, Z a stored stream of U, E empty, G, H: groups stream, its prefix *)
Cs == "J" :> [size |-> K, rep |-> TRUE, grep |-> TRUE, dec |-> "", gdec |-> ""] @@ "U" :> [size |-> 1, rep |-> FALSE, grep |-> FALSE, dec |-> "", gdec |-> ""]
      @@ "S" :> [size |-> K, rep |-> FALSE, grep |-> FALSE, dec |-> "J", gdec |-> ""] @@ "P" :> [size |-> 1, rep |-> FALSE, grep |-> FALSE, dec |-> "", gdec |-> ""]
      @@ "Q" :> [size |-> 1, rep |-> FALSE, grep |-> FALSE, dec |-> "", gdec |-> ""]
      @@ "Z" :> [size |-> 2, rep |-> FALSE, grep |-> FALSE, dec |-> "U", gdec |-> ""] @@ "G" :> [size |-> K, rep |-> FALSE, grep |-> FALSE, dec |-> "", gdec |-> "J"]
      @@ "E" :> [size |-> 0, rep |-> FALSE, grep |-> FALSE, dec |-> "", gdec |-> ""]
Result(t, c) == CASE t = "cbrunsli" /\ c = "J" -> "S" [] t = "cbrunsli-groups" /\ c = "J" -> "G" [] t = "dbrunsli" -> Cs[c].dec [] t = "dbrunsli-groups" -> Cs[c].gdec [] OTHER -> ""
(* what a file holds after n of the bytes of content c were written *)
Part(c, n) == IF n = Cs[c].size THEN c ELSE IF n = 0 THEN "E" ELSE IF c = "J" THEN "Q" ELSE IF c \in {"S", "G"} THEN "P" ELSE "Q"
Nodes == {"a", "a.brn", "a.jpg", "b"}
F(c) == [k |-> "file", c |-> c, r |-> TRUE, w |-> TRUE]
Dir == [k |-> "dir", c |-> "", r |-> FALSE, w |-> FALSE]
Systems == {"a" :> x @@ "b" :> y : x \in {F(c) : c \in DOMAIN Cs} \cup {Dir}, y \in {F("U"), Dir, [F("S") EXCEPT !.w = FALSE]}} \cup {"b" :> F("J")}
ArgSets == {<<>>, <<"">>, <<"a">>, <<"a", "b">>, <<"a", "a">>, <<"a", "n">>, <<"a", "">>, <<"a", "b", "a">>, <<"m">>, <<"b", "a">>}
Tools4 == {"cbrunsli", "dbrunsli", "cbrunsli-groups", "dbrunsli-groups"}
VARIABLES pc, tool, args, before, fs, got, res, put, faults, exit, msg
vars == <<pc, tool, args, before, fs, got, res, put, faults, exit, msg>>
Alias == ("" :> "") @@ ("n" :> "n")
Init == /\ pc = "args" /\ tool \in Tools4 /\ args \in ArgSets /\ before \in Systems /\ fs = before
        /\ got = 0 /\ res = "" /\ put = 0 /\ faults = 0 /\ exit = -1 /\ msg = FALSE
In == args[1]
Out == OutName(tool, args)
Fail == pc' = "end" /\ exit' = 1 /\ msg' = TRUE /\ UNCHANGED <<tool, args, before, got, res, put>>
FailQuiet == Fail /\ UNCHANGED <<fs, faults>>
Fault == Fail /\ faults' = faults + 1 /\ UNCHANGED fs
Go(p) == pc' = p /\ UNCHANGED <<tool, args, before, exit, msg>>
CheckArgs == pc = "args" /\ IF ArgsOk(args) THEN Go("open") /\ UNCHANGED <<fs, got, res, put, faults>> ELSE FailQuiet
Open == pc = "open" /\ (\/ Readable(fs, Alias, In) /\ Cs[fs[In].c].size > 0 /\ Go("read") /\ UNCHANGED <<fs, got, res, put, faults>>
                        \/ ~(Readable(fs, Alias, In) /\ Cs[fs[In].c].size > 0) /\ FailQuiet
                        \/ Fault)
Read == pc = "read" /\ (\/ got < Cs[fs[In].c].size /\ (\E n \in 1..(Cs[fs[In].c].size - got) : got' = got + n /\ Go("read") /\ UNCHANGED <<fs, res, put, faults>>)
                        \/ got = Cs[fs[In].c].size /\ Go("convert") /\ UNCHANGED <<fs, got, res, put, faults>>
                        \/ Fault)
Convert == pc = "convert" /\ LET c == Result(tool, fs[In].c) IN
           IF c = "" THEN FailQuiet ELSE res' = c /\ Go("create") /\ UNCHANGED <<fs, got, put, faults>>
Create == pc = "create" /\ (\/ Writable(fs, Alias, Out, FALSE) /\ fs' = Out :> F("E") @@ fs /\ Go("write") /\ UNCHANGED <<got, res, put, faults>>
                            \/ ~Writable(fs, Alias, Out, FALSE) /\ FailQuiet
                            \/ Fault)
Wr == pc = "write" /\ (\/ put < Cs[res].size /\ (\E n \in 1..(Cs[res].size - put) : put' = put + n /\ fs' = [fs EXCEPT ![Out] = F(Part(res, put + n))] /\ Go("write") /\ UNCHANGED <<got, res, faults>>)
                       \/ put = Cs[res].size /\ Go("close") /\ UNCHANGED <<fs, got, res, put, faults>>
                       \/ Flaw = "short" /\ put > 0 /\ Go("close") /\ UNCHANGED <<fs, got, res, put, faults>>
                       \/ Fault)
Done == pc' = "end" /\ exit' = 0 /\ UNCHANGED <<tool, args, before, got, res, put, msg>>
Close == pc = "close" /\ (\/ Done /\ UNCHANGED <<fs, faults>>
                          \/ \* the close fails and what was buffered is lost
                             \E n \in 0..put : fs' = [fs EXCEPT ![Out] = F(Part(res, n))] /\ faults' = faults + 1
                                /\ IF Flaw = "close" THEN Done ELSE pc' = "end" /\ exit' = 1 /\ msg' = TRUE /\ UNCHANGED <<tool, args, before, got, res, put>>)
End == pc = "end" /\ UNCHANGED vars
Next == CheckArgs \/ Open \/ Read \/ Convert \/ Create \/ Wr \/ Close \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Desc == [tool |-> tool, args |-> args, alias |-> Alias, sealed |-> FALSE, before |-> before, after |-> fs, faults |-> faults, crash |-> FALSE, exit |-> exit, msg |-> msg]
EndOk == pc = "end" => RunOk(Cs, Desc)
Ends == <>(pc = "end")
=============================================================================
