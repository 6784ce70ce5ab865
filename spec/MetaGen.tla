------------------------------- MODULE MetaGen ------------------------------
(* Enumerates unpacked metadata sections, checks that reading them whole and *)
(* in pieces agree and that writing inverts reading, and hands them out.     *)
EXTENDS Metadata, Json, IOUtils
Tok == {<<0>>, <<63>>, <<8>>, <<37>>, <<128, 1>>, <<129, 77>>, <<130, 217>>, <<128>>, <<224, 0, 2>>, <<239, 0, 4, 1, 2>>, <<224>>, <<225, 0>>, <<226, 0, 5, 9>>,
        <<227, 1, 1>>, <<254, 0, 2>>, <<254, 0, 3, 65>>, <<254>>, <<238, 0, 0>>, <<236, 0, 1>>, <<64>>, <<127>>, <<131>>, <<216>>, <<223>>, <<240>>, <<253>>, <<255>>, <<217>>, <<217, 1, 2>>}
Raws == TLCEval({<<>>} \cup Tok \cup {a \o b : a \in Tok, b \in Tok} \cup {a \o b \o d : a \in Tok, b \in Tok, d \in Tok})
(* segments around the short forms *)
Near(t) == {t} \cup {[t EXCEPT ![i] = (@ + 1) % 256] : i \in 4..Len(t)} \cup {[t EXCEPT ![i] = (@ + 255) % 256] : i \in 4..Len(t)}
           \cup {[Append(t, 0) EXCEPT ![3] = @ + 1]} \cup {[SubSeq(t, 1, Len(t) - 1) EXCEPT ![3] = @ - 1]} \cup {[t EXCEPT ![1] = k] : k \in {224, 225, 236, 238, 239}}
Segs == TLCEval({ShortForms[b] : b \in 0..63} \cup Near(T0) \cup Near(App0(63)) \cup Near(App0(41)) \cup Near(TEC) \cup Near(TEE) \cup {<<-1, k>> : k \in {0, 1, 217, 255}}
        \cup {<<224, 0, 2>>, <<254, 0, 2>>, <<226, 0, 3, 128>>, <<224, 0, 3, 0>>})
Few == {App0(5), TEE, <<-1, 1>>, <<226, 0, 3, 128>>, <<254, 0, 3, 217>>, <<254, 0, 2>>}
Apps == TLCEval({s \in Segs : s[1] # 254})
VARIABLES kind, raw, i, s
vars == <<kind, raw, i, s>>
Init == \/ kind = "raw" /\ raw \in Raws /\ i = 1 /\ s = M0
        \/ kind = "seg" /\ raw \in {<<a, b>> : a \in Apps, b \in Few} /\ i = 0 /\ s = M0
        \/ kind = "out" /\ raw = <<>> /\ i = 0 /\ s = M0
(* pieces of any size: TLC explores every way of cutting *)
Feed == kind = "raw" /\ i <= Len(raw) /\ \E j \in i..Len(raw) : i' = j + 1 /\ s' = FoldLeft(Step, s, SubSeq(raw, i, j)) /\ UNCHANGED <<kind, raw>>
Out == kind = "out" /\ i = 0 /\ i' = 1 /\ UNCHANGED <<kind, raw, s>> /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Raws)) /\ ndJsonSerialize(IOEnv.OUT2, SetToSeq(Segs))
Next == Feed \/ Out
Spec == Init /\ [][Next]_vars
PiecewiseIsWhole == (kind = "raw" /\ i > Len(raw)) => MachineResult(s) = Parse(raw)
WriteInverts == kind = "seg" =>
  LET a == SelectSeq(raw, LAMBDA x : x[1] # 254) c == SelectSeq(raw, LAMBDA x : x[1] = 254) IN
  \A t \in {<<>>, <<217>>, <<0, 217, 255>>} : Parse(Write(a, c, t)) = [ok |-> TRUE, app |-> a, com |-> c, tail |-> t]
=============================================================================
