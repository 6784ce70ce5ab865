------------------------------- MODULE JpegGen ------------------------------
(* Enumerates files as sequences of named segments: all single edits of      *)
(* three base files over an alphabet of good and bad segments, all orders of *)
(* the essential segments, and scan scripts.  The names are concretised by   *)
(* the harness; JpegReader decides what each file is.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Good == {"dqt0", "dqt1", "sof0", "sof1", "sof2", "sof2c2", "dhtd0", "dhta0", "dhtd1", "dhta1", "dri1", "dri0", "app", "com", "sos", "sosdc", "sosac", "eoi", "rst3", "junk", "ff"}
BadSof == {"sof3", "sof:prec12", "sof:w0", "sof:h0", "sof:nc0", "sof:nc5", "sof:dupid", "sof:samp0", "sof:samp03", "sof:samp32", "sof:big", "sof:long", "sof:short", "sof:tq3", "sof:s15", "sof:cut"}
BadDqt == {"dqt:idx4", "dqt:prec2", "dqt:zero", "dqt:empty", "dqt:long", "dqt:short", "dqt:four", "dqt:five", "dqt:len0", "dqt:16", "dqt:zero16"}
BadDht == {"dht:slot4", "dht:slot20", "dht:slot32", "dht:dup", "dht:over", "dht:full", "dht:almost", "dht:dc12", "dht:dc13", "dht:none", "dht:empty", "dht:long", "dht:short", "dht:256", "dht:257", "dht:two", "dht:full16", "dht:many"}
BadSos == {"sos:unknown", "sos:dup", "sos:nc0", "sos:nc5", "sos:notab", "sos:tab4", "sos:ss", "sos:se64", "sos:ss64", "sos:long", "sos:short", "sos:al11", "sos:al10", "sos:al13", "sos:ah", "sos:nodata", "sos:cut", "sos:se0", "sos:ss1"}
Other == {"dri:dup", "dri:len5", "dri:len3", "app:len0", "app:len1", "app:len2", "app:past", "com:len1", "com:past", "m:d8", "m:dc", "m:cc", "m:c8", "m:f0", "m:01", "m:df", "tail", "ffd9", "zeros"}
Scans == {"sos:r10", "sos:r21", "sos:dc10", "sos:ac1_5", "sos:ac6_63", "sos:ac1_63al2", "sos:dcal1", "sos:dc0_63", "sos:acr63", "sos:ac5_9"}
Alphabet == Good \cup BadSof \cup BadDqt \cup BadDht \cup BadSos \cup Other \cup Scans
Base1 == <<"dqt0", "sof0", "dhtd0", "dhta0", "sos", "eoi">>
Base2 == <<"app", "dqt0", "sof2", "dhtd0", "dhta0", "sosdc", "sosac", "com", "eoi">>
Base3 == <<"dri1", "dqt0", "dqt1", "sof1", "dhtd0", "dhta0", "sos", "eoi", "tail">>
Base4 == <<"dqt0", "sof2", "dhtd0", "dhta0", "sos:dcal1", "sos:ac1_63al2", "sos:r21", "sos:r10", "sos:dc10", "eoi">>
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Edits(s) == {Ins(s, i, x) : i \in 1..(Len(s) + 1), x \in Alphabet} \cup {Del(s, i) : i \in 1..Len(s)} \cup {[s EXCEPT ![i] = x] : i \in 1..Len(s), x \in Alphabet}
            \cup {Swap(s, i, j) : i \in 1..Len(s), j \in 1..Len(s)}
Orders == SetToSeqs({"dqt0", "sof0", "dhtd0", "dhta0", "sos", "eoi"})
(* every pair and triple of progressive scans *)
PS == Scans \cup {"sosdc", "sosac"}
Scripts == {<<"dqt0", "sof2", "dhtd0", "dhta0">> \o q \o <<"eoi">> : q \in {<<a, b>> : a \in PS, b \in PS} \cup {<<a, b, d>> : a \in PS, b \in PS, d \in PS}}
TwoComp == {<<"dqt0", "sof2c2", "dhtd0", "dhta0", "dhtd1", "dhta1">> \o <<a, b>> \o <<"eoi">> : a \in PS, b \in PS}
Short == {<<a>> : a \in Alphabet} \cup {<<a, "eoi">> : a \in Alphabet} \cup {<<>>} \cup {SubSeq(Base1, 1, n) : n \in 1..6}
All == TLCEval(Edits(Base1) \cup Edits(Base2) \cup Edits(Base3) \cup Edits(Base4) \cup Orders \cup Scripts \cup TwoComp \cup Short)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[s |-> x] : x \in All})) /\ PrintT(Cardinality(All))
Spec == Init /\ [][Next]_done
=============================================================================
