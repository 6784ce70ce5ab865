---------------------------- MODULE ContainerGen ----------------------------
(* Enumerates token sequences: all single edits of the canonical stream, all *)
(* orders of its sections, header item sequences, fallback streams and all   *)
(* short sequences; checks machine = grammar on all of them and writes them  *)
(* out for replay.                                                           *)
EXTENDS Container, SequencesExt, Json, IOUtils
I(t, w, v) == [t |-> t, w |-> w, v |-> v]
BaseItems == <<I(1, "var", "good"), I(2, "var", "good"), I(3, "var", "good"), I(4, "var", "good")>>
T(k, w, b, l) == [k |-> k, w |-> w, b |-> b, l |-> l, items |-> <<>>]
H(items) == [k |-> "hdr", w |-> "sec", b |-> "ok", l |-> "min", items |-> items]
Sec(k) == T(k, "sec", "ok", "min")
Hdr == H(BaseItems)
FbHdr == H(<<I(3, "var", "v1")>>)
Names == {"int", "meta", "quant", "hist", "dc", "ac"}
Base == <<Sec("sig"), Hdr, Sec("int"), Sec("meta"), Sec("quant"), Sec("hist"), Sec("dc"), Sec("ac")>>
Unknown == {"tag10", "tag11", "tag13", "tag15"}
Alphabet ==
  {T(k, "sec", "ok", l) : k \in Names, l \in {"min", "wide", "over", "huge"}}
  \cup {T(k, "sec", b, "min") : k \in Names, b \in {"long", "short", "any"}}
  \cup {T(k, "sec", "odd", "min") : k \in {"dc", "ac"}}
  \cup {T(k, w, "ok", "min") : k \in Names \cup {"orig", "hdr", "sig"}, w \in {"var", "bad"}}
  \cup {T(k, w, "any", l) : k \in Unknown, w \in {"sec", "var"}, l \in {"min", "wide", "over"}}
  \cup {T(k, "sec", "any", "huge") : k \in {"tag10"}}
  \cup {T(k, w, "any", "min") : k \in {"tag0", "tag16", "tag31"}, w \in {"sec", "var"}}
  \cup {T(k, "bad", "any", "min") : k \in Unknown}
  \cup {Sec("sig"), Hdr, Sec("orig"), T("sig", "sec", "any", "min"), T("orig", "sec", "ok", "wide"), T("orig", "sec", "ok", "over")}
InsertAt2(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Edits(s) == {InsertAt2(s, i, x) : i \in 1..(Len(s) + 1), x \in Alphabet}
            \cup {Del(s, i) : i \in 1..Len(s)}
            \cup {[s EXCEPT ![i] = x] : i \in 1..Len(s), x \in Alphabet}
            \cup {Swap(s, i, j) : i \in 1..Len(s), j \in 1..Len(s)}
Orders == {<<Sec("sig"), Hdr>> \o s : s \in SetToSeqs({Sec(k) : k \in Names})}
(* a legal order with unknown tokens around *)
Legal == {s \in Orders : Verdict(s) = "ok"}
Mixed == {InsertAt2(s, i, T(k, w, "any", "min")) : s \in Legal, i \in 3..9, k \in {"tag10", "tag15"}, w \in {"sec", "var"}}
Twice == {InsertAt2(InsertAt2(Base, i, T("tag10", w, "any", "min")), j, T(k, "sec", "any", "min")) : i \in 3..8, j \in 3..8, k \in {"tag10", "tag11"}, w \in {"sec", "var"}}
Pairs == {Del(Del(Base, i), j) : i \in 2..8, j \in 1..7} \cup {Swap(Del(Base, i), j, k) : i \in 2..8, j \in 2..7, k \in 2..7}
(* headers *)
ItemAlpha == {I(t, "var", v) : t \in {1, 2}, v \in {"good", "zero", "toobig", "over"}}
             \cup {I(3, "var", v) : v \in {"good", "v1", "vodd", "v8", "over"}} \cup {I(4, "var", v) : v \in {"good", "s16", "over"}}
             \cup {I(t, w, "any") : t \in {5, 9, 15}, w \in {"var", "sec"}} \cup {I(5, "sec", "cross"), I(7, "sec", "over")}
             \cup {I(t, "sec", "any") : t \in 1..4} \cup {I(t, w, "any") : t \in {0, 16}, w \in {"var", "sec"}} \cup {I(t, "bad", "any") : t \in {1, 5}}
ItemEdits(s) == {InsertAt2(s, i, x) : i \in 1..(Len(s) + 1), x \in ItemAlpha} \cup {Del(s, i) : i \in 1..Len(s)}
            \cup {[s EXCEPT ![i] = x] : i \in 1..Len(s), x \in ItemAlpha}
Perms == SetToSeqs({BaseItems[i] : i \in 1..4})
Headers == Perms \cup ItemEdits(BaseItems) \cup UNION {ItemEdits(s) : s \in {Del(BaseItems, i) : i \in 1..4}}
           \cup {InsertAt2(InsertAt2(BaseItems, i, I(9, "sec", "any")), j, I(t, w, "any")) : i \in 1..5, j \in 1..6, t \in {9, 12}, w \in {"sec", "var"}}
           \cup {<<>>}
HdrSeqs == {[Base EXCEPT ![2] = H(h)] : h \in Headers}
           \cup {[Base EXCEPT ![2] = [Hdr EXCEPT !.l = x]] : x \in {"wide", "over"}}
(* fallback *)
FbBase == <<Sec("sig"), FbHdr, Sec("orig")>>
FbSeqs == Edits(FbBase) \cup {<<Sec("sig"), H(h), Sec("orig")>> : h \in ItemEdits(<<I(3, "var", "v1")>>) \cup {BaseItems} \cup ItemEdits(BaseItems)}
(* every short sequence *)
Short == {<<>>} \cup {<<a>> : a \in Alphabet} \cup {<<a, b>> : a \in {Sec("sig")}, b \in Alphabet}
         \cup {<<Sec("sig"), Hdr, b>> : b \in Alphabet} \cup {<<Sec("sig"), Hdr, Sec("int"), b>> : b \in Alphabet}
         \cup {SubSeq(Base, 1, n) : n \in 0..8}
         \cup {Append(SubSeq(Base, 1, n), x) : n \in 2..7, x \in Alphabet}
All == TLCEval(Edits(Base) \cup Orders \cup Mixed \cup Twice \cup Pairs \cup HdrSeqs \cup FbSeqs \cup Short \cup {Base, FbBase})
VARIABLES toks, out
(* phase 1: check machine = grammar for each; phase 2: write *)
Init == /\ \/ toks \in All /\ out = FALSE
           \/ toks = <<>> /\ out = TRUE
Next == out /\ toks = <<>> /\ out' = FALSE /\ toks' = <<>> /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
Agree == (Verdict(toks) = "ok") = Grammatical(toks)
(* acceptance is prefix free: no accepted stream extends another *)
PrefixFree == Verdict(toks) = "ok" => \A n \in 0..(Len(toks) - 1) : Verdict(SubSeq(toks, 1, n)) = "short"
=============================================================================
