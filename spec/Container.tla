----------------------------- MODULE Container ------------------------------
(***************************************************************************)
(* The container grammar of a Brunsli stream.                               *)
(*                                                                         *)
(* A stream is a sequence of tokens.  A token is a record                   *)
(*   k  what it claims to be: "sig", "hdr", one of the known sections       *)
(*      int meta quant hist dc ac orig, or "tag<n>" for any other tag       *)
(*   w  wire type: "sec" (length delimited), "var" (varint), "bad"          *)
(*   b  body: "ok" the right body; "long"/"short"/"odd" the body with bytes *)
(*      added or removed and the length adjusted; "any" arbitrary bytes     *)
(*   l  length or value field: "min" shortest form, "wide" padded form,     *)
(*      "over" longer than nine bytes, "huge" beyond the end of the input   *)
(*   items  (header only) the sequence of header items [t, w, v]            *)
(* Run is the acceptance machine the decoders have to implement; Grammatical*)
(* is the declarative grammar.  TLC checks that they agree (Agree) on every *)
(* token sequence of the bounded model, and ContainerTrace compares the     *)
(* machine with what the real decoders answer for concretised sequences.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

TagOf(t) == CASE t.k = "sig" -> 1 [] t.k = "hdr" -> 2 [] t.k = "meta" -> 3 [] t.k = "int" -> 4
              [] t.k = "quant" -> 5 [] t.k = "hist" -> 6 [] t.k = "dc" -> 7 [] t.k = "ac" -> 8
              [] t.k = "orig" -> 9 [] t.k = "tag0" -> 0 [] t.k = "tag10" -> 10 [] t.k = "tag11" -> 11
              [] t.k = "tag13" -> 13 [] t.k = "tag15" -> 15 [] t.k = "tag16" -> 16 [] t.k = "tag31" -> 31
Known == 3..8

-----------------------------------------------------------------------------
(* Header: items [t |-> tag, w |-> wire, v |-> value class]                 *)
(* value classes: "good" (what the image needs), "zero", "toobig", "v1"     *)
(* (fallback version), "vodd", "v8" (undefined versions), "s16" (sampling   *)
(* factor 16), "any", "over" (unterminated value), "cross" (item body       *)
(* reaching beyond the header).                                             *)
ItemBad(met, i) ==
  \/ i.t < 1 \/ i.t > 15
  \/ i.w = "bad"
  \/ i.t \in met                                  \* items are unique
  \/ i.w = "sec" /\ i.t \in 1..4                  \* known fields are varints
  \/ i.v \in {"over", "cross"}
RECURSIVE HdrItems(_, _, _)
HdrItems(items, n, met) ==
  IF n > Len(items) THEN "ok"
  ELSE IF ItemBad(met, items[n]) THEN "bad"
  ELSE HdrItems(items, n + 1, met \cup {items[n].t})
Val(items, t) == LET S == {i \in 1..Len(items) : items[i].t = t /\ items[i].w = "var"} IN
                 IF S = {} THEN "none" ELSE items[CHOOSE i \in S : TRUE].v
(* "regular", "fallback" or "bad" *)
HdrVerdict(items) ==
  IF HdrItems(items, 1, {}) = "bad" THEN "bad"
  ELSE CASE Val(items, 3) = "v1" -> "fallback"
         [] Val(items, 3) = "good" /\ Val(items, 1) = "good" /\ Val(items, 2) = "good" /\ Val(items, 4) = "good" -> "regular"
         [] OTHER -> "bad"

-----------------------------------------------------------------------------
(* The acceptance machine: one token at a time.                             *)
Start == [stage |-> "sig", met |-> {}]
Bad == [stage |-> "bad", met |-> {}]
(* "cut" tokens are the beginning of a token, at the very end of the input  *)
DependsOk(met, tag) ==
  CASE tag \in {5, 6} -> 4 \in met
    [] tag = 7 -> {5, 6} \subseteq met
    [] tag = 8 -> 7 \in met
    [] OTHER -> TRUE
LenOk(t) == t.l \in {"min", "wide"}
Step(m, t) ==
  CASE m.stage = "bad" -> Bad
    [] m.stage = "done" -> Bad                                 \* nothing after the end
    [] m.stage = "cut" -> Bad
    [] m.stage = "sig" -> IF t.k = "sig" /\ t.b = "ok" /\ t.w = "sec" /\ t.l = "min" THEN [stage |-> "hdr", met |-> {1}] ELSE Bad
    [] m.stage = "hdr" ->
         IF t.k # "hdr" \/ t.w # "sec" \/ ~LenOk(t) \/ t.b # "ok" THEN Bad
         ELSE CASE HdrVerdict(t.items) = "regular" -> [stage |-> "body", met |-> {1, 2, 9}]
                [] HdrVerdict(t.items) = "fallback" -> [stage |-> "fallback", met |-> {1, 2}]
                [] OTHER -> Bad
    [] m.stage = "fallback" ->
         IF t.k = "orig" /\ t.w = "sec" /\ LenOk(t) THEN [stage |-> "done", met |-> m.met \cup {9}] ELSE Bad
    [] OTHER ->
         LET tag == TagOf(t) IN
         IF tag = 0 \/ tag > 15 \/ t.w = "bad" \/ tag \in m.met \/ ~LenOk(t) THEN Bad
         ELSE IF tag \notin Known THEN [m EXCEPT !.met = @ \cup {tag}]     \* skipped
         ELSE IF t.w # "sec" \/ t.b # "ok" \/ ~DependsOk(m.met, tag) THEN Bad
         ELSE [stage |-> IF tag = 8 THEN "done" ELSE "body", met |-> m.met \cup {tag}]

RECURSIVE RunFrom(_, _, _)
RunFrom(m, toks, n) == IF n > Len(toks) THEN m ELSE RunFrom(Step(m, toks[n]), toks, n + 1)
Run(toks) == RunFrom(Start, toks, 1)
Verdict(toks) == LET m == Run(toks) IN
  CASE m.stage = "done" -> "ok" [] m.stage = "bad" -> "bad" [] OTHER -> "short"

-----------------------------------------------------------------------------
(* The declarative grammar.                                                 *)
Pos(toks, k) == {i \in 1..Len(toks) : toks[i].k = k}
One(toks, k) == Cardinality(Pos(toks, k)) = 1
At(toks, k) == CHOOSE i \in Pos(toks, k) : TRUE
Grammatical(toks) ==
  /\ Len(toks) >= 3
  /\ toks[1].k = "sig" /\ toks[1].b = "ok" /\ toks[1].w = "sec" /\ toks[1].l = "min"
  /\ toks[2].k = "hdr" /\ toks[2].w = "sec" /\ toks[2].b = "ok"
  /\ \A i \in 2..Len(toks) : LenOk(toks[i])
  /\ \/ /\ HdrVerdict(toks[2].items) = "fallback"
        /\ Len(toks) = 3 /\ toks[3].k = "orig" /\ toks[3].w = "sec"
     \/ /\ HdrVerdict(toks[2].items) = "regular"
        /\ \A k \in {"sig", "hdr", "int", "quant", "hist", "dc", "ac"} : One(toks, k)
        /\ Cardinality(Pos(toks, "meta")) <= 1
        /\ Pos(toks, "orig") = {}
        /\ \A k \in {"int", "quant", "hist", "dc", "ac", "meta"} : \A i \in Pos(toks, k) : toks[i].w = "sec" /\ toks[i].b = "ok"
        /\ At(toks, "ac") = Len(toks)
        /\ At(toks, "int") < At(toks, "quant") /\ At(toks, "int") < At(toks, "hist")
        /\ At(toks, "quant") < At(toks, "dc") /\ At(toks, "hist") < At(toks, "dc")
        /\ At(toks, "dc") < At(toks, "ac")
        /\ \A i \in 1..Len(toks) : toks[i].k \notin {"tag0", "tag16", "tag31"} /\ toks[i].w # "bad"
        /\ \A i, j \in 1..Len(toks) : i # j => TagOf(toks[i]) # TagOf(toks[j])
=============================================================================
