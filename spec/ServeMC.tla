---------------------------- MODULE ServeMC ----------------------------
(* Why both answers carry the mark: an origin which serves by what clients    *)
(* say, a shared cache in front, clients which take Brunsli and clients which *)
(* do not.  Marks: on which answers about a file with a compressed version     *)
(* the origin puts the mark.                                                 *)
EXTENDS Serve
CONSTANTS Mode, MarkServed, MarkOther
Clients == {<<[t |-> "brn", p |-> ""]>>, <<[t |-> "other", p |-> ""]>>, <<>>}
VARIABLES has, cache, got       \* cache: answers kept, [what, mark, acc]
vars == <<has, cache, got>>
Init == has \in BOOLEAN /\ cache = {} /\ got = [acc |-> <<>>, what |-> "", was |-> has]
Origin(a) ==
  LET brn == has /\ Mode # "off" /\ (Mode = "always" \/ Says(a) = "yes") IN
  [what |-> IF brn THEN "brn" ELSE "jpg", mark |-> has /\ Mode = "on" /\ (IF brn THEN MarkServed ELSE MarkOther), acc |-> a]
Usable(a) == {x \in cache : x.mark => x.acc = a}
Ask(a) ==
  /\ IF Usable(a) # {} THEN \E x \in Usable(a) : got' = [acc |-> a, what |-> x.what, was |-> has] /\ cache' = cache
     ELSE got' = [acc |-> a, what |-> Origin(a).what, was |-> has] /\ cache' = cache \cup {Origin(a)}
  /\ has' = has
Forget == cache # {} /\ \E x \in cache : cache' = cache \ {x} /\ UNCHANGED <<has, got>>
Next == Forget \/ \E a \in Clients : Ask(a)
Spec == Init /\ [][Next]_vars
(* nobody who did not say so gets Brunsli, whatever lies in between *)
Safe == (got.what = "brn" /\ Mode # "always") => Says(got.acc) = "yes"
(* and who says so gets it *)
Useful == (got.what # "" /\ got.was /\ Mode = "on" /\ Says(got.acc) = "yes") => got.what = "brn"
=============================================================================
