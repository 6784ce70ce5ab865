------------------------------ MODULE Glue ------------------------------
(***************************************************************************)
(* The bindings: exported functions of the web assembly build, the Java     *)
(* native methods and the Java class around them.                           *)
(*                                                                         *)
(* Converting: whatever the route, the answer is what the C functions give   *)
(* for the same bytes (api), a failure is a failure and leaves nothing, and  *)
(* the input stays as it is.                                                 *)
(*                                                                         *)
(* Decoder instances: a call hands over n bytes at the instance's input      *)
(* place, which count as taken, and finds out_len bytes at its output place  *)
(* of Room bytes.  Codes: 0 go on, 1 done, 2 failed.  It is the decoder's    *)
(* contract (Stream!CallOk) with all input taken and the two reasons to go   *)
(* on told as one.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Room
St == INSTANCE Stream WITH MaxN <- 0, MaxL <- 0, MaxRoom <- 0, run <- 0, s <- 0, given <- 0, last <- 0
GHas(f, x) == x \in DOMAIN f

(* ---- converting: q = <<direction, content>>                               *)
ConvOk(api, q, e) ==
  /\ e.kept
  /\ LET a == api[q] IN
     CASE e.how \in {"", "bytes", "direct", "slice", "ro"} -> IF a.ok THEN e.res = "ok" /\ e.out = a.out ELSE e.res = "fail"
       [] e.how \in {"noaddr", "nocap"} -> e.res = "fail"            \* the buffer is not a direct one
       [] e.how = "nomem" -> e.res = "fail"                          \* no array could be made
       [] e.how = "heap" -> e.res = "IllegalArgumentException"
       [] e.how = "null" -> e.res = "NullPointerException"
       [] OTHER -> FALSE

(* ---- instances                                                            *)
Codes(c) == CASE c = 0 -> {St!NEEDIN, St!NEEDOUT} [] c = 1 -> {St!DONE} [] c = 2 -> {St!ERROR} [] OTHER -> {}
Ans(n, made, st) == [ain |-> n, aout |-> Room, used |-> n, made |-> made, st |-> st]
(* r, s as in Stream; e: [n, made, code, next]: next says that the bytes made are the next ones of the result *)
ProcOk(r, s, e) ==
  /\ e.made \in 0..Room
  /\ r.good => e.next
  /\ \E st \in Codes(e.code) : St!CallOk(r, s, Ans(e.n, e.made, st))
(* all codes but one stand for one status *)
ProcUpd(s, e) == St!After(s, Ans(e.n, e.made, CHOOSE st \in Codes(e.code) : TRUE))
=============================================================================
