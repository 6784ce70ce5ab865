------------------------------ MODULE Serve ------------------------------
(***************************************************************************)
(* The integrations: the handlers which serve a pre-compressed file next to  *)
(* the one asked for (Apache, nginx), and the patches which let Python image  *)
(* libraries open Brunsli files.                                             *)
(*                                                                         *)
(* An Accept header is a sequence of elements [t, p]: a media type and its    *)
(* parameters.  Types: brn is image/x-j; longer, shorter, pre have it as a     *)
(* part or are a part of it; upper differs in case; none is no type at all.   *)
(* Parameters: none, q1 (a weight above zero), odd, bare (";"), q0, names      *)
(* (the parameter's text holds image/x-j).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Types == {"brn", "longer", "shorter", "pre", "other", "star", "none", "upper"}
Params == {"", "q1", "odd", "bare", "q0", "names"}
(* does the client say it takes Brunsli?  A weight of zero, another case and
   parameters naming the type are left to the handler *)
Says(acc) ==
  IF \E i \in DOMAIN acc : acc[i].t = "brn" /\ acc[i].p \notin {"q0"} THEN "yes"
  ELSE IF \E i \in DOMAIN acc : acc[i].t \in {"brn", "upper"} \/ acc[i].p = "names" THEN "open"
  ELSE "no"
Files == {"reg", "empty", "link", "dir", "absent", "dangling", "fifo"}
Plain(f) == f \in {"reg", "empty", "link"}
Nothing(f) == f \in {"dir", "absent", "dangling"}

(* ---- Apache: q = [acc, tr, file]; translation of the name fails (1, 3), gives no name (2) *)
ApacheServed(e) == e.rc = 0 /\ e.name = "j" /\ e.type = "image/x-j"
ApacheDeclined(e) == e.rc = -1 /\ e.name # "j" /\ e.type = ""
ApacheOk(q, e) ==
  /\ e.kept                                   \* others still see the header
  /\ LET a == Says(q.acc) IN
     IF a = "no" \/ q.tr # 0 \/ Nothing(q.file) THEN ApacheDeclined(e)
     ELSE IF a = "yes" /\ Plain(q.file) THEN ApacheServed(e)
     ELSE ApacheDeclined(e) \/ ApacheServed(e)

(* ---- nginx: q = [acc, outer, inner, meth, sub, vary, fail, oerr, nomem, slash, file, size, cont] *)
Conf(q) == IF q.inner # "-" THEN q.inner ELSE IF q.outer # "-" THEN q.outer ELSE "off"
Faulty(q) == q.fail # "none" \/ q.oerr # -1 \/ q.nomem # 0
Declined == -5
Silent(e) == e.sends = 0 /\ e.outs = 0 /\ e.body = ""
NginxServed(q, e) ==
  /\ e.rc = 0 /\ e.status = 200 /\ e.len = q.size /\ e.type = "image/x-j" /\ e.enc \in {"", "identity"} /\ e.sends = 1
  /\ IF q.meth = "H" \/ q.fail = "notmod" THEN e.outs = 0 /\ e.body = ""
     ELSE e.outs = 1 /\ e.body = q.cont /\ e.last = ~q.sub
  /\ Conf(q) = "on" => e.vary                 \* the answer hangs on what the client says
NginxOk(q, e) ==
  /\ e.kept
  /\ IF q.meth = "P" \/ q.slash \/ Conf(q) = "off" THEN e.rc = Declined /\ Silent(e) /\ ~e.vary
     ELSE
       LET a == IF Conf(q) = "always" THEN "yes" ELSE IF q.sub THEN "no" ELSE Says(q.acc)
           no == /\ Silent(e)
                 /\ \/ e.rc = Declined
                    \/ e.rc = 500 /\ Faulty(q)
                 /\ (q.vary /\ Plain(q.file) /\ ~Faulty(q)) => e.vary    \* so does the other answer
           yes == CASE Nothing(q.file) /\ ~Faulty(q) -> e.rc = Declined /\ Silent(e)
                    [] Nothing(q.file) -> e.rc \in {Declined, 500} /\ Silent(e)
                    [] q.file = "fifo" -> e.rc \in {404, Declined} \cup (IF Faulty(q) THEN {500} ELSE {}) /\ Silent(e)
                    [] q.oerr # -1 -> e.rc = (IF q.oerr = 0 THEN 500 ELSE Declined) /\ Silent(e)
                    [] q.fail \in {"map", "links", "body", "etag"} -> e.rc = 500 /\ Silent(e)
                    [] q.fail = "send" -> e.rc = -1 /\ e.sends = 1 /\ e.outs = 0
                    [] q.fail = "out" /\ q.meth = "G" -> e.rc = -1 /\ e.sends = 1 /\ e.outs = 1 /\ e.body = q.cont
                    [] q.nomem # 0 -> NginxServed(q, e) \/ (e.rc = 500 /\ Silent(e))
                    [] OTHER -> NginxServed(q, e)
       IN CASE a = "no" -> no [] a = "yes" -> yes [] OTHER -> no \/ yes

(* ---- Python: q = [lib, file, extra, fails]: the library, the content, further arguments, and whether the
   library's own reader raises.  e: calls: what the own reader saw; res: what the caller got;
   left: files left behind; conv: converter runs.                            *)
LoadOk(q, e) ==
  /\ e.left = 0
  /\ CASE q.file = "good" -> /\ e.calls = <<[content |-> q.jpeg, own |-> FALSE, extra |-> q.extra]>>
                             /\ e.res = (IF q.fails THEN "raised" ELSE "image") /\ e.conv = 1
       [] q.file = "broken" -> e.calls = <<>> /\ e.res = "runtime" /\ e.conv = 1
       [] OTHER -> /\ e.calls = <<[content |-> q.content, own |-> TRUE, extra |-> q.extra]>>
                   /\ e.res = (IF q.fails THEN "raised" ELSE "image") /\ e.conv = 0
=============================================================================
