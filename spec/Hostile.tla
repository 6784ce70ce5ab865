------------------------------ MODULE Hostile ------------------------------
(***************************************************************************)
(* A caller hands untrusted byte strings to the library.  A call is in      *)
(* progress (busy) until it returns; the only way to leave busy is Return   *)
(* with a verdict.  There is no action for aborting, for touching memory    *)
(* that is not the library's, or for never returning: a history which shows *)
(* one of them ends in a state without successor.  Verdicts of the          *)
(* different entry points on one byte string have to agree.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Statuses == {0, 5, 6, 7}                     \* fine, invalid, damaged, incomplete

(* verdicts on a supposed Brunsli stream *)
BrnVerdict(e) ==
  /\ e.kept                                   \* the caller's bytes are untouched
  /\ e.st \in Statuses /\ e.rc \in {0, 1}
  /\ e.isb = e.sig
  /\ e.st = 0 => e.sig
  /\ e.rc = 1 <=> (e.st = 0 /\ e.wr)
  /\ e.rc = 1 => e.out = e.wout
  /\ e.st = 0 => ~e.est0
  /\ \A i \in 1..Len(e.ss) :
       IF e.rc = 1 THEN e.ss[i][1] = "DONE" /\ e.ss[i][2] = e.out
       ELSE e.ss[i][1] \in {"NEEDIN", "ERROR"} \/ (e.ss[i][1] = "DONE" /\ e.ss[i][3])
  (* incomplete for the one-shot decoder, incomplete for the incremental one,  *)
  (* unless what is there was already found wrong while writing               *)
  /\ e.st = 7 => \A i \in 1..Len(e.ss) : e.ss[i][1] # "DONE" \/ e.ss[i][3]

(* verdicts on a supposed JPEG file: reads = header, tables, all *)
JpgVerdict(e) ==
  /\ e.kept
  /\ \A i \in 1..3 : e.reads[i][1] <=> e.reads[i][2] = 0
  /\ e.rc \in {0, 1}
  /\ e.rc = 1 => e.reads[3][1]
  /\ e.reads[3][1] => e.back                  \* what was read writes back
  /\ e.rc = 1 => e.rd = 1 /\ e.same

Verdict(e) == IF e.fn = "brn" THEN BrnVerdict(e) ELSE JpgVerdict(e)

Idle == [busy |-> FALSE, fn |-> "", n |-> -1]
CanCall(s, e) == ~s.busy
Call(s, e) == [busy |-> TRUE, fn |-> e.fn, n |-> e.n]
CanReturn(s, e) == s.busy /\ e.fn = s.fn /\ e.n = s.n /\ Verdict(e)
Return(s) == Idle
=============================================================================
