--------------------------- MODULE ContainerTrace ---------------------------
(* What the real decoders answered for concretised token sequences.         *)
EXTENDS Container, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, m
vars == <<c, l, m>>
Case == Cases[c]
Toks == Case.toks
Init == c \in 1..Len(Cases) /\ l = 1 /\ m = Start
Consume == l <= Len(Toks) /\ m' = Step(m, Toks[l]) /\ l' = l + 1 /\ c' = c
Has(k) == \E i \in 1..Len(Toks) : Toks[i].k = k
(* the file can be rebuilt only if what it needs was present *)
Rebuilds == HdrVerdict(Toks[2].items) = "fallback" \/ Has("meta") \/ ~Case.needmeta
(* cut > 0: the last token misses that many of its bytes *)
Answer ==
  LET v == CASE m.stage = "done" /\ ~Case.cut -> "ok" [] m.stage = "bad" -> "bad" [] OTHER -> "short" IN
  /\ ~Case.crash
  /\ CASE v = "ok" ->
          /\ Case.st = 0
          /\ Case.rc = (IF Rebuilds THEN 1 ELSE 0)
          /\ Rebuilds => Case.out = Case.want
          /\ \A i \in 1..Len(Case.streams) :
               IF Rebuilds THEN Case.streams[i][1] = "DONE" /\ Case.streams[i][2] = Case.want
               ELSE Case.streams[i][1] # "DONE"
       [] v = "short" ->
          /\ Case.st = 7 /\ Case.rc = 0
          /\ \A i \in 1..Len(Case.streams) :
               \/ Case.streams[i][1] = "NEEDIN"
               (* without the metadata it is already known that nothing can be rebuilt *)
               \/ Case.streams[i][1] = "ERROR" /\ Has("ac") /\ ~Has("meta") /\ Case.needmeta
       [] OTHER ->
          (* a rejected stream is done only where a complete stream ended *)
          /\ Case.st # 0 /\ Case.rc = 0
          /\ \A i \in 1..Len(Case.streams) : Case.streams[i][1] # "DONE" \/ Case.streams[i][3] = "whole"
Finish == l = Len(Toks) + 1 /\ Answer /\ UNCHANGED vars
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
