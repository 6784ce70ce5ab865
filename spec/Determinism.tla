---------------------------- MODULE Determinism -----------------------------
(***************************************************************************)
(* What callers may rely on when many of them use the library at once and  *)
(* again: the answer of a call is a function of what was handed to it, and *)
(* the answer of an incremental decoder's call is a function of that       *)
(* decoder's own calls so far.  The state is everything observed so far,   *)
(*   memo  what was asked (question) -> what was answered                  *)
(*   hist  live decoder -> the calls it has had                            *)
(* and a call may only be answered as the same question was answered       *)
(* before, by whichever route, thread, process or surroundings; and it     *)
(* leaves its inputs alone.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fresh == [memo |-> <<>>, hist |-> <<>>]          \* functions with empty domain

Agrees(s, q, a) == q \in DOMAIN s.memo => s.memo[q] = a
Learn(s, q, a) == IF q \in DOMAIN s.memo THEN s.memo
                  ELSE [x \in DOMAIN s.memo \cup {q} |-> IF x = q THEN a ELSE s.memo[x]]

(* a call with question q answered a *)
CanCall(s, q, a, kept) == kept /\ Agrees(s, q, a)
Call(s, q, a) == [s EXCEPT !.memo = Learn(s, q, a)]

(* decoder d is handed x (how much input, how much room), after its earlier calls *)
Past(s, d) == IF d \in DOMAIN s.hist THEN s.hist[d] ELSE <<>>
Question(s, d, x) == Append(Past(s, d), x)
CanFeed(s, d, x, a, kept) == kept /\ Agrees(s, Question(s, d, x), a)
Feed(s, d, x, a) ==
  [memo |-> Learn(s, Question(s, d, x), a),
   hist |-> [e \in DOMAIN s.hist \cup {d} |-> IF e = d THEN Question(s, d, x) ELSE s.hist[e]]]
=============================================================================
