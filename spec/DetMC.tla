------------------------------- MODULE DetMC --------------------------------
(* Two decoders and a one-shot function over one library.  Each decoder sums *)
(* what it is handed; with Leak the library keeps something between calls.   *)
EXTENDS Determinism, FiniteSets, TLC
CONSTANTS Leak, MaxCalls
VARIABLES own, cell, s, bad, n
vars == <<own, cell, s, bad, n>>
D == {"p", "q"}
X == {0, 1}
Init == own = [d \in D |-> 0] /\ cell = 0 /\ s = Fresh /\ bad = FALSE /\ n = 0
FeedOne(d, x) ==
  LET a == (own[d] * 2 + x + (IF Leak THEN cell ELSE 0)) % 4 IN
  /\ own' = [own EXCEPT ![d] = a]
  /\ cell' = x
  /\ bad' = (bad \/ ~CanFeed(s, d, x, a, TRUE))
  /\ s' = Feed(s, d, x, a)
CallOne(x) ==
  LET a == (x + (IF Leak THEN cell ELSE 0)) % 4 IN
  /\ own' = own /\ cell' = x
  /\ bad' = (bad \/ ~CanCall(s, <<9, x>>, a, TRUE))
  /\ s' = Call(s, <<9, x>>, a)
Next == /\ n < MaxCalls /\ n' = n + 1
        /\ \/ \E d \in D, x \in X : FeedOne(d, x)
           \/ \E x \in X : CallOne(x)
Spec == Init /\ [][Next]_vars
Consistent == ~bad
=============================================================================
