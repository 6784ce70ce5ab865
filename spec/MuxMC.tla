-------------------------------- MODULE MuxMC --------------------------------
(***************************************************************************)
(* The multiplexed entropy coder at a small scale: words of three bits       *)
(* instead of sixteen, a symbol table of four slots instead of 1024,         *)
(* probabilities in quarters.  The writer reserves a word for a sub-coder    *)
(* when that sub-coder's reader will fetch it, and runs the asymmetric coder  *)
(* backwards over the finished list.  Checked over all operation sequences   *)
(* up to a length: the reader gives back the operations, has then read        *)
(* exactly the words there are, and ends in the states that mark an end.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS MaxLen, EarlyWord          \* EarlyWord: TRUE takes a bit word as soon as one is full (a wrong writer)
W == 8
T == 4
Freq == <<1, 3>>
From == <<0, 1>>
Sig == 5
Ops == {<<"a", p, b>> : p \in 1..3, b \in 0..1} \cup {<<"b", 1, v>> : v \in 0..1} \cup {<<"b", 2, v>> : v \in 0..3} \cup {<<"s", 0, y>> : y \in 0..1}
Pow(n) == 2 ^ n

(* writer: a list of words, each final, reserved, or a symbol                *)
Open == [w |-> <<[k |-> "w", v |-> 0], [k |-> "w", v |-> 0], [k |-> "w", v |-> 0]>>, bw |-> 1, a0 |-> 2, a1 |-> 3, lo |-> 0, hi |-> W * W - 1, bv |-> 0, bn |-> 0]
Word(v) == [k |-> "w", v |-> v]
PutBit(e, p, b) ==
  LET split == e.lo + ((e.hi - e.lo) * p) \div 4
      lo == IF b = 1 THEN split + 1 ELSE e.lo
      hi == IF b = 1 THEN e.hi ELSE split IN
  IF lo \div W = hi \div W
  THEN [e EXCEPT !.w = Append([@ EXCEPT ![e.a0] = Word(hi \div W)], Word(0)), !.a0 = e.a1, !.a1 = Len(e.w) + 1, !.lo = (lo % W) * W, !.hi = (hi % W) * W + W - 1]
  ELSE [e EXCEPT !.lo = lo, !.hi = hi]
PutBits(e, n, v) ==
  LET bv == e.bv + v * Pow(e.bn) bn == e.bn + n IN
  IF bn > 3 \/ (EarlyWord /\ bn = 3)
  THEN [e EXCEPT !.w = Append([@ EXCEPT ![e.bw] = Word(bv % W)], Word(0)), !.bw = Len(e.w) + 1, !.bv = bv \div W, !.bn = bn - 3]
  ELSE [e EXCEPT !.bv = bv, !.bn = bn]
Put(e, o) == CASE o[1] = "a" -> PutBit(e, o[2], o[3]) [] o[1] = "b" -> PutBits(e, o[2], o[3]) [] OTHER -> [e EXCEPT !.w = Append(@, [k |-> "s", v |-> o[3]])]
Flush(e) == [e EXCEPT !.w = [@ EXCEPT ![e.bw] = Word(e.bv % W), ![e.a0] = Word(e.hi \div W), ![e.a1] = Word(e.hi % W)]]
(* backwards over the list *)
Back(x, s) ==
  IF s.k = "w" THEN [x EXCEPT !.out = <<s.v>> \o @]
  ELSE LET f == Freq[s.v + 1]
           full == x.st \div 16 >= f          \* 16 = W * W / T
           st == IF full THEN x.st \div W ELSE x.st IN
       [st |-> (st \div f) * T + (st % f) + From[s.v + 1], out |-> IF full THEN <<x.st % W>> \o x.out ELSE x.out]
Encode(ops) ==
  LET e == Flush(FoldLeft(Put, Open, ops))
      b == FoldRight(LAMBDA s, x : Back(x, s), e.w, [st |-> Sig * W, out |-> <<>>]) IN
  <<b.st \div W, b.st % W>> \o b.out

(* reader *)
At(d, i) == IF i > Len(d) THEN 0 ELSE d[i]
Enter(d) == [n |-> 5, st |-> At(d, 1) * W + At(d, 2), bv |-> At(d, 3), bp |-> 0, lo |-> 0, hi |-> W * W - 1, val |-> At(d, 4) * W + At(d, 5), got |-> <<>>]
Get(d, r, o) ==
  CASE o[1] = "a" ->
         LET split == r.lo + ((r.hi - r.lo) * o[2]) \div 4
             b == IF r.val > split THEN 1 ELSE 0
             lo == IF b = 1 THEN split + 1 ELSE r.lo
             hi == IF b = 1 THEN r.hi ELSE split IN
         IF lo \div W = hi \div W
         THEN [r EXCEPT !.got = Append(@, b), !.lo = (lo % W) * W, !.hi = (hi % W) * W + W - 1, !.val = (@ % W) * W + At(d, r.n + 1), !.n = @ + 1]
         ELSE [r EXCEPT !.got = Append(@, b), !.lo = lo, !.hi = hi]
    [] o[1] = "b" ->
         LET more == r.bp + o[2] > 3
             bv == IF more THEN r.bv + W * At(d, r.n + 1) ELSE r.bv
             bp == r.bp + o[2]
             v == (bv \div Pow(r.bp)) % Pow(o[2]) IN
         [r EXCEPT !.got = Append(@, v), !.n = IF more THEN @ + 1 ELSE @, !.bv = IF bp > 3 THEN bv \div W ELSE bv, !.bp = IF bp > 3 THEN bp - 3 ELSE bp]
    [] OTHER ->
         LET slot == r.st % T
             y == IF slot < From[2] THEN 0 ELSE 1
             st == Freq[y + 1] * (r.st \div T) + slot - From[y + 1] IN
         IF st < W THEN [r EXCEPT !.got = Append(@, y), !.st = st * W + At(d, r.n + 1), !.n = @ + 1] ELSE [r EXCEPT !.got = Append(@, y), !.st = st]
Inverts(ops) ==
  LET d == Encode(ops) r == FoldLeft(LAMBDA x, o : Get(d, x, o), Enter(d), ops) IN
  /\ r.got = [i \in 1..Len(ops) |-> ops[i][3]]
  /\ r.n = Len(d) /\ r.st = Sig * W
  /\ (r.bp < 3 => r.bv \div Pow(r.bp) = 0)

VARIABLE ops
Init == ops = <<>>
Next == Len(ops) < MaxLen /\ \E o \in Ops : ops' = Append(ops, o)
Spec == Init /\ [][Next]_ops
Sound == Inverts(ops) = TRUE
=============================================================================
