------------------------------- MODULE Bits ---------------------------------
(* Bit strings: bytes, least significant bit first.  b is a bit position.    *)
(* Reads past the end give zeros; a reader that went past the end is over.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
P2 == TLCEval([i \in 0..30 |-> 2 ^ i])
BitAt(d, b) == IF b \div 8 + 1 > Len(d) THEN 0 ELSE (d[b \div 8 + 1] \div P2[(b % 8)]) % 2
RECURSIVE TakeAt(_, _, _, _)
TakeAt(d, b, n, i) == IF n = 0 THEN 0 ELSE BitAt(d, b) * P2[i] + TakeAt(d, b + 1, n - 1, i + 1)
BitsAt(d, b, n) == TakeAt(d, b, n, 0)                    \* n <= 30
Over(d, b) == b > 8 * Len(d)
RestZero(d, b) == b \div 8 >= Len(d) - (IF b % 8 = 0 THEN 0 ELSE 1) /\ ~Over(d, b)
                  /\ \A k \in 0..7 : (b % 8) # 0 /\ k >= (b % 8) => BitAt(d, b - (b % 8) + k) = 0
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
BitLen(n) == IF n = 0 THEN 0 ELSE Log2(n) + 1            \* bits needed for 0..n

-----------------------------------------------------------------------------
(* Numbers.  Each gives <<value, position after it>>.                        *)
Fixed(d, b, n) == <<BitsAt(d, b, n), b + n>>
(* at most `max` chunks of bits, least first, each announced by a one        *)
RECURSIVE Lim(_, _, _, _, _, _)
Lim(d, b, nb, left, v, sh) ==
  IF left = 0 THEN <<v, b>>
  ELSE IF BitAt(d, b) = 0 THEN <<v, b + 1>>
  ELSE Lim(d, b + 1 + nb, nb, left - 1, v + BitsAt(d, b + 1, nb) * P2[sh], sh + nb)
Limited(d, b, nb, max) == Lim(d, b, nb, max, 0, 0)
(* unbounded length announced bit by bit: least bits first                   *)
RECURSIVE Var(_, _, _, _, _)
Var(d, b, max, v, sh) ==
  IF sh >= max THEN <<v, b>>
  ELSE IF BitAt(d, b) = 0 THEN <<v, b + 1>>
  ELSE IF sh + 1 < max THEN Var(d, b + 2, max, v + BitAt(d, b + 1) * P2[sh], sh + 1)
  ELSE <<v + P2[sh], b + 1>>
VarLen8(d, b) ==
  IF BitAt(d, b) = 0 THEN <<0, b + 1>>
  ELSE LET n == BitsAt(d, b + 1, 3) IN IF n = 0 THEN <<1, b + 4>> ELSE <<BitsAt(d, b + 4, n) + P2[n], b + 4 + n>>

-----------------------------------------------------------------------------
(* Permutations: each value is written as its place among those left.        *)
PlaceBits(n) == IF n <= 1 THEN 0 ELSE BitLen(n - 1)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PlaceOf(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
RECURSIVE Lehmer(_, _)
Lehmer(left, perm) ==                 \* places (from 0) of perm's members in turn
  IF perm = <<>> THEN <<>>
  ELSE LET i == PlaceOf(left, Head(perm)) IN <<i - 1>> \o Lehmer(Without(left, i), Tail(perm))
RECURSIVE Unlehmer(_, _)
Unlehmer(left, code) ==               \* <<>> if there is no such place
  IF code = <<>> THEN <<>>
  ELSE IF Head(code) >= Len(left) THEN <<-1>>
  ELSE <<left[Head(code) + 1]>> \o Unlehmer(Without(left, Head(code) + 1), Tail(code))

-----------------------------------------------------------------------------
(* Prefix codes.  Lengths of the symbols 0..n-1, as a sequence.              *)
Bad == [ok |-> FALSE, b |-> 0, lens |-> <<>>]
(* canonical code: symbols by length, then by value                          *)
Canon(lens) ==
  LET cnt == [k \in 1..15 |-> Cardinality({i \in 1..Len(lens) : lens[i] = k})]
      mn[k \in 1..15] == IF k = 1 THEN 0 ELSE 2 * (mn[k - 1] + cnt[k - 1])
      off[k \in 1..15] == IF k = 1 THEN 0 ELSE off[k - 1] + cnt[k - 1]
      vals == FlattenSeq([k \in 1..15 |-> SelectSeq([i \in 1..Len(lens) |-> i - 1], LAMBDA i : lens[i + 1] = k)])
  IN TLCEval([cnt |-> [k \in 1..15 |-> cnt[k]], mn |-> [k \in 1..15 |-> mn[k]], off |-> [k \in 1..15 |-> off[k]], vals |-> vals,
      only |-> IF \E i \in 1..Len(lens) : lens[i] = -1 THEN (CHOOSE i \in 1..Len(lens) : lens[i] = -1) - 1 ELSE -1])
Complete(lens) == (\E i \in 1..Len(lens) : lens[i] = -1) \/
  FoldLeft(LAMBDA a, x : IF x > 0 THEN a + P2[15 - x] ELSE a, 0, lens) = P2[15]
RECURSIVE SymAt(_, _, _, _, _)
SymAt(t, d, b, k, code) ==
  IF k > 15 THEN <<-1, b>>
  ELSE LET q == 2 * code + BitAt(d, b) IN
    IF q - t.mn[k] < t.cnt[k] THEN <<t.vals[t.off[k] + q - t.mn[k] + 1], b + 1>> ELSE SymAt(t, d, b + 1, k + 1, q)
Symbol1(t, d, b) == IF t.only >= 0 THEN <<t.only, b>> ELSE SymAt(t, d, b, 1, 0)      \* -1: the sole symbol takes no bits

(* loops as folds: TLC's recursion gets slow with depth                      *)
Loop(Step(_, _), n, x) == FoldLeft(Step, x, [i \in 1..n |-> i])

(* up to four symbols named outright                                         *)
Simple(d, b, n) ==
  LET w == IF n > 1 THEN BitLen(n - 1) ELSE 0
      k == BitsAt(d, b, 2) + 1
      s == [i \in 1..k |-> BitsAt(d, b + 2 + (i - 1) * w, w)]
      e == b + 2 + k * w
      deep == k = 4 /\ BitAt(d, e) = 1
      ls == CASE k = 1 -> <<-1>> [] k = 2 -> <<1, 1>> [] k = 3 -> <<1, 2, 2>> [] k = 4 /\ ~deep -> <<2, 2, 2, 2>> [] OTHER -> <<1, 2, 3, 3>>
  IN IF (\E i \in 1..k : s[i] >= n) \/ Cardinality({s[i] : i \in 1..k}) # k THEN Bad
     ELSE [ok |-> TRUE, b |-> IF k = 4 THEN e + 1 ELSE e,
           lens |-> [x \in 1..n |-> IF \E i \in 1..k : s[i] = x - 1 THEN ls[CHOOSE i \in 1..k : s[i] = x - 1] ELSE 0]]

LenOrder == <<1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15>>
(* a length of a length: 00 0, 10 4, 01 3, 110 2, 1110 1, 1111 5 (as written) *)
LenLen(d, b) ==
  LET v == BitsAt(d, b, 2) IN
  CASE v = 0 -> <<0, b + 2>> [] v = 1 -> <<4, b + 2>> [] v = 2 -> <<3, b + 2>>
    [] OTHER -> IF BitAt(d, b + 2) = 0 THEN <<2, b + 3>> ELSE IF BitAt(d, b + 3) = 0 THEN <<1, b + 4>> ELSE <<5, b + 4>>
RECURSIVE LenLens(_, _, _, _, _)
LenLens(d, b, i, space, ls) ==
  IF i > 18 \/ space <= 0 THEN <<ls, b, space>>
  ELSE LET v == LenLen(d, b) IN
    LenLens(d, v[2], i + 1, IF v[1] = 0 THEN space ELSE space - 32 \div P2[v[1]], [ls EXCEPT ![LenOrder[i] + 1] = v[1]])
(* x: rep, rlen (running repeat), prev                                       *)
LensStep(t, d, n, x) ==
  IF ~x.ok \/ Len(x.ls) >= n \/ x.space <= 0 THEN x
  ELSE LET y == Symbol1(t, d, x.b) c == y[1] IN
    IF c < 0 THEN [x EXCEPT !.ok = FALSE]
    ELSE IF c < 16 THEN [x EXCEPT !.ls = Append(@, c), !.prev = IF c = 0 THEN @ ELSE c, !.rep = 0, !.b = y[2],
                                  !.space = IF c = 0 THEN @ ELSE @ - P2[15 - c]]
    ELSE LET eb == c - 14
             nl == IF c = 16 THEN x.prev ELSE 0
             old == IF x.rlen = nl THEN x.rep ELSE 0
             rep == (IF old > 0 THEN (old - 2) * P2[eb] ELSE 0) + BitsAt(d, y[2], eb) + 3
             k == rep - old IN
      IF Len(x.ls) + k > n THEN [x EXCEPT !.ok = FALSE]
      ELSE [x EXCEPT !.ls = @ \o [i \in 1..k |-> nl], !.rep = rep, !.rlen = nl, !.b = y[2] + eb,
                     !.space = IF nl = 0 THEN @ ELSE @ - k * P2[15 - nl]]
Complex(d, b, skip, n) ==
  LET ll == LenLens(d, b, skip + 1, 32, [i \in 1..18 |-> 0])
      used == {i \in 1..18 : ll[1][i] > 0}
      t == Canon(IF Cardinality(used) = 1 THEN [i \in 1..18 |-> IF i \in used THEN -1 ELSE 0] ELSE ll[1])
      x == Loop(LAMBDA x, i : TLCEval(LensStep(t, d, n, x)), n, [ok |-> TRUE, ls |-> <<>>, prev |-> 8, rep |-> 0, rlen |-> 0, b |-> ll[2], space |-> P2[15]]) IN
  IF ~(Cardinality(used) = 1 \/ ll[3] = 0) THEN Bad
  ELSE IF ~x.ok \/ x.space # 0 THEN Bad
  ELSE [ok |-> TRUE, b |-> x.b, lens |-> x.ls \o [i \in 1..(n - Len(x.ls)) |-> 0]]
Prefix(d, b, n) == LET k == BitsAt(d, b, 2) r == IF k = 1 THEN Simple(d, b + 2, n) ELSE Complex(d, b + 2, k, n) IN
  IF r.ok /\ Over(d, r.b) THEN Bad ELSE r

-----------------------------------------------------------------------------
(* Context maps: which histogram each of n contexts uses.                    *)
(* long sequences grow in pieces                                             *)
Piece == [full |-> <<>>, cur |-> <<>>, len |-> 0]
Add1(a, v) == IF Len(a.cur) < 128 THEN [a EXCEPT !.cur = Append(@, v), !.len = @ + 1]
              ELSE [full |-> Append(a.full, a.cur), cur |-> <<v>>, len |-> a.len + 1]
AddAll(a, q) == [full |-> a.full \o <<a.cur, q>>, cur |-> <<>>, len |-> a.len + Len(q)]
Joined(a) == FoldLeft(LAMBDA x, y : x \o y, <<>>, Append(a.full, a.cur))
MapStep(t, d, run, n, x) ==
  IF x.bad \/ x.acc.len = n THEN x
  ELSE LET y == Symbol1(t, d, x.b) IN
    IF y[1] < 0 \/ Over(d, y[2]) THEN [x EXCEPT !.bad = TRUE]
    ELSE IF y[1] = 0 THEN [x EXCEPT !.acc = Add1(@, 0), !.b = y[2]]
    ELSE IF y[1] > run THEN [x EXCEPT !.acc = Add1(@, y[1] - run), !.b = y[2]]
    ELSE LET k == P2[y[1]] + BitsAt(d, y[2], y[1]) IN
      IF x.acc.len + k > n THEN [x EXCEPT !.bad = TRUE]
      ELSE [x EXCEPT !.acc = IF k > 32 THEN AddAll(@, [i \in 1..k |-> 0]) ELSE FoldLeft(Add1, @, [i \in 1..k |-> 0]), !.b = y[2] + y[1]]
MapSyms(t, d, b, run, n) == Loop(LAMBDA x, i : TLCEval(MapStep(t, d, run, n, x)), n, [acc |-> Piece, b |-> b, bad |-> FALSE])
ToFront(s, i) == TLCEval(<<s[i]>> \o Without(s, i))
UnfrontStep(x, v) == TLCEval(IF v = 0 THEN [x EXCEPT !.out = Add1(@, x.order[1])]
                     ELSE [order |-> ToFront(x.order, v + 1), out |-> Add1(x.out, x.order[v + 1])])
Unfront(hs, s) == Joined(FoldLeft(UnfrontStep, [order |-> [i \in 1..hs |-> i - 1], out |-> Piece], s).out)
ContextMap(d, b0, n) ==               \* the histogram count, then the map
  LET h == VarLen8(d, b0) hs == h[1] + 1 IN
  IF hs = 1 THEN [ok |-> ~Over(d, h[2]), b |-> h[2], hs |-> 1, map |-> [i \in 1..n |-> 0]]
  ELSE LET rle == BitAt(d, h[2])
           run == IF rle = 1 THEN BitsAt(d, h[2] + 1, 4) + 1 ELSE 0
           c == Prefix(d, h[2] + (IF rle = 1 THEN 5 ELSE 1), hs + run) IN
    IF ~c.ok THEN [ok |-> FALSE, b |-> 0, hs |-> hs, map |-> <<>>]
    ELSE LET t == Canon(c.lens) m == MapSyms(t, d, c.b, run, n) IN
      IF m.bad THEN [ok |-> FALSE, b |-> 0, hs |-> hs, map |-> <<>>]
      ELSE [ok |-> ~Over(d, m.b + 1), b |-> m.b + 1, hs |-> hs,
            map |-> IF BitAt(d, m.b) = 1 THEN Unfront(hs, Joined(m.acc)) ELSE Joined(m.acc)]

-----------------------------------------------------------------------------
(* Histograms: 18 counts that sum to 1024.                                   *)
NSym == 18
LenCode == { <<"11111110", 3>>, <<"11111111", 4>>, <<"111100", 5>>, <<"111101", 6>>, <<"111110", 7>>, <<"11100", 8>>, <<"1100", 9>>,
             <<"000", 10>>, <<"001", 11>>, <<"010", 12>>, <<"011", 13>>, <<"100", 14>>, <<"101", 15>>, <<"1101", 16>>, <<"11101", 17>>, <<"1111110", 18>> }
LogCode == { <<"11110", 0>>, <<"1100", 1>>, <<"1101", 2>>, <<"1110", 3>>, <<"010", 4>>, <<"011", 5>>, <<"00", 6>>, <<"100", 7>>, <<"101", 8>>,
             <<"111110", 9>>, <<"111111", 10>> }
RECURSIVE Word(_, _, _, _)
Word(code, d, b, w) ==
  IF \E x \in code : x[1] = w THEN <<(CHOOSE x \in code : x[1] = w)[2], b>>
  ELSE Word(code, d, b + 1, w \o (IF BitAt(d, b) = 1 THEN "1" ELSE "0"))
RECURSIVE Logs(_, _, _, _)
Logs(d, b, n, acc) == IF n = 0 THEN <<acc, b>> ELSE LET w == Word(LogCode, d, b, "") IN Logs(d, w[2], n - 1, Append(acc, w[1]))
RECURSIVE Counts(_, _, _, _, _)
Counts(d, b, logs, om, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(logs) THEN <<acc, b>>
  ELSE LET l == logs[i] IN
    IF i = om \/ l = 0 THEN Counts(d, b, logs, om, Append(acc, 0))
    ELSE IF l = 1 THEN Counts(d, b, logs, om, Append(acc, 1))
    ELSE LET k == l \div 2 IN Counts(d, b + k, logs, om, Append(acc, P2[l - 1] + BitsAt(d, b, k) * P2[l - 1 - k]))
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
NoHist == [ok |-> FALSE, b |-> 0, counts |-> <<>>]
Histogram1(d, b) ==
  IF BitAt(d, b) = 1 THEN
    LET two == BitAt(d, b + 1) s1 == BitsAt(d, b + 2, 5) % NSym s2 == BitsAt(d, b + 7, 5) % NSym IN
    IF two = 0 THEN [ok |-> ~Over(d, b + 7), b |-> b + 7, counts |-> [i \in 1..NSym |-> IF i = s1 + 1 THEN 1024 ELSE 0]]
    ELSE IF s1 = s2 THEN NoHist
    ELSE LET v == BitsAt(d, b + 12, 10) IN
      [ok |-> ~Over(d, b + 22), b |-> b + 22, counts |-> [i \in 1..NSym |-> IF i = s1 + 1 THEN v ELSE IF i = s2 + 1 THEN 1024 - v ELSE 0]]
  ELSE LET w == Word(LenCode, d, b + 1, "")
           lg == Logs(d, w[2], w[1], <<>>)
           mx == CHOOSE x \in 0..10 : (\E i \in 1..w[1] : lg[1][i] = x) /\ \A i \in 1..w[1] : lg[1][i] <= x
           om == CHOOSE i \in 1..w[1] : lg[1][i] = mx /\ \A j \in 1..(i - 1) : lg[1][j] < mx
           c == Counts(d, lg[2], lg[1], om, <<>>)
           tot == Sum(c[1]) IN
    IF tot >= 1024 \/ Over(d, c[2]) THEN NoHist
    ELSE [ok |-> TRUE, b |-> c[2], counts |-> [i \in 1..NSym |-> IF i = om THEN 1024 - tot ELSE IF i <= w[1] THEN c[1][i] ELSE 0]]
=============================================================================
