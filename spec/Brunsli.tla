------------------------------ MODULE Brunsli -------------------------------
(***************************************************************************)
(* The Brunsli stream format: a reading of its own of whole streams.        *)
(*                                                                         *)
(* A stream is its bytes d.  Sections(d) splits it, Header / Internals /    *)
(* Quant / Histograms read the side information, and the machine at the end *)
(* (Begin, then Block for each block of the DC section, Turn, then Block    *)
(* for each block of the AC section, Done) reads the coefficients the way   *)
(* the encoder meant them: every step's probabilities and contexts are part *)
(* of the state.  Nothing is taken from the implementation but the fixed    *)
(* numbers in Tables, pinned when the streams were first written.           *)
(***************************************************************************)
EXTENDS Arith, Tables
Meta == INSTANCE Metadata
Big == 1073741824
Hi(v) == IF v > Big THEN Big ELSE v
RECURSIVE Groups(_, _, _)
Groups(d, p, g) ==                    \* <<seven bit groups, position after>>; <<>> if there is no number
  IF Len(g) = 9 \/ p > Len(d) THEN <<<<>>, p>>
  ELSE IF d[p] < 128 THEN <<Append(g, d[p]), p + 1>> ELSE Groups(d, p + 1, Append(g, d[p] - 128))
NumAt(d, p) == Groups(d, p, <<>>)
(* value of bits from..from+n-1, saturating                                  *)
GBit(g, i) == IF i \div 7 + 1 > Len(g) THEN 0 ELSE (g[i \div 7 + 1] \div P2[(i % 7)]) % 2
GVal(g, from) == IF \E i \in (from + 30)..62 : GBit(g, i) = 1 THEN Big
                 ELSE FoldLeft(LAMBDA a, i : a + GBit(g, from + i) * P2[i], 0, [i \in 1..30 |-> i - 1])
GSome(g, from, n) == FoldLeft(LAMBDA a, i : a + GBit(g, from + i) * P2[i], 0, [i \in 1..n |-> i - 1])

-----------------------------------------------------------------------------
(* Sections.  Positions count from 1; a body is <<first, last>>.             *)
Sig == <<10, 4, 66, 210, 213, 78>>
Known == 3..8
Needs(t) == CASE t \in {5, 6} -> {4} [] t = 7 -> {5, 6} [] t = 8 -> {7} [] OTHER -> {}
NoSec == [ok |-> FALSE]
RECURSIVE Secs(_, _, _, _)
Secs(d, p, met, at) ==
  IF p > Len(d) THEN NoSec                                     \* ends before the AC section
  ELSE LET t == d[p] \div 8 w == (d[p] % 8) n == NumAt(d, p + 1) IN
    IF t \notin 1..15 \/ w \notin {0, 2} \/ t \in met \/ n[1] = <<>> THEN NoSec
    ELSE IF w = 0 THEN IF t \in Known THEN NoSec ELSE Secs(d, n[2], met \cup {t}, at)
    ELSE LET len == GVal(n[1], 0) e == n[2] + len - 1 IN
      IF len > Len(d) \/ e > Len(d) THEN NoSec
      ELSE IF t \notin Known THEN Secs(d, e + 1, met \cup {t}, at)
      ELSE IF ~(Needs(t) \subseteq met) THEN NoSec
      ELSE LET a == [at EXCEPT ![t] = <<n[2], e>>] IN
        IF t = 8 THEN [ok |-> e = Len(d), at |-> a] ELSE Secs(d, e + 1, met \cup {t}, a)

RECURSIVE Items(_, _, _, _)
Items(d, p, e, got) ==                \* header items up to e; got[t]: groups, or <<-1>> for a skipped one
  IF p = e + 1 THEN [ok |-> TRUE, got |-> got]
  ELSE IF p > e THEN [ok |-> FALSE]
  ELSE LET t == d[p] \div 8 w == (d[p] % 8) n == NumAt(d, p + 1) IN
    IF t \notin 1..15 \/ w \notin {0, 2} \/ n[1] = <<>> THEN [ok |-> FALSE]
    ELSE IF got[t] # <<>> \/ (w = 2 /\ t \in 1..4) THEN [ok |-> FALSE]
    ELSE IF w = 0 THEN Items(d, n[2], e, [got EXCEPT ![t] = n[1]])
    ELSE LET len == GVal(n[1], 0) IN IF len > e THEN [ok |-> FALSE] ELSE Items(d, n[2] + len, e, [got EXCEPT ![t] = <<-1>>])
CeilDiv(a, b) == (a + b - 1) \div b
Most(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, s)
NoHead == [ok |-> FALSE]
Header(got) ==
  LET vc == got[3] ver == GVal(vc, 2) n == GSome(vc, 0, 2) + 1 w == GVal(got[1], 0) h == GVal(got[2], 0)
      v == [i \in 1..n |-> GSome(got[4], 8 * (i - 1), 4) + 1]
      hh == [i \in 1..n |-> GSome(got[4], 8 * (i - 1) + 4, 4) + 1]
      mc == CeilDiv(w, 8 * Most(hh)) mr == CeilDiv(h, 8 * Most(v)) IN
  IF vc = <<>> THEN NoHead
  ELSE IF ver = 1 THEN [ok |-> TRUE, raw |-> TRUE]
  ELSE IF ver > 7 \/ (ver % 2) = 1 \/ got[1] = <<>> \/ got[2] = <<>> \/ got[4] = <<>> THEN NoHead
  ELSE IF w \notin 1..65535 \/ h \notin 1..65535 \/ (\E i \in 1..n : v[i] > 15 \/ hh[i] > 15) THEN NoHead
  ELSE IF \E i \in 1..n : mc * hh[i] * mr * v[i] > 2097152 THEN NoHead
  ELSE [ok |-> TRUE, raw |-> FALSE, w |-> w, h |-> h, n |-> n, ver |-> ver, old |-> ((ver \div 2) % 2) = 0,
        hs |-> hh, vs |-> v, wb |-> [i \in 1..n |-> mc * hh[i]], hb |-> [i \in 1..n |-> mr * v[i]], rows |-> mr]

Sections(d) ==
  IF Len(d) < 8 \/ SubSeq(d, 1, 6) # Sig \/ d[7] # 18 THEN NoSec
  ELSE LET n == NumAt(d, 8) len == GVal(n[1], 0) e == n[2] + len - 1 IN
    IF n[1] = <<>> \/ len > Len(d) \/ e > Len(d) THEN NoSec
    ELSE LET it == Items(d, n[2], e, [t \in 1..15 |-> <<>>]) IN
      IF ~it.ok THEN NoSec
      ELSE LET hd == Header(it.got) IN
        IF ~hd.ok THEN NoSec
        ELSE IF hd.raw THEN                                    \* the file itself follows
          IF e + 1 > Len(d) \/ d[e + 1] # 74 THEN NoSec
          ELSE LET m == NumAt(d, e + 2) IN
            IF m[1] = <<>> \/ m[2] + GVal(m[1], 0) - 1 # Len(d) THEN NoSec ELSE [ok |-> TRUE, raw |-> TRUE, file |-> SubSeq(d, m[2], Len(d))]
        ELSE LET s == Secs(d, e + 1, {1, 2, 9}, [t \in 3..8 |-> <<1, 0>>]) IN
          IF ~s.ok THEN NoSec ELSE [ok |-> TRUE, raw |-> FALSE, hd |-> hd, body |-> [t \in 3..8 |-> SubSeq(d, s.at[t][1], s.at[t][2])]]

-----------------------------------------------------------------------------
(* Internals: everything about the file but pixels and quantization values.  *)
No == [ok |-> FALSE]
Up(b) == (b + 7) \div 8
Markers(d) ==
  Loop(LAMBDA x, i : IF x.done THEN x ELSE TLCEval(LET m == 192 + BitsAt(d, x.b, 6) IN [b |-> x.b + 6, ms |-> Append(x.ms, m), done |-> m = 217 \/ Over(d, x.b + 6)]),
       (8 * Len(d)) \div 6 + 2, [b |-> 0, ms |-> <<>>, done |-> FALSE])
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})

HuffCounts(d, b0, ml, max) ==
  Loop(LAMBDA x, i : TLCEval(
         LET fit == x.space \div P2[16 - i] lim == IF max - x.tot < fit THEN max - x.tot ELSE fit n == BitLen(lim) c == BitsAt(d, x.b, n) IN
         IF lim = 0 THEN [x EXCEPT !.cs = Append(@, 0)]
         ELSE [b |-> x.b + n, cs |-> Append(x.cs, c), tot |-> x.tot + c, space |-> x.space - c * P2[16 - i], ok |-> x.ok /\ c <= lim]),
       ml, [b |-> b0, cs |-> <<>>, tot |-> 0, space |-> 65536 - P2[16 - ml], ok |-> TRUE])
HuffValues(d, b0, n, left0) ==
  Loop(LAMBDA x, i : IF ~x.ok THEN x ELSE TLCEval(
         LET v == Limited(d, x.b, 2, (PlaceBits(Len(x.left)) + 1) \div 2) IN
         IF v[1] >= Len(x.left) THEN [x EXCEPT !.ok = FALSE]
         ELSE [ok |-> TRUE, b |-> v[2], left |-> Without(x.left, v[1] + 1), vs |-> Append(x.vs, x.left[v[1] + 1])]),
       n, [ok |-> TRUE, b |-> b0, left |-> left0, vs |-> <<>>])
HuffCode(d, b) ==
  LET known == BitAt(d, b) slot == BitsAt(d, b + 1, 2) ac == BitAt(d, b + 3)
      last == IF known = 1 THEN 1 ELSE BitAt(d, b + 4) b1 == b + (IF known = 1 THEN 4 ELSE 5) IN
  IF BitAt(d, b1) = 1 THEN
    LET k == BitAt(d, b1 + 1) + 1 IN
    [ok |-> TRUE, b |-> b1 + 2, known |-> known,
     code |-> <<slot + 16 * ac, last, IF ac = 1 THEN StockAcCounts[k] ELSE StockDcCounts[k], IF ac = 1 THEN StockAcValues[k] ELSE StockDcValues[k]>>]
  ELSE LET ml == BitsAt(d, b1 + 1, 4) + 1 c == HuffCounts(d, b1 + 5, ml, IF ac = 1 THEN 256 ELSE 12) IN
    IF ~c.ok THEN No
    ELSE LET v == HuffValues(d, c.b, c.tot, IF ac = 1 THEN DefaultAcValues ELSE DefaultDcValues) IN
      IF ~v.ok THEN No
      ELSE [ok |-> TRUE, b |-> v.b, known |-> known,
            code |-> <<slot + 16 * ac, last, [i \in 1..16 |-> IF i > ml THEN 0 ELSE IF i = ml THEN c.cs[i] + 1 ELSE c.cs[i]], Append(v.vs, 256)>>]
RECURSIVE HuffCodes(_, _, _)
HuffCodes(d, b, acc) ==
  LET h == HuffCode(d, b) IN
  IF ~h.ok \/ Over(d, h.b) THEN No
  ELSE IF h.known = 1 THEN [ok |-> TRUE, b |-> h.b, codes |-> Append(acc, h.code)]
  ELSE IF Len(acc) + 1 >= 512 THEN No
  ELSE HuffCodes(d, h.b, Append(acc, h.code))

RECURSIVE Resets(_, _, _, _)
Resets(d, b, last, acc) ==
  IF BitAt(d, b) = 0 THEN [ok |-> TRUE, b |-> b + 1, at |-> acc]
  ELSE LET v == Var(d, b + 1, 28, 0, 0) k == last + v[1] + 1 IN
    IF Over(d, v[2]) \/ k > Big THEN No ELSE Resets(d, v[2], k, Append(acc, k))
RECURSIVE Runs(_, _, _, _, _)
Runs(d, b, last, num, acc) ==
  LET out == IF num > 0 THEN Append(acc, <<last, num>>) ELSE acc IN
  IF BitAt(d, b) = 0 THEN [ok |-> TRUE, b |-> b + 1, at |-> out]
  ELSE LET v == Var(d, b + 1, 28, 0, 0) k == last + v[1] IN
    IF Over(d, v[2]) \/ k > Big THEN No
    ELSE IF v[1] > 0 THEN Runs(d, v[2], k, 1, out) ELSE Runs(d, v[2], k, num + 1, acc)
Scan(d, b) ==
  LET n == BitsAt(d, b + 20, 2) + 1
      cs == [i \in 1..n |-> <<BitsAt(d, b + 16 + 6 * i, 2), BitsAt(d, b + 18 + 6 * i, 2), BitsAt(d, b + 20 + 6 * i, 2)>>]
      r == Resets(d, b + 22 + 6 * n, -1, <<>>) IN
  IF ~r.ok THEN No
  ELSE LET z == Runs(d, r.b, 0, 0, <<>>) IN
    IF ~z.ok THEN No
    ELSE [ok |-> TRUE, b |-> z.b, scan |-> <<BitsAt(d, b, 6), BitsAt(d, b + 6, 6), BitsAt(d, b + 12, 4), BitsAt(d, b + 16, 4), cs, r.at, z.at>>]
RECURSIVE ScansOf(_, _, _, _)
ScansOf(d, b, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, b |-> b, scans |-> acc]
  ELSE LET s == Scan(d, b) IN IF ~s.ok \/ Over(d, s.b) THEN No ELSE ScansOf(d, s.b, n - 1, Append(acc, s.scan))
RECURSIVE QHeads(_, _, _, _)
QHeads(d, b, n, acc) ==
  IF Len(acc) = n THEN [b |-> b, qs |-> acc]
  ELSE LET last == IF Len(acc) = n - 1 THEN 1 ELSE BitAt(d, b + 2) b1 == b + (IF Len(acc) = n - 1 THEN 2 ELSE 3) IN
    QHeads(d, b1 + 4, n, Append(acc, <<BitsAt(d, b, 2), last, BitsAt(d, b1, 4)>>))
(* a count of up to four bytes, saturating                                   *)
RECURSIVE Count4(_, _, _, _)
Count4(d, b, i, v) ==
  IF i = 4 THEN <<v, b>>
  ELSE IF BitAt(d, b) = 0 THEN <<v, b + 1>>
  ELSE LET x == BitsAt(d, b + 1, 8) IN Count4(d, b + 9, i + 1, IF i = 3 /\ x >= 64 THEN Big ELSE Hi(v + x * P2[8 * i]))
Ids(d, b, n) ==
  LET k == BitsAt(d, b, 2) z == [i \in 1..n |-> 0] IN
  CASE k = 0 -> IF n < 3 THEN No ELSE [ok |-> TRUE, b |-> b + 2, id |-> [i \in 1..n |-> IF i <= 3 THEN i ELSE 0]]
    [] k = 1 -> [ok |-> TRUE, b |-> b + 2, id |-> [z EXCEPT ![1] = 1]]
    [] k = 2 -> IF n < 3 THEN No ELSE [ok |-> TRUE, b |-> b + 2, id |-> [i \in 1..n |-> IF i = 1 THEN 82 ELSE IF i = 2 THEN 71 ELSE IF i = 3 THEN 66 ELSE 0]]
    [] OTHER -> [ok |-> TRUE, b |-> b + 2 + 8 * n, id |-> [i \in 1..n |-> BitsAt(d, b + 2 + 8 * (i - 1), 8)]]
RECURSIVE Between(_, _, _, _)
Between(d, p, n, acc) ==              \* data between markers
  IF n = 0 THEN [ok |-> p = Len(d) + 1, between |-> acc]
  ELSE LET k == NumAt(d, p) len == GVal(k[1], 0) IN
    IF k[1] = <<>> \/ len > Len(d) \/ k[2] + len - 1 > Len(d) THEN No
    ELSE Between(d, k[2] + len, n - 1, Append(acc, SubSeq(d, k[2], k[2] + len - 1)))
PadLimit(hd) == 7 * ((hd.w + 15) \div 8) * ((hd.h + 15) \div 8) * hd.n + 256
Internals(d, hd) ==
  LET m == Markers(d) dri == 221 \in ToSet(m.ms) b1 == m.b + (IF dri THEN 16 ELSE 0) IN
  IF Over(d, b1) \/ m.ms[Len(m.ms)] # 217 THEN No
  ELSE LET h == HuffCodes(d, b1, <<>>) IN
    IF ~h.ok \/ Cardinality({i \in 1..Len(h.codes) : h.codes[i][2] = 1}) # Count(m.ms, 196) THEN No
    ELSE LET s == ScansOf(d, h.b, Count(m.ms, 218), <<>>) IN
      IF ~s.ok THEN No
      ELSE LET q == QHeads(d, s.b + 2, BitsAt(d, s.b, 2) + 1, <<>>) ids == Ids(d, q.b, hd.n) IN
        IF ~ids.ok \/ (\E i \in 1..Len(q.qs) : q.qs[i][3] > 1) THEN No
        ELSE LET np == Count4(d, ids.b, 0, 0) e == np[2] + np[1] IN
          IF Over(d, np[2]) \/ np[1] > PadLimit(hd) \/ Over(d, e) THEN No
          ELSE IF (e % 8) # 0 /\ BitsAt(d, e, 8 - (e % 8)) # 0 THEN No
          ELSE LET t == Between(d, Up(e) + 1, Count(m.ms, 255), <<>>) IN
            IF ~t.ok THEN No
            ELSE [ok |-> TRUE, order |-> m.ms, ri |-> IF dri THEN BitsAt(d, m.b, 16) ELSE 0, huff |-> h.codes, scans |-> s.scans, qs |-> q.qs, id |-> ids.id,
                  pads |-> [i \in 1..np[1] |-> BitAt(d, np[2] + i - 1)], between |-> t.between]

-----------------------------------------------------------------------------
(* Quantization values.                                                      *)
Clip(x) == IF x < 1 THEN 1 ELSE IF x > 255 THEN 255 ELSE x
BaseTable(chroma, q) == [i \in 1..64 |-> Clip((QuantBase[chroma + 1][i] * q + 32) \div 64)]
Table(d, b, i) ==
  IF BitAt(d, b) = 0 THEN
    [ok |-> TRUE, b |-> b + 4, prec |-> 0, t |-> IF i = 1 THEN StockQuantLuma[BitsAt(d, b + 1, 3) + 1] ELSE StockQuantChroma[BitsAt(d, b + 1, 3) + 1]]
  ELSE LET base == TLCEval(BaseTable(IF i = 1 THEN 0 ELSE 1, BitsAt(d, b + 1, 6)))
           r == Loop(LAMBDA x, j : IF ~x.ok THEN x ELSE TLCEval(
                  LET diff == BitAt(d, x.b) = 1
                      v == IF diff THEN Var(d, x.b + 2, 16, 0, 0) ELSE <<0, x.b + 1>>
                      dl == IF ~diff THEN x.dl ELSE IF BitAt(d, x.b + 1) = 1 THEN x.dl - v[1] - 1 ELSE x.dl + v[1] + 1
                      k == NaturalOrder[j] + 1 q == base[k] + dl IN
                  [ok |-> q \in 1..65535, b |-> v[2], dl |-> dl, prec |-> IF q >= 256 THEN 1 ELSE x.prec, t |-> [x.t EXCEPT ![k] = q]]),
                64, [ok |-> TRUE, b |-> b + 7, dl |-> 0, prec |-> 0, t |-> base]) IN
    IF ~r.ok THEN No ELSE [ok |-> TRUE, b |-> r.b, prec |-> r.prec, t |-> r.t]
RECURSIVE Tabs(_, _, _, _)
Tabs(d, b, qs, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(qs) THEN [ok |-> TRUE, b |-> b, ts |-> acc]
  ELSE LET t == Table(d, b, i) IN IF ~t.ok \/ t.prec > qs[i][3] \/ Over(d, t.b) THEN No ELSE Tabs(d, t.b, qs, Append(acc, t.t))
Quant(d, hd, qs) ==
  IF BitsAt(d, 0, 2) + 1 # Len(qs) THEN No
  ELSE LET t == Tabs(d, 2, qs, <<>>) IN
    IF ~t.ok THEN No
    ELSE LET ix == [i \in 1..hd.n |-> BitsAt(d, t.b + 2 * (i - 1), 2)] e == t.b + 2 * hd.n IN
      IF (\E i \in 1..hd.n : ix[i] >= Len(qs)) \/ Over(d, e) \/ ~RestZero(d, e) \/ Up(e) # Len(d) THEN No
      ELSE [ok |-> TRUE, ts |-> t.ts, ix |-> ix]

-----------------------------------------------------------------------------
(* Context map and histograms.                                               *)
RECURSIVE HistsAt(_, _, _, _)
HistsAt(d, b, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, b |-> b, tabs |-> acc]
  ELSE LET h == Histogram1(d, b) IN
    IF ~h.ok THEN No ELSE HistsAt(d, h.b, n - 1, Append(acc, AnsTable(h.counts)))
Histograms(d, hd) ==
  LET sch == [i \in 1..hd.n |-> BitsAt(d, 3 * (i - 1), 3)] IN
  IF \E i \in 1..hd.n : sch[i] > 6 THEN No
  ELSE LET off == [i \in 1..hd.n |-> hd.n + Sum([j \in 1..(i - 1) |-> NumNonzeroSkip[sch[j] + 1]])]
           all == hd.n + Sum([j \in 1..hd.n |-> NumNonzeroSkip[sch[j] + 1]])
           m == ContextMap(d, 3 * hd.n, 9 * all) IN
    IF ~m.ok THEN No
    ELSE LET h == HistsAt(d, m.b, m.hs, <<>>) IN
      IF ~h.ok \/ ~RestZero(d, h.b) \/ Up(h.b) # Len(d) THEN No
      ELSE [ok |-> TRUE, sch |-> sch, off |-> off, map |-> m.map, tabs |-> h.tabs]

-----------------------------------------------------------------------------
(* Coefficients.  Components hold their blocks in raster order: cf[n] the 64 *)
(* coefficients in natural order, some[n] whether there are any, res[n] the  *)
(* DC residual, nz[n] the number of AC coefficients.                         *)
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x = 0 THEN 0 ELSE IF x > 0 THEN 1 ELSE 2
Wrap(x) == ((x + 32768) % 65536) - 32768
LogCap(n, top) == IF n >= P2[top] THEN top ELSE Log2(n)
(* a decoding step: v value, e decoder state                                 *)
Arith1(d, e, pr) == ArithBit(d, e, pr.pr)
(* magnitude of a nonzero value: sign and symbol already known               *)
Tail1(d, e, code, pr) ==              \* code >= 8: <<magnitude, decoder, probability>>
  LET nb == code - 8 f == Arith1(d, e, pr) x == IF nb = 0 THEN <<0, f[2]>> ELSE PlainBits(d, f[2], nb) IN
  <<7 + 2 * P2[nb] + f[1] * P2[nb] + x[1], x[2], PAdd(pr, f[1])>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Median(w, n, nw) == IF nw > Max2(w, n) THEN Min2(w, n) ELSE IF nw < Min2(w, n) THEN Max2(w, n) ELSE n + w - nw

Zeros == TLCEval([i \in 1..64 |-> 0])
DcProbs == TLCEval([some |-> [i \in 1..3 |-> PInit(74)], zero |-> PInit(135), sign |-> [i \in 1..9 |-> PInit(128)], extra |-> [i \in 1..10 |-> PInit(150)]])
AcProbs == TLCEval([nz |-> [i \in 1..32 |-> [j \in 1..63 |-> PInit(InitNonzero[i][j])]],
                    zero |-> [b \in 1..11 |-> [k \in 1..64 |-> PInit(InitZero[k] + 9 * (b - 1 - 7))]],
                    sign |-> [s \in 1..17 |-> [k \in 1..64 |-> PInit(IF s - 1 < 8 THEN 108 ELSE IF s - 1 = 8 THEN 128 ELSE 148)]],
                    extra |-> [k \in 1..64 |-> [b \in 1..10 |-> PInit(158)]]])

DcBlock(d, s, i, x, y) ==             \* s: e decoder, c components
  LET c == s.c[i] w == s.hd.wb[i] n == y * w + x + 1
      at(q, u, v) == IF u < 0 \/ v < 0 \/ u >= w THEN 0 ELSE q[v * w + u + 1]
      ctx == (IF x = 0 \/ at(c.some, x - 1, y) = 1 THEN 1 ELSE 0) + (IF y = 0 \/ at(c.some, x, y - 1) = 1 THEN 1 ELSE 0) + 1
      a == Arith1(d, s.e, c.dp.some[ctx])
      p1 == [c.dp EXCEPT !.some[ctx] = PAdd(@, a[1])]
      pred == CASE x = 0 /\ y = 0 -> 0 [] y = 0 -> at(c.dc, x - 1, 0) [] x = 0 -> at(c.dc, 0, y - 1)
                [] OTHER -> Median(at(c.dc, x - 1, y), at(c.dc, x, y - 1), at(c.dc, x - 1, y - 1))
      out(res, e, p) == [s EXCEPT !.e = e, !.c[i] = [c EXCEPT !.dp = p, !.some = Append(@, a[1]), !.res = Append(@, res), !.dc = Append(@, Wrap(res + pred))]] IN
  IF a[1] = 0 THEN out(0, a[2], p1)
  ELSE LET z == Arith1(d, a[2], c.dp.zero) p2 == [p1 EXCEPT !.zero = PAdd(@, z[1])] IN
    IF z[1] = 1 THEN out(0, z[2], p2)
    ELSE LET avg == LogCap(1 + Abs(at(c.res, x - 2, y)) + Abs(at(c.res, x - 1, y)) + Abs(at(c.res, x, y - 1)) + Abs(at(c.res, x + 1, y - 1)), 8)
             sc == 3 * Sgn(at(c.res, x, y - 1)) + Sgn(at(c.res, x - 1, y)) + 1
             g == Arith1(d, z[2], p2.sign[sc])
             p3 == [p2 EXCEPT !.sign[sc] = PAdd(@, g[1])]
             q == AnsSymbol(d, g[2], s.hist.tabs[s.hist.map[9 * (i - 1) + avg + 1] + 1])
             m == IF q[1] < 8 THEN <<q[1] + 1, q[2], P0>> ELSE Tail1(d, q[2], q[1], p3.extra[q[1] - 7])
             p4 == IF q[1] < 8 THEN p3 ELSE [p3 EXCEPT !.extra[q[1] - 7] = m[3]] IN
      out(IF g[1] = 1 THEN -m[1] ELSE m[1], m[2], p4)

(* the order in which a component's coefficients come                        *)
RECURSIVE Place(_, _, _)
Place(d, e, v) == IF v > 64 THEN <<v, e>> ELSE LET r == PlainBits(d, e, 3) IN IF r[1] < 7 THEN <<v + r[1], r[2]>> ELSE Place(d, r[2], v + 7)
Spans(d, e0) ==
  Loop(LAMBDA x, g : TLCEval(
    LET f == PlainBits(d, x.e, 1) IN
    IF f[1] = 0 THEN [x EXCEPT !.e = f[2]]
    ELSE FoldLeft(LAMBDA y, j : IF ~y.ok THEN y ELSE TLCEval(LET v == Place(d, y.e, 0) IN IF v[1] > 64 THEN [y EXCEPT !.ok = FALSE] ELSE [y EXCEPT !.e = v[2], !.v[j + 1] = v[1]]),
                  [x EXCEPT !.e = f[2]], SelectSeq([j \in 1..16 |-> 16 * (g - 1) + j - 1], LAMBDA j : j >= 1))),
    4, [ok |-> TRUE, e |-> e0, v |-> Zeros])
Order(d, e) ==
  LET x == Spans(d, e) S == {j \in 1..63 : x.v[j + 1] # 0} end == IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j IN
  IF ~x.ok THEN No
  ELSE IF end > 0 /\ (x.v[end + 1] = 1 \/ \E j \in 1..end : x.v[j + 1] = 0) THEN No
  ELSE LET u == Unlehmer([j \in 1..64 |-> j - 1], [j \in 1..64 |-> IF j >= 2 /\ j <= end + 1 THEN x.v[j] - 1 ELSE x.v[j]]) IN
    IF \E j \in 1..Len(u) : u[j] < 0 THEN No
    ELSE [ok |-> TRUE, e |-> x.e, ord |-> [j \in 1..64 |-> NaturalOrder[u[j] + 1]]]
RECURSIVE Orders(_, _, _, _)
Orders(d, e, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, e |-> e, ords |-> acc]
  ELSE LET o == Order(d, e) IN IF ~o.ok THEN No ELSE Orders(d, o.e, n - 1, Append(acc, TLCEval(o.ord)))

(* how well the neighbour across an edge predicts: mixes of the cosine terms *)
(* along the edge, scaled by quantization ratios times sqrt(2), 13 bits.     *)
Ratio(t, k, e) == (t[k + 1] * 11585) \div t[e + 1]
Mix(cur, prev, m, base, step) ==      \* sum over the edge, divided by 8192 towards zero
  LET tm(i) == IF (i % 2) = 1 THEN cur[base + i * step + 1] + prev[base + i * step + 1] ELSE cur[base + i * step + 1] - prev[base + i * step + 1]
      h2 == FoldLeft(LAMBDA a, i : a + tm(i) * (m[i] \div 8388608), 0, <<1, 2, 3, 4, 5, 6, 7>>)
      h1 == FoldLeft(LAMBDA a, i : a + tm(i) * ((m[i] \div 8192) % 1024), 0, <<1, 2, 3, 4, 5, 6, 7>>)
      lo == FoldLeft(LAMBDA a, i : a + tm(i) * (m[i] % 8192), 0, <<1, 2, 3, 4, 5, 6, 7>>)
      t == h2 * 1024 + h1 + lo \div 8192 IN
  IF h2 > 65536 THEN Big ELSE IF h2 < -65536 THEN -Big ELSE IF t >= 0 \/ (lo % 8192) = 0 THEN t ELSE t + 1
EdgeCtx(p) ==                         \* <<average context, sign context>>
  LET a == IF Abs(p) >= 256 THEN 8 ELSE Log2(2 * Abs(p) + 1) IN <<a, IF p >= 0 THEN 8 + a ELSE 8 - a>>
RowMults(t) == TLCEval([x \in 1..7 |-> [i \in 1..7 |-> Ratio(t, x + 8 * i, x)]])      \* of the column x
ColMults(t) == TLCEval([y \in 1..7 |-> [i \in 1..7 |-> Ratio(t, 8 * y + i, 8 * y)]])  \* of the row y

NzCtx(c, w, x, y) ==
  (CASE y = 0 /\ x = 0 -> 0 [] y = 0 -> c.nz[x] [] x = 0 -> c.nz[(y - 1) * w + 1]
     [] OTHER -> (c.nz[y * w + x] + c.nz[(y - 1) * w + x + 1] + 1) \div 2) \div 2 + 1

Coefficient(d, s, nb, y0, x0, k, x) ==   \* x: e decoder, p probabilities, cf, num; nb the neighbours
  LET kn == nb.ord[k + 1]
      bucket == NonzeroBuckets[IF x.num = 0 THEN 1 ELSE x.num] + 1
      z == IF k = nb.last THEN <<0, x.e>> ELSE Arith1(d, x.e, x.p.zero[bucket][k + 1])
      pz == IF k = nb.last THEN x.p ELSE [x.p EXCEPT !.zero[bucket][k + 1] = PAdd(@, z[1])] IN
  IF z[1] = 1 THEN [x EXCEPT !.e = z[2], !.p = pz]
  ELSE LET type == ContextAlgorithm[IF s.hd.old THEN 2 ELSE 1][kn + 1]
           row == (kn % 8) col == kn \div 8
           of(b) == b[kn + 1]
           ctx == IF (type % 2) = 1 /\ y0 > 0 THEN EdgeCtx(nb.up[row + 1] - Mix(x.cf, nb.up, nb.rm[row], row, 8))
                  ELSE IF type >= 2 /\ x0 > 0 THEN EdgeCtx(nb.left[8 * col + 1] - Mix(x.cf, nb.left, nb.cm[col], 8 * col, 1))
                  ELSE IF type = 0 THEN
                    <<LogCap(4 + Abs(of(nb.up2)) + 2 * (Abs(of(nb.left)) + Abs(of(nb.up))) + Abs(of(nb.left2)) + Abs(of(nb.upleft)) + Abs(of(nb.upright)), 10) - 2,
                      3 * Sgn(of(nb.up)) + Sgn(of(nb.left))>>
                  ELSE <<0, 8>>
           g == Arith1(d, z[2], pz.sign[ctx[2] + 1][k + 1])
           pg == [pz EXCEPT !.sign[ctx[2] + 1][k + 1] = PAdd(@, g[1])]
           zd == NumNonzeroContext[nb.sch + 1][x.num + 1] + FreqContext[nb.sch + 1][k + 1]
           q == AnsSymbol(d, g[2], s.hist.tabs[s.hist.map[9 * (nb.off + zd) + ctx[1] + 1] + 1])
           m == IF q[1] < 8 THEN <<q[1] + 1, q[2], P0>> ELSE Tail1(d, q[2], q[1], pg.extra[k + 1][q[1] - 7])
           pm == IF q[1] < 8 THEN pg ELSE [pg EXCEPT !.extra[k + 1][q[1] - 7] = m[3]] IN
    [e |-> m[2], p |-> pm, cf |-> [x.cf EXCEPT ![kn + 1] = IF g[1] = 1 THEN -m[1] ELSE m[1]], num |-> x.num + 1]
RECURSIVE NzTree(_, _, _, _, _)
NzTree(d, e, ps, node, bits) ==       \* <<count, decoder, probabilities>>
  IF bits = 0 THEN <<node - 64, e, ps>>
  ELSE LET a == Arith1(d, e, ps[node]) IN NzTree(d, a[2], [ps EXCEPT ![node] = PAdd(@, a[1])], 2 * node + a[1], bits - 1)
AcBlock(d, s, i, x, y) ==
  LET c == s.c[i] w == s.hd.wb[i] n == y * w + x + 1
      at(u, v) == IF u < 0 \/ v < 0 \/ u >= w THEN Zeros ELSE c.cf[v * w + u + 1]
      dc == [Zeros EXCEPT ![1] = c.dc[n]] IN
  IF c.some[n] = 0 THEN [s EXCEPT !.c[i] = [c EXCEPT !.cf = Append(@, dc), !.nz = Append(@, 0)]]
  ELSE LET ctx == NzCtx(c, w, x, y)
           t == NzTree(d, s.e, c.ap.nz[ctx], 1, 6)
           nb == [ord |-> s.ords[i], last |-> t[1], up |-> at(x, y - 1), up2 |-> at(x, y - 2), left |-> at(x - 1, y), left2 |-> at(x - 2, y),
                  upleft |-> at(x - 1, y - 1), upright |-> at(x + 1, y - 1), rm |-> c.rm, cm |-> c.cm, sch |-> s.hist.sch[i], off |-> s.hist.off[i]]
           r == Loop(LAMBDA a, j : TLCEval(Coefficient(d, s, nb, y, x, t[1] + 1 - j, a)), t[1],
                     [e |-> t[2], p |-> [c.ap EXCEPT !.nz[ctx] = t[3]], cf |-> dc, num |-> 0]) IN
    [s EXCEPT !.e = r.e, !.c[i] = [c EXCEPT !.ap = r.p, !.cf = Append(@, r.cf), !.nz = Append(@, r.num)]]

(* order of blocks: rows of MCUs, components, rows within, left to right     *)
Walk(hd) == FlattenSeq([m \in 1..hd.rows |-> FlattenSeq([i \in 1..hd.n |-> FlattenSeq([r \in 1..hd.vs[i] |->
              [x \in 1..hd.wb[i] |-> <<i, x - 1, (m - 1) * hd.vs[i] + r - 1>>]])])])

(* reading of everything before the coefficients; meta: unpacked metadata    *)
Begin(d, meta) ==
  LET sec == Sections(d) IN
  IF ~sec.ok THEN No
  ELSE IF sec.raw THEN sec
  ELSE LET hd == sec.hd b == sec.body int == Internals(b[4], hd) mt == Meta!Parse(meta.raw) IN
    IF ~int.ok \/ ~meta.intact \/ ~mt.ok THEN No
    ELSE LET q == Quant(b[5], hd, int.qs) h == Histograms(b[6], hd) IN
      IF ~q.ok \/ ~h.ok \/ (Len(b[7]) % 2) = 1 \/ (Len(b[8]) % 2) = 1 THEN No
      ELSE [ok |-> TRUE, raw |-> FALSE, hd |-> hd, int |-> int, mt |-> mt, q |-> q, hist |-> h, dcb |-> b[7], acb |-> b[8], e |-> E0(b[7]), ords |-> <<>>, walk |-> TLCEval(Walk(hd)),
            c |-> [i \in 1..hd.n |-> [some |-> <<>>, res |-> <<>>, dc |-> <<>>, nz |-> <<>>, cf |-> <<>>, dp |-> DcProbs, ap |-> AcProbs,
                                      rm |-> RowMults(q.ts[q.ix[i] + 1]), cm |-> ColMults(q.ts[q.ix[i] + 1])]]]
DcStep(s, n) == LET p == s.walk[n] IN DcBlock(s.dcb, s, p[1], p[2], p[3])
Turn(s) ==                            \* from DC to AC
  IF ~Ends(s.dcb, s.e) THEN No
  ELSE LET o == Orders(s.acb, E0(s.acb), s.hd.n, <<>>) IN IF ~o.ok THEN No ELSE [s EXCEPT !.e = o.e, !.ords = o.ords]
AcStep(s, n) == LET p == s.walk[n] IN AcBlock(s.acb, s, p[1], p[2], p[3])
(* the whole                                                                 *)
Image(s) ==
  [w |-> s.hd.w, h |-> s.hd.h, comps |-> [i \in 1..s.hd.n |-> <<s.int.id[i], s.hd.hs[i], s.hd.vs[i], s.q.ix[i]>>], order |-> s.int.order, ri |-> s.int.ri,
   huff |-> s.int.huff, scans |-> s.int.scans, quant |-> [i \in 1..Len(s.int.qs) |-> s.int.qs[i] \o <<s.q.ts[i]>>], pads |-> s.int.pads, between |-> s.int.between,
   app |-> s.mt.app, com |-> s.mt.com, tail |-> s.mt.tail, cf |-> [i \in 1..s.hd.n |-> s.c[i].cf]]
=============================================================================
