----------------------------- MODULE JpegReader -----------------------------
(***************************************************************************)
(* An executable reading of JPEG files (ITU T.81 baseline and progressive  *)
(* Huffman coding) within the limits Brunsli documents: which byte strings *)
(* are accepted and what a faithful reader reports about them.             *)
(*                                                                         *)
(* Data is a sequence of bytes, positions are 0-based.  The parser is a    *)
(* record p; NextP is one transition: one marker segment or one MCU.       *)
(* Modes: "A" whole file, "H" stop after the frame header, "T" tables and  *)
(* frame header only (scan data is passed over by searching for markers).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Nat0 == <<0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37,
          44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63>>
Nat1(k) == Nat0[k + 1] + 1        \* zigzag index 0..63 -> 1-based natural position
Pow2 == TLCEval([i \in 0..30 |-> 2^i])
Zero64 == TLCEval([i \in 1..64 |-> 0])
MaxBlocks == 2097152

B(d, i) == d[i + 1]
W(d, i) == d[i + 1] * 256 + d[i + 2]
DivUp(a, b) == (a + b - 1) \div b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Markers == {192, 193, 194, 196, 217, 218, 219, 221, 254} \cup 208..215 \cup 224..239
(* position of the next marker at or after i, or -1 *)
RECURSIVE FindMarker(_, _)
FindMarker(d, i) == IF i + 1 >= Len(d) THEN -1 ELSE IF B(d, i) = 255 /\ B(d, i + 1) \in Markers THEN i ELSE FindMarker(d, i + 1)

P0 == [st |-> "soi", pos |-> 0, w |-> 0, h |-> 0, sof |-> 0, comps |-> <<>>, quant |-> <<>>, huff |-> <<>>, tabs |-> <<>>, ri |-> 0, dri |-> FALSE, scans |-> <<>>,
       low |-> <<>>, coef |-> <<>>, app |-> <<>>, com |-> <<>>, inter |-> <<>>, markers |-> <<>>, pads |-> <<>>, tail |-> <<>>, s |-> <<>>]
Reject(p) == [st |-> "bad"]

-----------------------------------------------------------------------------
(* Segments.  i is the position of the length field, n its value.           *)
SofP(p, d, i, m, mode) ==
  IF i + 8 > Len(d) THEN Reject(p)
  ELSE LET n == W(d, i) h == W(d, i + 3) w == W(d, i + 5) nc == B(d, i + 7) IN
  IF p.w # 0 \/ B(d, i + 2) # 8 \/ h = 0 \/ w = 0 \/ nc \notin 1..4 \/ n # 8 + 3 * nc \/ i + n > Len(d) THEN Reject(p)
  ELSE LET c == [k \in 1..nc |-> [id |-> B(d, i + 5 + 3 * k), h |-> B(d, i + 6 + 3 * k) \div 16, v |-> B(d, i + 6 + 3 * k) % 16, tq |-> B(d, i + 7 + 3 * k)]] IN
  IF \E k \in 1..nc : c[k].h = 0 \/ c[k].v = 0 \/ \E j \in 1..nc : j # k /\ c[j].id = c[k].id THEN Reject(p)
  ELSE LET mh == MaxOf({c[k].h : k \in 1..nc}) mv == MaxOf({c[k].v : k \in 1..nc})
           cols == DivUp(w, 8 * mh) rows == DivUp(h, 8 * mv)
           cc == [k \in 1..nc |-> [id |-> c[k].id, h |-> c[k].h, v |-> c[k].v, tq |-> c[k].tq, wb |-> cols * c[k].h, hb |-> rows * c[k].v,
                                   sw |-> DivUp(w * c[k].h, 8 * mh), sh |-> DivUp(h * c[k].v, 8 * mv)]] IN
  IF \E k \in 1..nc : mh % c[k].h # 0 \/ mv % c[k].v # 0 \/ cc[k].wb * cc[k].hb > MaxBlocks THEN Reject(p)
  ELSE [p EXCEPT !.pos = i + n, !.w = w, !.h = h, !.sof = m, !.comps = cc,
                 !.low = [k \in 1..nc |-> [j \in 0..63 |-> 16]],
                 !.coef = IF mode = "A" THEN [k \in 1..nc |-> [b \in 1..(cc[k].wb * cc[k].hb) |-> Zero64]] ELSE <<>>]

(* One Huffman table: 16 counts, then the values.  The code made of all ones *)
(* at the greatest length has to stay free.                                  *)
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)
RECURSIVE KraftOf(_, _)
KraftOf(q, n) == IF n = 0 THEN 0 ELSE q[n] * Pow2[16 - n] + KraftOf(q, n - 1)
RECURSIVE MinCodes(_, _, _, _)
MinCodes(q, n, code, acc) == IF n > 16 THEN acc ELSE MinCodes(q, n + 1, (code + q[n]) * 2, Append(acc, code))
RECURSIVE Offs(_, _, _, _)
Offs(q, n, o, acc) == IF n > 16 THEN acc ELSE Offs(q, n + 1, o + q[n], Append(acc, o))
RECURSIVE DhtP(_, _, _, _)
DhtP(p, d, i, end) ==
  IF i = end THEN [p EXCEPT !.pos = end]
  ELSE IF i > end \/ i + 17 > Len(d) THEN Reject(p)
  ELSE LET slot == B(d, i) cnt == [k \in 1..16 |-> B(d, i + k)] n == SumSeq(cnt, 16)
           deep == IF n = 0 THEN 1 ELSE MaxOf({k \in 1..16 : cnt[k] > 0}) IN
    IF slot \notin (0..3) \cup (16..19) \/ n > (IF slot < 16 THEN 12 ELSE 256) \/ i + 17 + n > Len(d) THEN Reject(p)
    ELSE LET vals == SubSeq(d, i + 18, i + 17 + n) IN
      IF KraftOf(cnt, 16) + Pow2[16 - deep] > 65536 \/ Cardinality({vals[k] : k \in 1..n}) # n \/ (slot < 16 /\ \E k \in 1..n : vals[k] > 11) THEN Reject(p)
      ELSE DhtP([p EXCEPT !.huff = Append(@, [slot |-> slot, cnt |-> cnt, vals |-> vals, last |-> i + 17 + n = end]),
                          !.tabs = [k \in DOMAIN @ \cup {slot} |-> IF k = slot THEN [cnt |-> cnt, vals |-> vals, mn |-> MinCodes(cnt, 1, 0, <<>>), off |-> Offs(cnt, 1, 0, <<>>)] ELSE @[k]]],
                d, i + 17 + n, end)
RECURSIVE DqtP(_, _, _, _)
DqtP(p, d, i, end) ==
  IF i = end THEN [p EXCEPT !.pos = end]
  ELSE IF i > end \/ i + 1 > Len(d) \/ Len(p.quant) = 4 THEN Reject(p)
  ELSE LET prec == B(d, i) \div 16 idx == B(d, i) % 16 n == 64 * (prec + 1) IN
    IF prec > 1 \/ idx > 3 \/ i + 1 + n > Len(d) THEN Reject(p)
    ELSE LET z == [k \in 0..63 |-> IF prec = 1 THEN W(d, i + 1 + 2 * k) ELSE B(d, i + 1 + k)] IN
      IF \E k \in 0..63 : z[k] = 0 THEN Reject(p)
      ELSE DqtP([p EXCEPT !.quant = Append(@, [idx |-> idx, prec |-> prec, last |-> i + 1 + n = end,
                                               vals |-> [q \in 1..64 |-> z[CHOOSE k \in 0..63 : Nat1(k) = q]]])], d, i + 1 + n, end)
MetaP(p, d, i, m) ==
  IF i + 2 > Len(d) THEN Reject(p)
  ELSE LET n == W(d, i) IN
    IF n < 2 \/ i + n > Len(d) THEN Reject(p)
    ELSE IF m = 254 THEN [p EXCEPT !.pos = i + n, !.com = Append(@, SubSeq(d, i, i + n))]
    ELSE [p EXCEPT !.pos = i + n, !.app = Append(@, SubSeq(d, i, i + n))]
SkipP(p, d, i) == IF i + 2 > Len(d) \/ W(d, i) < 2 \/ i + W(d, i) > Len(d) THEN Reject(p) ELSE [p EXCEPT !.pos = i + W(d, i)]

-----------------------------------------------------------------------------
(* Entropy coded data from position i: unstuffed bytes and their positions   *)
(* (off[n] is the position after n - 1 bytes).                               *)
RECURSIVE Ent(_, _, _, _)
Ent(d, i, e, off) ==
  IF i >= Len(d) - 2 \/ (B(d, i) = 255 /\ B(d, i + 1) # 0) THEN [e |-> e, off |-> off]
  ELSE LET j == IF B(d, i) = 255 THEN i + 2 ELSE i + 1 IN Ent(d, j, Append(e, B(d, i)), Append(off, j))

SosP(p, d, i) ==
  IF i + 3 > Len(d) THEN Reject(p)
  ELSE LET n == W(d, i) ns == B(d, i + 2) IN
  IF ns \notin 1..Len(p.comps) \/ n # 6 + 2 * ns \/ i + n > Len(d) THEN Reject(p)
  ELSE LET id(k) == B(d, i + 1 + 2 * k) tb(k) == B(d, i + 2 + 2 * k)
           ss == B(d, i + 3 + 2 * ns) se == B(d, i + 4 + 2 * ns) ah == B(d, i + 5 + 2 * ns) \div 16 al == B(d, i + 5 + 2 * ns) % 16
           ci(k) == CHOOSE j \in 1..Len(p.comps) : p.comps[j].id = id(k)
           prog == p.sof = 194
           Ss == IF prog THEN ss ELSE 0  Se == IF prog THEN se ELSE 63  Ah == IF prog THEN ah ELSE 0  Al == IF prog THEN al ELSE 0 IN
  IF \/ \E k \in 1..ns : ~\E j \in 1..Len(p.comps) : p.comps[j].id = id(k)
     \/ \E k, j \in 1..ns : k # j /\ id(k) = id(j)
     \/ \E k \in 1..ns : tb(k) \div 16 > 3 \/ tb(k) % 16 > 3
     \/ ss > 63 \/ se > 63 \/ se < ss
     \/ ss = 0 /\ \E k \in 1..ns : (tb(k) \div 16) \notin DOMAIN p.tabs
     \/ se > 0 /\ \E k \in 1..ns : (16 + (tb(k) % 16)) \notin DOMAIN p.tabs
     \/ Al > 10
  THEN Reject(p)
  ELSE LET sc == [k \in 1..ns |-> <<ci(k), tb(k) \div 16, tb(k) % 16>>]
           ok(k, j) == IF Ah = 0 THEN p.low[sc[k][1]][j] = 16 ELSE p.low[sc[k][1]][j] > Al
           c1 == p.comps[sc[1][1]]
           mh == MaxOf({p.comps[k].h : k \in 1..Len(p.comps)}) mv == MaxOf({p.comps[k].v : k \in 1..Len(p.comps)})
           en == Ent(d, i + n, <<>>, <<i + n>>) IN
    IF \E k \in 1..ns : \E j \in Ss..Se : ~ok(k, j) THEN Reject(p)
    ELSE [p EXCEPT !.st = "scan", !.pos = i + n,
            !.low = [k \in 1..Len(p.comps) |-> IF \E q \in 1..ns : sc[q][1] = k THEN [j \in 0..63 |-> IF j \in Ss..Se THEN Al ELSE @[k][j]] ELSE @[k]],
            !.s = [raw |-> <<ss, se, ah, al>>, Ss |-> Ss, Se |-> Se, Ah |-> Ah, Al |-> Al, sc |-> sc,
                   mw |-> IF ns > 1 THEN DivUp(p.w, 8 * mh) ELSE c1.sw, mh |-> IF ns > 1 THEN DivUp(p.h, 8 * mv) ELSE c1.sh,
                   mcu |-> 0, blk |-> 0, rst |-> 0, b |-> 0, e |-> en.e, off |-> en.off, run |-> 0, ended |-> FALSE, last |-> [k \in 1..Len(p.comps) |-> 0],
                   rp |-> <<>>, zr |-> <<>>]]

-----------------------------------------------------------------------------
(* Bits and symbols.  x.b is the bit position, e the bytes.                  *)
Bit(e, b) == (e[b \div 8 + 1] \div Pow2[7 - (b % 8)]) % 2
RECURSIVE Take(_, _, _, _)
Take(e, b, n, v) == IF n = 0 THEN v ELSE Take(e, b + 1, n - 1, 2 * v + Bit(e, b))
Enough(e, b, n) == b + n <= 8 * Len(e)
RECURSIVE Sym(_, _, _, _, _)
Sym(t, e, b, n, code) ==
  IF n > 16 \/ ~Enough(e, b, 1) THEN <<-1, b>>
  ELSE LET q == 2 * code + Bit(e, b) IN
    IF q - t.mn[n] < t.cnt[n] THEN <<t.vals[t.off[n] + q - t.mn[n] + 1], b + 1>> ELSE Sym(t, e, b + 1, n + 1, q)
Symbol(t, e, b) == Sym(t, e, b, 1, 0)
Extend(v, s) == IF v >= Pow2[s - 1] THEN v ELSE v - Pow2[s] + 1

(* x: the state inside one block *)
XBad == [ok |-> FALSE]
RECURSIVE FirstAc(_, _, _, _, _)
FirstAc(x, k, q, e, t) ==          \* q: scan record, t: AC table
  IF k > q.Se THEN x
  ELSE LET sy == Symbol(t, e, x.b) r == sy[1] \div 16 s == sy[1] % 16 IN
    IF sy[1] < 0 THEN XBad
    ELSE IF s > 0 THEN
      IF k + r > q.Se \/ s + q.Al > 11 \/ ~Enough(e, sy[2], s) THEN XBad
      ELSE FirstAc([x EXCEPT !.b = sy[2] + s, !.zr = 0, !.c[Nat1(k + r)] = Extend(Take(e, sy[2], s, 0), s) * Pow2[q.Al]], k + r + 1, q, e, t)
    ELSE IF r = 15 THEN FirstAc([x EXCEPT !.b = sy[2], !.zr = @ + 1], k + 16, q, e, t)
    ELSE IF r > 0 /\ (q.Ss = 0 \/ ~Enough(e, sy[2], r)) THEN XBad
    ELSE [x EXCEPT !.b = sy[2] + r, !.run = Pow2[r] + Take(e, sy[2], r, 0) - 1, !.eob = TRUE, !.reset = q.Ss > 0 /\ k = q.Ss /\ q.ended]
First(x0, q, e, dc, ac, last) ==
  LET d0 == IF q.Ss > 0 THEN [x0 EXCEPT !.dc = last]
            ELSE LET sy == Symbol(dc, e, x0.b) IN
              IF sy[1] < 0 THEN XBad
              ELSE IF ~Enough(e, sy[2], sy[1]) THEN XBad
              ELSE LET v == last + (IF sy[1] = 0 THEN 0 ELSE Extend(Take(e, sy[2], sy[1], 0), sy[1])) IN
                IF v * Pow2[q.Al] \notin -32768..32767 THEN XBad
                ELSE [x0 EXCEPT !.b = sy[2] + sy[1], !.dc = v, !.c[1] = v * Pow2[q.Al]]
      k0 == IF q.Ss = 0 THEN 1 ELSE q.Ss IN
  IF ~d0.ok \/ k0 > q.Se THEN d0
  ELSE IF q.run > 0 THEN [d0 EXCEPT !.run = q.run - 1, !.eob = TRUE]
  ELSE FirstAc(d0, k0, q, e, ac)

(* refinement of what is already nonzero, from k on: stops before the zero   *)
(* coefficient number r + 1, or after Se                                     *)
RECURSIVE Correct(_, _, _, _, _)
Correct(x, k, r, q, e) ==
  IF k > q.Se THEN [x EXCEPT !.k = k]
  ELSE LET v == x.c[Nat1(k)] IN
    IF v = 0 THEN IF r = 0 THEN [x EXCEPT !.k = k] ELSE Correct(x, k + 1, r - 1, q, e)
    ELSE IF ~Enough(e, x.b, 1) THEN XBad
    ELSE Correct([x EXCEPT !.b = @ + 1, !.c[Nat1(k)] = IF Bit(e, x.b) = 0 THEN v ELSE IF v > 0 THEN v + Pow2[q.Al] ELSE v - Pow2[q.Al]], k + 1, r, q, e)
RECURSIVE RefineAc(_, _, _, _, _, _)
RefineAc(x, k, zrl, q, e, t) ==
  IF k > q.Se THEN IF zrl THEN XBad ELSE x
  ELSE LET sy == Symbol(t, e, x.b) r == sy[1] \div 16 s == sy[1] % 16 IN
    IF sy[1] < 0 \/ s > 1 THEN XBad
    ELSE IF s = 1 THEN
      IF ~Enough(e, sy[2], 1) THEN XBad
      ELSE LET y == Correct([x EXCEPT !.b = sy[2] + 1], k, r, q, e) IN
        IF ~y.ok THEN XBad ELSE IF y.k > q.Se THEN XBad
        ELSE RefineAc([y EXCEPT !.c[Nat1(y.k)] = IF Bit(e, sy[2]) = 1 THEN Pow2[q.Al] ELSE -Pow2[q.Al]], y.k + 1, FALSE, q, e, t)
    ELSE IF r = 15 THEN LET y == Correct([x EXCEPT !.b = sy[2]], k, 15, q, e) IN IF ~y.ok THEN XBad ELSE RefineAc(y, y.k + 1, TRUE, q, e, t)
    ELSE IF r > 0 /\ (q.Ss = 0 \/ ~Enough(e, sy[2], r)) THEN XBad
    ELSE IF zrl THEN XBad                                                 \* a zero run before the end of block is not representable
    ELSE Correct([x EXCEPT !.b = sy[2] + r, !.run = Pow2[r] + Take(e, sy[2], r, 0) - 1, !.eob = TRUE, !.reset = q.Ss > 0 /\ k = q.Ss /\ q.ended], k, 64, q, e)
Refine(x0, q, e, ac) ==
  LET d0 == IF q.Ss > 0 THEN x0 ELSE IF ~Enough(e, x0.b, 1) THEN XBad
            ELSE [x0 EXCEPT !.b = @ + 1, !.c[1] = @ + Bit(e, x0.b) * Pow2[q.Al]]
      k0 == IF q.Ss = 0 THEN 1 ELSE q.Ss IN
  IF ~d0.ok \/ k0 > q.Se THEN d0
  ELSE IF q.run > 0 THEN Correct([d0 EXCEPT !.run = q.run - 1, !.eob = TRUE], k0, 64, q, e)
  ELSE RefineAc(d0, k0, FALSE, q, e, ac)

(* the blocks of MCU number m of the scan: pairs <<index in scan, block>>    *)
McuBlocks(p, q, m) ==
  IF Len(q.sc) = 1 THEN LET c == p.comps[q.sc[1][1]] IN <<<<1, (m \div q.mw) * c.wb + (m % q.mw) + 1>>>>
  ELSE FlattenSeq([k \in 1..Len(q.sc) |-> LET c == p.comps[q.sc[k][1]] IN
         [n \in 1..(c.h * c.v) |-> <<k, ((m \div q.mw) * c.v + (n - 1) \div c.h) * c.wb + (m % q.mw) * c.h + ((n - 1) % c.h) + 1>>]])
Tab(p, s) == IF s \in DOMAIN p.tabs THEN p.tabs[s] ELSE [cnt |-> [i \in 1..16 |-> 0], vals |-> <<>>, mn |-> [i \in 1..16 |-> 0], off |-> [i \in 1..16 |-> 0]]
BlockP(p, kb) ==
  IF p.st = "bad" THEN p
  ELSE LET q == p.s  ci == q.sc[kb[1]][1]  dc == Tab(p, q.sc[kb[1]][2])  ac == Tab(p, 16 + q.sc[kb[1]][3])
           x0 == [ok |-> TRUE, b |-> q.b, c |-> p.coef[ci][kb[2]], zr |-> 0, run |-> 0, eob |-> FALSE, reset |-> FALSE, dc |-> q.last[ci], k |-> 0]
           x == IF q.Ah = 0 THEN First(x0, q, q.e, dc, ac, q.last[ci]) ELSE Refine(x0, q, q.e, ac) IN
    IF ~x.ok THEN Reject(p)
    ELSE [p EXCEPT !.coef[ci][kb[2]] = x.c,
                   !.s = [q EXCEPT !.b = x.b, !.run = x.run, !.ended = x.eob /\ x.run = 0, !.last[ci] = x.dc, !.blk = @ + 1,
                          !.rp = IF x.reset THEN Append(@, q.blk) ELSE @,
                          !.zr = IF q.Ah = 0 /\ x.zr > 0 THEN @ \o <<q.blk, x.zr>> ELSE @]]
PadBits(q) == IF q.b % 8 = 0 THEN <<>> ELSE [i \in 1..(8 - (q.b % 8)) |-> Bit(q.e, q.b + i - 1)]
EndPos(q) == q.off[DivUp(q.b, 8) + 1]
McuP(p) ==
  LET p2 == FoldLeft(BlockP, p, McuBlocks(p, p.s, p.s.mcu)) IN
  IF p2.st = "bad" THEN p2 ELSE [p2 EXCEPT !.s.mcu = @ + 1]
RestartP(p, d) ==
  LET q == p.s i == EndPos(q) IN
  IF q.run > 0 \/ i + 2 > Len(d) THEN Reject(p)
  ELSE IF B(d, i) # 255 \/ B(d, i + 1) # 208 + q.rst THEN Reject(p)
  ELSE LET en == Ent(d, i + 2, <<>>, <<i + 2>>) IN
    [p EXCEPT !.pads = @ \o PadBits(q), !.s = [q EXCEPT !.rst = (@ + 1) % 8, !.b = 0, !.e = en.e, !.off = en.off, !.run = 0, !.ended = FALSE, !.last = [k \in DOMAIN @ |-> 0]]]
ScanP(p, d) ==
  LET q == p.s IN
  IF q.mcu = q.mw * q.mh
  THEN IF q.run > 0 THEN Reject(p)
       ELSE [p EXCEPT !.st = "marker", !.pos = EndPos(q), !.pads = @ \o PadBits(q), !.s = <<>>,
                      !.scans = Append(@, [raw |-> q.raw, sc |-> q.sc, rp |-> q.rp, zr |-> q.zr]), !.markers = Append(@, 218)]
  ELSE IF p.ri > 0 /\ q.mcu > 0 /\ q.mcu % p.ri = 0
       THEN LET p2 == RestartP(p, d) IN IF p2.st = "bad" THEN p2 ELSE McuP(p2)
       ELSE McuP(p)

-----------------------------------------------------------------------------
EndP(p, d, mode) ==
  IF p.w = 0 THEN Reject(p)
  ELSE IF mode # "A" THEN [p EXCEPT !.st = "done"]
  ELSE IF (\E k \in 1..Len(p.comps) : ~\E j \in 1..Len(p.quant) : p.quant[j].idx = p.comps[k].tq) \/ Len(p.huff) \notin 1..511 THEN Reject(p)
  ELSE [p EXCEPT !.st = "done", !.tail = SubSeq(d, p.pos + 1, Len(d))]
SegP(p, d, i, m, mode) ==      \* i: position after the marker
  CASE m \in 192..194 -> SofP(p, d, i, m, mode)
    [] m \in {196, 219} ->
         IF i + 2 > Len(d) \/ W(d, i) <= 2 THEN Reject(p)
         ELSE IF m = 196 THEN DhtP(p, d, i + 2, i + W(d, i)) ELSE DqtP(p, d, i + 2, i + W(d, i))
    [] m = 221 -> IF p.dri \/ i + 4 > Len(d) THEN Reject(p) ELSE IF W(d, i) # 4 THEN Reject(p) ELSE [p EXCEPT !.pos = i + 4, !.ri = W(d, i + 2), !.dri = TRUE]
    [] m = 254 \/ m \in 224..239 -> IF mode = "T" THEN SkipP(p, d, i) ELSE MetaP(p, d, i, m)
    [] OTHER -> [p EXCEPT !.pos = i]
MarkerP(p, d, mode) ==
  LET f == FindMarker(d, p.pos) IN
  IF f < 0 THEN Reject(p)
  ELSE LET m == B(d, f + 1)
           p1 == IF f = p.pos THEN p ELSE [p EXCEPT !.inter = Append(@, SubSeq(d, p.pos + 1, f)), !.markers = Append(@, 255)] IN
    IF m = 218 /\ mode = "A" THEN SosP(p1, d, f + 2)
    ELSE LET p2 == SegP(p1, d, f + 2, m, mode) IN
      IF p2.st = "bad" THEN p2
      ELSE LET p3 == [p2 EXCEPT !.markers = Append(@, m)] IN
        IF m = 217 \/ (mode = "H" /\ p3.w # 0) THEN EndP(p3, d, mode) ELSE p3
NextP(p, d, mode) ==
  CASE p.st = "soi" -> IF Len(d) < 2 THEN Reject(p) ELSE IF B(d, 0) # 255 \/ B(d, 1) # 216 THEN Reject(p) ELSE [p EXCEPT !.st = "marker", !.pos = 2]
    [] p.st = "marker" -> MarkerP(p, d, mode)
    [] p.st = "scan" -> ScanP(p, d)
Final(p) == p.st \in {"bad", "done"}
=============================================================================
