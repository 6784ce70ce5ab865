----------------------------- MODULE LayerTrace -----------------------------
(* Each case: what one coding layer's encoder was given, what it wrote, and  *)
(* what the matching decoder made of it.  The specification's own reading of  *)
(* the written bits must be what was given, end where the writer ended, and   *)
(* be what the real decoder found.                                            *)
EXTENDS Arith, Tables, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, s
vars == <<c, l, s>>
E == Cases[c]
UpBytes(n) == (n + 7) \div 8

RECURSIVE Chunks(_, _, _, _, _)
Chunks(d, b, w, v, i) == i > Len(w) \/ (BitsAt(d, b, w[i]) = v[i] /\ Chunks(d, b + w[i], w, v, i + 1))
BitsOk(e) ==
  LET tot == Sum(e.w) IN
  /\ e.ok = (tot <= 8 * e.cap)
  /\ e.ok => /\ e.pos = tot /\ e.used = UpBytes(tot)
             /\ Chunks(e.d, 0, e.w, e.v, 1) /\ RestZero(e.d, tot)
             /\ LET got == Sum(SubSeq(e.w, 1, e.stop)) IN          \* the reader may stop anywhere
                /\ e.dec = SubSeq(e.v, 1, e.stop) /\ e.left = e.used - UpBytes(got)
                /\ e.dok = (got % 8 = 0 \/ BitsAt(e.d, got, 8 - (got % 8)) = 0)

Symbols(t, d, b, ss) ==
  FoldLeft(LAMBDA a, v : IF a < 0 THEN a ELSE TLCEval(LET y == Symbol1(t, d, a) IN IF y[1] # v THEN -1 ELSE y[2]), b, ss)
HuffOk(e) ==
  LET p == Prefix(e.d, 0, e.n) t == Canon(p.lens) IN
  /\ p.ok /\ p.b = e.tb /\ Complete(p.lens)
  /\ {i - 1 : i \in {i \in 1..e.n : p.lens[i] # 0}} = ToSet(e.used)
  /\ Symbols(t, e.d, e.tb, e.syms) = e.tot /\ RestZero(e.d, e.tot)
  /\ e.dok /\ e.dec = e.syms /\ e.left = 0

CmapOk(e) ==
  LET m == ContextMap(e.d, 0, e.n) IN
  /\ m.ok /\ m.hs = e.cl /\ m.map = e.map /\ m.b = e.tot /\ RestZero(e.d, e.tot)
  /\ e.dok /\ e.nh = e.cl /\ e.dec = e.map /\ e.left = 0

HistOk(e) ==
  LET r == Histogram1(e.d, 0) IN
  /\ r.ok /\ r.b = e.tot /\ RestZero(e.d, e.tot)
  /\ Sum(r.counts) = 1024
  /\ \A i \in 1..NSym : /\ (e.h[i] > 0 => r.counts[i] > 0)          \* every symbol that occurs can be coded
                        /\ (r.counts[i] > 0 => e.freq[i] = r.counts[i])
                        /\ (r.counts[i] > 0 => e.start[i] = Sum(SubSeq(r.counts, 1, i - 1)))
  /\ e.dok /\ e.dec = r.counts /\ e.left = 0

Ident(n) == [i \in 1..n |-> i - 1]
PermOk(e) ==
  LET bad == Unlehmer(Ident(e.n), e.bad)
      isbad == \E i \in 1..Len(bad) : bad[i] < 0
      places == Lehmer(e.vals, [i \in 1..Len(e.pc) |-> e.vals[e.p[i] + 1]]) IN
  /\ e.code = Lehmer(Ident(e.n), e.p) /\ e.ok /\ e.back = e.p
  /\ Unlehmer(Ident(e.n), e.code) = e.p
  /\ e.bok = ~isbad /\ (e.bok => e.bb = bad)
  /\ e.pok /\ e.pc = places /\ e.back2 = [i \in 1..Len(e.pc) |-> e.vals[e.p[i] + 1]]
  /\ \A i \in 1..Len(e.pc) : e.nb[i] = PlaceBits(e.n - i + 1) /\ e.nbd[i] = e.nb[i]
  /\ e.miss = (((255 * 37 + e.vals[1]) % 256) \in {e.vals[j] : j \in {j \in 1..e.n : \A i \in 1..Len(e.pc) : e.p[i] + 1 # j}})
  /\ ~e.out

RECURSIVE Probs(_, _, _)
Probs(p, bits, acc) == IF bits = <<>> THEN acc ELSE LET q == PAdd(p, Head(bits)) IN Probs(q, Tail(bits), Append(acc, q.pr))
ProbOk(e) == LET p == IF e.init < 0 THEN P0 ELSE PInit(e.init) IN e.first = p.pr /\ e.pr = Probs(p, e.bits, <<>>)

Clamp(x) == IF x < 1 THEN 1 ELSE IF x > 255 THEN 255 ELSE x
StockMatrix(chroma, q) == [i \in 1..64 |-> Clamp((QuantBase[chroma + 1][i] * q + 32) \div 64)]
QuantOk(e) == e.t = StockMatrix(e.chroma, e.q)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Median(w, n, nw) == IF nw > Max2(w, n) THEN Min2(w, n) ELSE IF nw < Min2(w, n) THEN Max2(w, n) ELSE n + w - nw
PredOk(e) == \A y \in 0..(e.bh - 1) : \A x \in 0..(e.bw - 1) :
  LET at(u, v) == e.dc[v * e.bw + u + 1] IN
  e.pr[y * e.bw + x + 1] = CASE x = 0 /\ y = 0 -> 0 [] y = 0 -> at(x - 1, 0) [] x = 0 -> at(0, y - 1)
                             [] OTHER -> Median(at(x - 1, y), at(x, y - 1), at(x - 1, y - 1))

-----------------------------------------------------------------------------
(* the multiplexed stream, one operation at a time                           *)
RECURSIVE Hists(_, _, _, _)
Hists(d, b, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, b |-> b, tabs |-> acc]
  ELSE LET h == Histogram1(d, b) IN
    IF ~h.ok THEN [ok |-> FALSE, b |-> b, tabs |-> acc] ELSE Hists(d, h.b, n - 1, Append(acc, AnsTable(h.counts)))
MixStart(e) ==
  LET m == TLCEval(ContextMap(e.h, 0, e.n)) h == TLCEval(Hists(e.h, m.b, m.hs, <<>>)) IN
  [ok |-> m.ok /\ h.ok /\ h.b = e.htot /\ RestZero(e.h, e.htot), map |-> m.map, tabs |-> h.tabs, ps |-> [i \in 1..Len(e.init) |-> PInit(e.init[i])], d |-> E0(e.d)]
MixOp(e, m, o) ==                     \* <<value, state after>>
  CASE o[1] = 0 -> LET p == m.ps[o[2] + 1] r == ArithBit(e.d, m.d, p.pr) IN <<r[1], [m EXCEPT !.d = r[2], !.ps[o[2] + 1] = PAdd(p, r[1])]>>
    [] o[1] = 1 -> LET r == PlainBits(e.d, m.d, o[2]) IN <<r[1], [m EXCEPT !.d = r[2]]>>
    [] OTHER -> LET r == AnsSymbol(e.d, m.d, m.tabs[m.map[o[2] + 1] + 1]) IN <<r[1], [m EXCEPT !.d = r[2]]>>

Whole(e) == CASE e.kind = "bits" -> BitsOk(e) [] e.kind = "huff" -> HuffOk(e) [] e.kind = "cmap" -> CmapOk(e) [] e.kind = "hist" -> HistOk(e)
              [] e.kind = "perm" -> PermOk(e) [] e.kind = "prob" -> ProbOk(e) [] e.kind = "quant" -> QuantOk(e) [] e.kind = "pred" -> PredOk(e)
              [] OTHER -> FALSE
Init == c \in 1..Len(Cases) /\ l = 1 /\ s = [ok |-> FALSE]
Steps == IF E.kind = "mix" THEN Len(E.ops) + 2 ELSE 1
Start == E.kind = "mix" /\ l = 1 /\ s' = MixStart(E) /\ s'.ok /\ E.dok
Op == E.kind = "mix" /\ l > 1 /\ l - 1 <= Len(E.ops)
      /\ LET r == TLCEval(MixOp(E, s, E.ops[l - 1])) IN r[1] = E.ops[l - 1][3] /\ E.dec[l - 1] = r[1] /\ s' = r[2]
End == E.kind = "mix" /\ l = Len(E.ops) + 2 /\ Ends(E.d, s.d) = TRUE /\ E.dend /\ s' = [ok |-> TRUE]
Consume == /\ l <= Steps
           /\ IF E.kind = "mix" THEN (Start \/ Op \/ End) ELSE (Whole(E) = TRUE /\ UNCHANGED s)
           /\ l' = l + 1 /\ c' = c
Finish == l = Steps + 1 /\ UNCHANGED vars
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars
View == <<c, l>>
=============================================================================
