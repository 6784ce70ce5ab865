------------------------------ MODULE JpegTrace -----------------------------
(* What the real reader reported for files, against JpegReader.             *)
EXTENDS JpegReader, Json, IOUtils
Cases == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES c, l, p
vars == <<c, l, p>>
Case == Cases[c]
D == Case.d
Init == c \in 1..Len(Cases) /\ l = 1 /\ p = P0
Parse == ~Final(p) /\ p' = NextP(p, D, Case.mode) /\ l' = l + 1 /\ c' = c
Deep(q) == IF Len(q.vals) = 0 THEN 1 ELSE MaxOf({k \in 1..16 : q.cnt[k] > 0})
Tables(k) ==
  /\ k.w = p.w /\ k.h = p.h
  /\ k.comps = [i \in 1..Len(p.comps) |-> <<p.comps[i].id, p.comps[i].h, p.comps[i].v, p.comps[i].wb, p.comps[i].hb>>]
  /\ k.quant = [i \in 1..Len(p.quant) |-> <<p.quant[i].idx, p.quant[i].prec, p.quant[i].last, p.quant[i].vals>>]
  /\ k.huff = [i \in 1..Len(p.huff) |-> <<p.huff[i].slot, p.huff[i].last, [p.huff[i].cnt EXCEPT ![Deep(p.huff[i])] = @ + 1], Append(p.huff[i].vals, 256)>>]
  /\ k.ri = p.ri
Whole(k) ==
  /\ k.app = p.app /\ k.com = p.com /\ k.inter = p.inter /\ k.markers = p.markers /\ k.tail = p.tail
  /\ k.tq = [i \in 1..Len(p.comps) |-> p.comps[i].tq]
  /\ k.scans = [i \in 1..Len(p.scans) |-> <<p.scans[i].raw, [n \in 1..Len(p.scans[i].sc) |-> <<p.scans[i].sc[n][1] - 1, p.scans[i].sc[n][2], p.scans[i].sc[n][3]>>],
                                            p.scans[i].rp, p.scans[i].zr>>]
  /\ k.pads = p.pads /\ k.zpad = (\E i \in 1..Len(p.pads) : p.pads[i] = 0)
  /\ k.coef = [i \in 1..Len(p.coef) |-> FlattenSeq(p.coef[i])]
  /\ k.same                                            \* and writing it again gives the file
RECURSIVE Run(_, _)
Run(q, m) == IF Final(q) THEN q ELSE Run(NextP(q, D, m), m)
(* What the partial modes have to find is what the whole file says: a fact   *)
(* about the machine itself, checked on every accepted file.                 *)
Partial ==
  LET h == Run(P0, "H") t == Run(P0, "T") IN
  /\ h.st = "done" /\ t.st = "done"
  /\ t.w = p.w /\ t.h = p.h /\ t.comps = p.comps /\ t.quant = p.quant /\ t.huff = p.huff /\ t.ri = p.ri
  /\ h.w = p.w /\ h.h = p.h /\ h.comps = p.comps
  /\ \A i \in 1..Len(h.quant) : h.quant[i] = p.quant[i]
  /\ \A i \in 1..Len(h.app) : h.app[i] = p.app[i]
Verdict(k) == ~k.crash /\ k.ok = (p.st = "done") /\ (~k.ok => k.err # 0)
Content(k) ==
  k.ok /\ p.st = "done" => /\ Tables(k)
                           /\ (k.mode = "A" => Whole(k) /\ Partial)
                           /\ (k.mode = "H" => k.app = p.app /\ k.com = p.com /\ k.inter = p.inter /\ k.markers = p.markers)
Agrees(k) == IF IOEnv.JUDGE = "verdict" THEN Verdict(k) ELSE ~k.crash /\ Content(k)
Finish == Final(p) /\ Agrees(Case) /\ UNCHANGED vars
Next == Parse \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
