------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* The entropy decoder of coefficient sections: 16 bit words feed three     *)
(* sub-decoders - a range asymmetric one for symbols (two words first), a   *)
(* plain bit source (one word), a binary arithmetic one with adaptive       *)
(* probabilities (two words) - each of which takes another word when it     *)
(* runs out.  TLC's integers have 32 bits, so 32 bit registers are pairs    *)
(* <<high 16 bits, low 16 bits>>.                                           *)
(***************************************************************************)
EXTENDS Bits
W16 == 65536
U(hi, lo) == <<hi, lo>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Add(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div W16) % W16, l % W16>>
Sub(a, b) == LET l == a[2] - b[2] IN IF l >= 0 THEN <<a[1] - b[1], l>> ELSE <<a[1] - b[1] - 1, l + W16>>
(* (a * p) / 256, p < 256 *)
Scale(a, p) == LET h == a[1] * p l == (h % 256) * 256 + (a[2] * p) \div 256 IN <<h \div 256 + l \div W16, l % W16>>

(* adaptive probability of a zero, in 256ths                                 *)
P0 == [pr |-> 134, tot |-> 3, cnt |-> 402]
PInit(p) == [pr |-> p, tot |-> 3, cnt |-> 3 * p]
Recip == TLCEval([x \in 3..254 |-> 131072 \div x])
PAdd(p, bit) ==
  LET t == p.tot + 1 c == p.cnt + (IF bit = 0 THEN 256 ELSE 1) pr == (c * Recip[t]) \div 131072 IN
  IF t = 254 THEN [pr |-> pr, tot |-> 127, cnt |-> c \div 2] ELSE [pr |-> pr, tot |-> t, cnt |-> c]

(* decoder state: w words read, over: read past the end                      *)
WordAt(d, k) == IF 2 * k + 2 > Len(d) THEN 0 ELSE d[2 * k + 1] + 256 * d[2 * k + 2]
E0(d) == [w |-> 5, ans |-> U(WordAt(d, 0), WordAt(d, 1)), bv |-> WordAt(d, 2), bp |-> 0,
          lo |-> U(0, 0), hi |-> U(65535, 65535), val |-> U(WordAt(d, 3), WordAt(d, 4))]
Exhausted(d, s) == 2 * s.w > Len(d)

(* one arithmetic bit with probability pr: <<bit, state>>                    *)
ArithBit(d, s, pr) ==
  LET split == Add(s.lo, Scale(Sub(s.hi, s.lo), pr))
      bit == IF Less(split, s.val) THEN 1 ELSE 0
      lo == IF bit = 1 THEN Add(split, <<0, 1>>) ELSE s.lo
      hi == IF bit = 1 THEN s.hi ELSE split IN
  IF lo[1] = hi[1]
  THEN <<bit, [s EXCEPT !.lo = U(lo[2], 0), !.hi = U(hi[2], 65535), !.val = U(s.val[2], WordAt(d, s.w)), !.w = @ + 1]>>
  ELSE <<bit, [s EXCEPT !.lo = lo, !.hi = hi]>>

PlainBits(d, s, n) ==
  IF s.bp + n > 16
  THEN LET nx == WordAt(d, s.w) k == s.bp + n - 16 IN
       <<s.bv \div P2[s.bp] + (nx % P2[k]) * P2[16 - s.bp], [s EXCEPT !.w = @ + 1, !.bv = nx, !.bp = k]>>
  ELSE <<(s.bv \div P2[s.bp]) % P2[n], [s EXCEPT !.bp = @ + n]>>

(* counts -> where each symbol's slots begin                                 *)
AnsTable(counts) == TLCEval(FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, counts))
AnsSymbol(d, s, t) ==
  LET x == s.ans[2] % 1024
      i == CHOOSE i \in 1..(Len(t) - 1) : t[i] <= x /\ x < t[i + 1]
      e == <<i - 1, t[i + 1] - t[i], x - t[i]>>
      q == s.ans[1] * 64 + s.ans[2] \div 1024
      l == e[2] * (q % W16) + e[3]
      h == e[2] * (q \div W16) + l \div W16 IN
  IF h = 0 THEN <<e[1], [s EXCEPT !.ans = U(l % W16, WordAt(d, s.w)), !.w = @ + 1]>>
  ELSE <<e[1], [s EXCEPT !.ans = U(h % W16, l % W16)]>>

(* how a section has to end                                                  *)
Ends(d, s) == /\ 2 * s.w = Len(d)
              /\ s.ans = U(19, 0)
              /\ (s.bp < 16 => s.bv \div P2[s.bp] = 0)
=============================================================================
