-------------------------------- MODULE Memory ------------------------------
(* Memory taken by decoding, phase by phase, and the estimate made from the  *)
(* header, side information and the first bytes of the histogram section.    *)
(* Units are abstract; sizes are constants of one stream.  Est must dominate *)
(* what is live in every reachable state.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Drop                 \* name of a term left out of the estimate (broken variants), or ""
VARIABLES ph, n, live, s       \* phase, growth step, live units, sizes of this stream
vars == <<ph, n, live, s>>
(* side data of cap units in one vector that grew by doubling, m contexts,   *)
(* h histograms, w width, b blocks, len stream length                        *)
Sizes == [side : {0, 4, 16}, m : {1, 3}, h : {1, 5}, w : {1, 4}, b : {1, 4, 9}, len : {1, 7}]
Fixed == 2
Writer == 6
CoefPer == 8
StatePer == 3
T(name, v) == IF Drop = name THEN 0 ELSE v
Max(a, b) == IF a > b THEN a ELSE b
Est == T("len", 2 * s.len) + T("coef", CoefPer * s.b) + T("side", 2 * s.side)
       + Max(T("map", s.m) + T("hist", 2 * s.h) + T("comp", StatePer * s.w) + T("blocks", s.b) + T("fixed", Fixed), T("writer", Writer))
Init == ph = "side" /\ n = 1 /\ s \in Sizes /\ live = Fixed
(* a growing vector: the new, twice as large copy and the old one coexist *)
Grow == /\ ph = "side"
        /\ IF n <= s.side THEN live' = Fixed + n + (n \div 2) /\ n' = 2 * n /\ ph' = ph
           ELSE live' = Fixed + s.side /\ ph' = "tables" /\ n' = n
        /\ UNCHANGED s
Tables == ph = "tables" /\ ph' = "coefs" /\ live' = live + s.m + 2 * s.h /\ UNCHANGED <<n, s>>
Coefs == ph = "coefs" /\ ph' = "comps" /\ live' = live + CoefPer * s.b + s.b /\ UNCHANGED <<n, s>>
Comps == ph = "comps" /\ ph' = "end" /\ live' = live + StatePer * s.w /\ UNCHANGED <<n, s>>
End == ph = "end" /\ UNCHANGED vars
Next == Grow \/ Tables \/ Coefs \/ Comps \/ End
Spec == Init /\ [][Next]_vars
Sound == live <= Est
=============================================================================
