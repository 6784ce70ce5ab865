-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* What the thread pool promises: batches one after another, every task of *)
(* a batch begun once and by the time the batch returns ended, and a pool  *)
(* that closes.                                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES ph, b, n, begun, ended       \* phase, batch number, its size, tasks begun and ended
pvars == <<ph, b, n, begun, ended>>
PInit == ph = "idle" /\ b = 0 /\ n = 0 /\ begun = {} /\ ended = {}
Start(k) == ph = "idle" /\ ph' = "batch" /\ b' = b + 1 /\ n' = k /\ begun' = {} /\ ended' = {}
Begin(i) == ph = "batch" /\ i \in 0..(n - 1) /\ i \notin begun /\ begun' = begun \cup {i} /\ UNCHANGED <<ph, b, n, ended>>
End(i) == ph = "batch" /\ i \in begun \ ended /\ ended' = ended \cup {i} /\ UNCHANGED <<ph, b, n, begun>>
Return == ph = "batch" /\ ended = 0..(n - 1) /\ ph' = "idle" /\ UNCHANGED <<b, n, begun, ended>>
Close == ph = "idle" /\ ph' = "closing" /\ UNCHANGED <<b, n, begun, ended>>
Gone == ph = "closing" /\ ph' = "gone" /\ UNCHANGED <<b, n, begun, ended>>
PNext == (\E k \in Nat : Start(k)) \/ (\E i \in Nat : Begin(i) \/ End(i)) \/ Return \/ Close \/ Gone
PSpec == PInit /\ [][PNext]_pvars
=============================================================================
