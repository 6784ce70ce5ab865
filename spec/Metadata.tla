------------------------------ MODULE Metadata ------------------------------
(* The metadata section of a Brunsli stream: how application segments,      *)
(* comments and trailing bytes are laid out once the section is unpacked.   *)
(*                                                                          *)
(* A segment is its bytes from the marker code on (code, two length bytes,   *)
(* payload).  The 3161-byte colour profile template is abstracted to         *)
(* <<-1, code>>, everything else is spelled out.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

T0  == <<224, 0, 16, 74, 70, 73, 70, 0, 1, 1, 0, 0, 1, 0, 1, 0, 0>>
TEC == <<236, 0, 17, 68, 117, 99, 107, 121, 0, 1, 0, 4, 0, 0, 0, 100, 0, 0>>
TEE == <<238, 0, 14, 65, 100, 111, 98, 101, 0, 100, 0, 0, 0, 0, 1>>
Densities == <<1, 72, 96, 100, 150, 180, 240, 300>>
ShortLimit == 64 + 3 * 256
MultiLimit == 1024

App0(b) == LET d == Densities[(b \div 8) + 1] IN
  [T0 EXCEPT ![10] = 1 + (b % 2), ![11] = (b \div 2) % 4, ![12] = d \div 256, ![13] = d % 256, ![14] = d \div 256, ![15] = d % 256]
Coded(m, code) == CASE m = 128 -> <<-1, code>> [] m = 129 -> [TEC EXCEPT ![16] = code] [] OTHER -> [TEE EXCEPT ![11] = code]
IsApp(m) == m \in 224..239
IsCom(m) == m = 254

-----------------------------------------------------------------------------
(* Reading, as a whole. *)
Bad == [ok |-> FALSE]
RECURSIVE P(_, _, _, _, _)
P(r, i, shorts, app, com) ==
  IF i > Len(r) THEN [ok |-> TRUE, app |-> app, com |-> com, tail |-> <<>>]
  ELSE LET m == r[i] IN
    IF m = 217 THEN [ok |-> TRUE, app |-> app, com |-> com, tail |-> SubSeq(r, i + 1, Len(r))]
    ELSE IF m < 64 THEN IF shorts = ShortLimit THEN Bad ELSE P(r, i + 1, shorts + 1, Append(app, App0(m)), com)
    ELSE IF m \in 128..130 THEN IF shorts = ShortLimit \/ i = Len(r) THEN Bad ELSE P(r, i + 2, shorts + 1, Append(app, Coded(m, r[i + 1])), com)
    ELSE IF ~(IsApp(m) \/ IsCom(m)) \/ i + 2 > Len(r) THEN Bad
    ELSE LET n == r[i + 1] * 256 + r[i + 2] IN
      IF n < 2 \/ i + n > Len(r) THEN Bad
      ELSE IF IsCom(m) THEN IF Len(com) = MultiLimit THEN Bad ELSE P(r, i + n + 1, shorts, app, Append(com, SubSeq(r, i, i + n)))
      ELSE IF Len(app) - shorts = MultiLimit THEN Bad ELSE P(r, i + n + 1, shorts, Append(app, SubSeq(r, i, i + n)), com)
Parse(r) == P(r, 1, 0, <<>>, <<>>)

(* Reading, byte by byte in pieces: the machine a streaming reader is. *)
M0 == [st |-> "marker", m |-> 0, hi |-> 0, rem |-> 0, shorts |-> 0, app |-> <<>>, com |-> <<>>, tail |-> <<>>, cur |-> <<>>]
Close(s) == IF IsCom(s.m) THEN [s EXCEPT !.com = Append(@, s.cur), !.cur = <<>>, !.st = "marker"]
            ELSE [s EXCEPT !.app = Append(@, s.cur), !.cur = <<>>, !.st = "marker"]
Step(s, b) ==
  CASE s.st = "bad" -> s
    [] s.st = "tail" -> [s EXCEPT !.tail = Append(@, b)]
    [] s.st = "code" -> [s EXCEPT !.app = Append(@, Coded(s.m, b)), !.st = "marker"]
    [] s.st = "hi" -> [s EXCEPT !.hi = b, !.st = "lo", !.cur = Append(@, b)]
    [] s.st = "lo" -> LET n == s.hi * 256 + b
                          full == IF IsCom(s.m) THEN Len(s.com) >= MultiLimit ELSE Len(s.app) - s.shorts >= MultiLimit
                          t == [s EXCEPT !.rem = n - 2, !.cur = Append(@, b), !.st = "body"] IN
                      IF n < 2 \/ full THEN [s EXCEPT !.st = "bad"] ELSE IF n = 2 THEN Close(t) ELSE t
    [] s.st = "body" -> LET t == [s EXCEPT !.rem = @ - 1, !.cur = Append(@, b)] IN IF t.rem = 0 THEN Close(t) ELSE t
    [] OTHER ->
       CASE b = 217 -> [s EXCEPT !.st = "tail"]
         [] b < 64 -> IF s.shorts = ShortLimit THEN [s EXCEPT !.st = "bad"] ELSE [s EXCEPT !.shorts = @ + 1, !.app = Append(@, App0(b))]
         [] b \in 128..130 -> IF s.shorts = ShortLimit THEN [s EXCEPT !.st = "bad"] ELSE [s EXCEPT !.shorts = @ + 1, !.m = b, !.st = "code"]
         [] IsApp(b) \/ IsCom(b) -> [s EXCEPT !.m = b, !.st = "hi", !.cur = <<b>>]
         [] OTHER -> [s EXCEPT !.st = "bad"]
MachineResult(s) == IF s.st \in {"marker", "tail"} THEN [ok |-> TRUE, app |-> s.app, com |-> s.com, tail |-> s.tail] ELSE Bad

-----------------------------------------------------------------------------
(* Writing: a segment may be replaced by its short form.                     *)
ShortForms == TLCEval([b \in 0..63 |-> App0(b)])
ShortSet == TLCEval({App0(b) : b \in 0..63})
ToRaw(seg) ==
  IF seg[1] = -1 THEN <<128, seg[2]>>
  ELSE IF Len(seg) = 17 /\ seg \in ShortSet THEN <<CHOOSE b \in 0..63 : ShortForms[b] = seg>>
  ELSE IF Len(seg) = 18 /\ seg = [TEC EXCEPT ![16] = seg[16]] THEN <<129, seg[16]>>
  ELSE IF Len(seg) = 15 /\ seg = [TEE EXCEPT ![11] = seg[11]] THEN <<130, seg[11]>>
  ELSE seg
Write(app, com, tail) == FlattenSeq([i \in 1..Len(app) |-> ToRaw(app[i])]) \o FlattenSeq(com) \o (IF tail = <<>> THEN <<>> ELSE <<217>> \o tail)
=============================================================================
