---------------------------- MODULE ServeGen ----------------------------
(* All requests to replay: every Accept header of up to two elements, those  *)
(* of three over a smaller alphabet, and every combination of settings,      *)
(* methods, files and faults with a few headers.                            *)
EXTENDS Serve, SequencesExt, Json, IOUtils
El == [t : Types, p : Params]
Few == [t : {"brn", "longer", "other", "none"}, p : {"", "q0"}]
Accs == {<<>>} \cup {<<a>> : a \in El} \cup {<<a, b>> : a \in El, b \in El} \cup {<<a, b, d>> : a \in Few, b \in Few, d \in Few}
B == [t |-> "brn", p |-> ""]
O == [t |-> "other", p |-> "q1"]
Some == {<<>>, <<B>>, <<O, B, O>>, <<O, O>>}
Fails == {"none", "map", "links", "body", "etag", "send", "notmod", "out"}
N(acc, outer, inner, meth, sub, vary, fail, oerr, nomem, slash, file) ==
  [kind |-> "nginx", acc |-> acc, outer |-> outer, inner |-> inner, meth |-> meth, sub |-> sub, vary |-> vary, fail |-> fail, oerr |-> oerr, nomem |-> nomem, slash |-> slash, file |-> file]
Ws == {"-", "off", "on", "always"}
Nginx == {N(a, "on", "-", "G", FALSE, v, "none", -1, 0, FALSE, "reg") : a \in Accs, v \in BOOLEAN}
  \cup {N(a, o, i, m, s, v, "none", -1, 0, sl, f) : a \in Some, o \in Ws, i \in Ws, m \in {"G", "H", "P"}, s \in BOOLEAN, v \in {FALSE}, sl \in {FALSE}, f \in {"reg", "absent"}}
  \cup {N(a, "-", i, m, s, v, "none", -1, 0, sl, f) : a \in Some, i \in {"on", "always"}, m \in {"G", "H"}, s \in BOOLEAN, v \in BOOLEAN, sl \in BOOLEAN, f \in Files}
  \cup {N(a, "-", i, m, FALSE, v, x, -1, 0, FALSE, f) : a \in Some, i \in {"on", "always"}, m \in {"G", "H"}, v \in BOOLEAN, x \in Fails, f \in Files}
  \cup {N(a, "-", i, "G", FALSE, v, "none", x, 0, FALSE, "reg") : a \in Some, i \in {"on", "always"}, v \in BOOLEAN, x \in {0, 2, 5, 13, 20, 24, 31, 36, 40}}
  \cup {N(a, "-", i, m, FALSE, v, "none", -1, x, FALSE, f) : a \in Some, i \in {"on", "always"}, m \in {"G", "H"}, v \in BOOLEAN, x \in 1..6, f \in {"reg", "empty"}}
Apache == {[kind |-> "apache", acc |-> a, tr |-> 0, file |-> "reg"] : a \in Accs}
  \cup {[kind |-> "apache", acc |-> a, tr |-> t, file |-> f] : a \in Some, t \in 0..3, f \in Files}
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(IOEnv.OUT, SetToSeq(Nginx \cup Apache))
=============================================================================
