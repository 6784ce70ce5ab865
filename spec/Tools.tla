-------------------------------- MODULE Tools -------------------------------
(* The command line tools.  A run is described by what it was given, what    *)
(* the file system held before and after, which hard faults were delivered,  *)
(* and how the process ended; RunOk says which descriptions are allowed.     *)
(*                                                                           *)
(* File system: nodes (functions from names to records [k, c, r, w]: kind    *)
(* "file" | "dir" | "other", content identity c, readable, writable).        *)
(* Contents: conts is a function from identities to records                  *)
(*   [size, rep, grep, dec, gdec]: representable by the encoder (sequential, *)
(*   groups), and the identity of the file the content decodes to ("" none). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Has(f, x) == x \in DOMAIN f
IsEnc(t) == t \in {"cbrunsli", "cbrunsli-groups"}
IsGroups(t) == t \in {"cbrunsli-groups", "dbrunsli-groups"}
(* names of input and output; args is the sequence of arguments *)
ArgsOk(args) == Len(args) \in {1, 2} /\ args[1] # ""
OutName(t, args) == IF Len(args) = 2 THEN args[2] ELSE args[1] \o (IF IsEnc(t) THEN ".brn" ELSE ".jpg")
(* alias gives the node a name leads to ("" when no node can be there) *)
Node(alias, n) == IF Has(alias, n) THEN alias[n] ELSE n
Readable(fs, alias, n) == LET x == Node(alias, n) IN x # "" /\ Has(fs, x) /\ fs[x].k = "file" /\ fs[x].r
Writable(fs, alias, n, sealed) == LET x == Node(alias, n) IN x # "" /\ IF Has(fs, x) THEN fs[x].k = "file" /\ fs[x].w ELSE ~sealed
(* is o a right output for input content i? *)
RightOut(conts, t, i, o) ==
  IF IsEnc(t) THEN i # "" /\ (IF IsGroups(t) THEN conts[o].gdec ELSE conts[o].dec) = i
  ELSE o # "" /\ (IF IsGroups(t) THEN conts[i].gdec ELSE conts[i].dec) = o
(* must the conversion of content i succeed when nothing interferes? *)
Convertible(conts, t, i) ==
  conts[i].size > 0 /\ (CASE t = "cbrunsli" -> conts[i].rep [] t = "cbrunsli-groups" -> conts[i].grep
                       [] t = "dbrunsli" -> conts[i].dec # "" [] t = "dbrunsli-groups" -> conts[i].gdec # "")
RunOk(conts, r) ==
  LET in == r.args[1]
      out == OutName(r.tool, r.args)
      on == Node(r.alias, out)
      ic == r.before[Node(r.alias, in)].c
      usable == ArgsOk(r.args) /\ Readable(r.before, r.alias, in)
  IN
  /\ ~r.crash
  /\ r.exit # 0 => r.msg
  \* success only with the right file in the right place
  /\ r.exit = 0 => usable /\ on # "" /\ Has(r.after, on) /\ r.after[on].k = "file" /\ RightOut(conts, r.tool, ic, r.after[on].c)
  \* with nothing in the way, success
  /\ (usable /\ r.faults = 0 /\ Writable(r.before, r.alias, out, r.sealed) /\ Convertible(conts, r.tool, ic)) => r.exit = 0
  \* nothing but the output file is touched
  /\ \A n \in DOMAIN r.before \cup DOMAIN r.after : (~ArgsOk(r.args) \/ n # on) => Has(r.before, n) /\ Has(r.after, n) /\ r.before[n] = r.after[n]
=============================================================================
