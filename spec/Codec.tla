------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Reference semantics of brunsli's public API as a state machine over     *)
(* byte strings and parsed images.                                          *)
(*                                                                         *)
(* Byte strings are abstract identities.  The state records what a history *)
(* of calls has established:                                               *)
(*   kd.dig   JPEG file        |-> parsed image it was read into            *)
(*   kd.src   parsed image     |-> the JPEG file it was read from           *)
(*   kd.enc   <<image, version>> |-> the Brunsli stream it encodes to       *)
(*   kd.orig  byte string      |-> the bytes it has to decode to            *)
(*   kd.img   Brunsli stream   |-> the image it was encoded from            *)
(*   kd.made  images filled in by the caller (within the coefficient range) *)
(*   kd.kind  byte string      |-> "brn", "bypass", "prefix", "trail", ...  *)
(* Each operator X(k, e) below is the guarded action for one recorded call  *)
(* e in knowledge k: XOk is what the specification allows, XUpd the effect. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

EmptyK == [dig |-> <<>>, src |-> <<>>, enc |-> <<>>, orig |-> <<>>, kind |-> <<>>, img |-> <<>>, made |-> {}]

Has(f, x) == x \in DOMAIN f
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
HasField(r, x) == x \in DOMAIN r

(* Facts about input files, established by whoever made them (scripts of   *)
(* JpegScript.tla, concretised), are passed as F: file |-> record.          *)

-----------------------------------------------------------------------------
(* ReadJpeg *)
StructMatches(f, e) ==
  /\ HasField(e, "w") =>
       /\ e.w = f.w /\ e.h = f.h
       /\ e.markers = f.markers
       /\ e.ri = f.ri
       /\ Len(e.comps) = Len(f.comps)
       /\ \A i \in 1..Len(f.comps) :
            /\ e.comps[i].id = f.comps[i].id
            /\ e.comps[i].h = f.comps[i].h /\ e.comps[i].v = f.comps[i].v
            /\ e.comps[i].wb = f.comps[i].wb /\ e.comps[i].hb = f.comps[i].hb
            /\ e.comps[i].nc = 64 * f.comps[i].wb * f.comps[i].hb
            /\ e.comps[i].coef = f.comps[i].coef
       /\ Len(e.quant) = Len(f.quant)
       /\ \A i \in 1..Len(f.quant) :
            /\ e.quant[i].idx = f.quant[i].idx /\ e.quant[i].prec = f.quant[i].prec
            /\ e.quant[i].last = f.quant[i].last /\ e.quant[i].vals = f.quant[i].vals
       /\ Len(e.huff) = Len(f.huff)
       /\ \A i \in 1..Len(f.huff) :
            /\ e.huff[i].slot = f.huff[i].slot /\ e.huff[i].last = f.huff[i].last
            /\ e.huff[i].n = f.huff[i].n /\ e.huff[i].h = f.huff[i].h
       /\ Len(e.scans) = Len(f.scans)
       /\ \A i \in 1..Len(f.scans) :
            /\ e.scans[i].p = f.scans[i].p /\ e.scans[i].c = f.scans[i].c
            /\ e.scans[i].nrp = f.scans[i].nrp /\ e.scans[i].rp = f.scans[i].rp
            /\ e.scans[i].nzr = f.scans[i].nzr /\ e.scans[i].zr = f.scans[i].zr
       /\ e.napp = f.napp /\ e.app = f.app /\ e.ncom = f.ncom /\ e.com = f.com
       /\ e.inter = f.inter /\ e.ntail = f.ntail /\ e.tail = f.tail
       /\ e.zpad = f.zpad
       /\ e.zpad => (e.npad = f.npad /\ e.pad = f.pad)

ReadOk(k, F, e) ==
  /\ e.mode = "A" =>
       /\ Has(F, e["in"]) =>
            LET f == F[e["in"]] IN
            /\ e.ok = f.valid
            /\ (e.ok /\ HasField(f, "w")) => StructMatches(f, e)
       (* the same bytes always parse to the same image *)
       /\ (e.ok /\ Has(k.dig, e["in"])) => k.dig[e["in"]] = e.dig
       (* the image determines the file *)
       /\ (e.ok /\ Has(k.src, e.dig)) => k.src[e.dig] = e["in"]
       (* the error code tells success from failure *)
       /\ e.ok <=> (e.err = 0)
ReadUpd(k, e) ==
  IF e.ok /\ e.mode = "A"
  THEN [k EXCEPT !.dig = Put(@, e["in"], e.dig), !.src = Put(@, e.dig, e["in"])]
  ELSE k

(* WriteJpeg of an image obtained from a file or from a stream of it *)
WriteOk(k, e) ==
  (* an image decoded from a stream writes the stream's original *)
  /\ (e.how = "dec" /\ Has(k.orig, e.from) /\ Get(k.kind, e.from, "") \in {"brn", "bypass"}) =>
       IF e.refused THEN ~e.ok ELSE e.ok /\ e.out = k.orig[e.from]
  /\ (e.how = "read") => (IF e.refused THEN ~e.ok ELSE e.ok /\ e.out = e.from)
  /\ Has(k.src, e.dig) =>
       IF e.refused THEN ~e.ok ELSE e.ok /\ e.out = k.src[e.dig]
  /\ e.refused => ~e.ok

(* BrunsliEncodeJpeg into a buffer of e.cap bytes, e.max being the          *)
(* advertised bound.                                                        *)
EncOk(k, F, e) ==
  /\ e.same                                        \* the image is not modified
  /\ e.ok => /\ e.len > 0 /\ e.len <= e.cap /\ e.len <= e.max
             /\ Has(k.enc, <<e.dig, e.ver>>) => k.enc[<<e.dig, e.ver>>] = e.out
             (* streams are unambiguous: one stream, one original *)
             /\ (Has(k.orig, e.out) /\ Has(k.src, e.dig)) => k.orig[e.out] = k.src[e.dig]
  (* a representable image always fits the advertised bound *)
  /\ (e.cap >= e.max /\ Has(k.src, e.dig) /\ Has(F, k.src[e.dig])) =>
        (e.ok = F[k.src[e.dig]].rep)
  /\ (e.cap >= e.max /\ e.dig \in k.made) => e.ok
EncUpd(k, e) ==
  IF e.ok
  THEN LET k1 == [k EXCEPT !.enc = Put(@, <<e.dig, e.ver>>, e.out), !.kind = Put(@, e.out, "brn"), !.img = Put(@, e.out, e.dig)]
       IN IF Has(k.src, e.dig) THEN [k1 EXCEPT !.orig = Put(@, e.out, k.src[e.dig])] ELSE k1
  ELSE k

(* Encoding into a buffer of e.cap bytes, between guard bytes; e.ddig is    *)
(* what decoding the result gives; e.full the size when room is plenty.     *)
CapOk(k, e) ==
  /\ e.same /\ e.guard /\ e.again
  /\ e.ok => /\ e.len <= e.cap /\ e.st = 0 /\ e.ddig = e.dig
  (* the length fields shrink with the buffer: a few bytes of slack *)
  /\ (e.cap >= e.full + 16 /\ e.full < e.max) => e.ok
FillUpd(k, e) == [k EXCEPT !.made = @ \cup {e.dig}]

(* Truncation, extension etc. of a known string *)
Proper(k, s) == Get(k.kind, s, "") \in {"brn", "bypass"}
DeriveUpd(k, e) ==
  IF ~Proper(k, e["in"]) THEN k
  ELSE IF e.outlen = e.inlen /\ e.out = e["in"] THEN k
  ELSE CASE e.how \in {"trunc", "cut"} -> [k EXCEPT !.kind = Put(@, e.out, "prefix")]
         [] e.how \in {"append", "cat"} -> [k EXCEPT !.kind = Put(@, e.out, "trail")]
         [] OTHER -> [k EXCEPT !.kind = Put(@, e.out, "altered")]

MustFail(k, s) == Get(k.kind, s, "") \in {"prefix", "trail", "notbrn"}
MustDecode(k, s) == Has(k.orig, s) /\ ~MustFail(k, s)

(* BrunsliDecodeJpeg *)
DecOk(k, e) ==
  /\ MustDecode(k, e["in"]) =>
        /\ e.ok
        /\ Get(k.kind, e["in"], "") = "brn" /\ Has(k.dig, k.orig[e["in"]]) =>
              e.dig = k.dig[k.orig[e["in"]]]
  /\ (Has(k.img, e["in"]) /\ ~MustFail(k, e["in"])) => e.ok /\ e.dig = k.img[e["in"]]
  /\ MustFail(k, e["in"]) => ~e.ok
  /\ e.ok <=> (e.st = 0)
  (* a proper prefix is reported as incomplete, not as another error *)
  /\ Get(k.kind, e["in"], "") = "prefix" => e.st \in {5, 7}
DecUpd(k, e) == k

(* C API: EncodeBrunsli / DecodeBrunsli with a sink *)
SinkOk(e, want) ==
  /\ e.rc \in {0, 1}
  /\ e.after = 0                                   \* nothing after a refusal
  /\ IF e.refused THEN e.rc = 0 ELSE e.rc = 1 /\ (want # "" => e.out = want)
CDecOk(k, e) ==
  IF MustFail(k, e["in"]) THEN e.rc = 0
  ELSE IF MustDecode(k, e["in"]) THEN SinkOk(e, k.orig[e["in"]])
  ELSE e.rc \in {0, 1} /\ (e.refused => e.rc = 0)
CEncWant(k, e) == IF Has(k.dig, e["in"]) THEN Get(k.enc, <<k.dig[e["in"]], 2>>, "") ELSE ""
CEncOk(k, F, e) ==
  IF Has(F, e["in"])
  THEN IF F[e["in"]].valid /\ F[e["in"]].rep
       THEN SinkOk(e, CEncWant(k, e))
       ELSE e.rc = 0
  ELSE IF Has(k.dig, e["in"]) /\ CEncWant(k, e) # "" THEN SinkOk(e, CEncWant(k, e))
  ELSE e.rc \in {0, 1} /\ (e.refused => e.rc = 0)
CEncUpd(k, e) ==
  IF e.rc = 1 /\ ~e.refused
  THEN [k EXCEPT !.orig = Put(@, e.out, e["in"]), !.kind = Put(@, e.out, "brn"),
                 !.enc = IF Has(k.dig, e["in"]) THEN Put(@, <<k.dig[e["in"]], 2>>, e.out) ELSE @]
  ELSE k

(* Incremental decoding as one summary event; Stream.tla judges the calls  *)
StreamOk(k, e) ==
  /\ e.proto
  /\ MustDecode(k, e["in"]) =>
       /\ e.st = "DONE" /\ e.out = k.orig[e["in"]] /\ e.used = e.inlen
       /\ e.again = "DONE" /\ e.againmade = 0
  /\ MustFail(k, e["in"]) => e.st # "DONE"
  /\ Get(k.kind, e["in"], "") = "prefix" => e.st = "NEEDIN" \/ e.st = "ERROR"
  /\ e.st = "ERROR" => (e.again = "ERROR" /\ e.againmade = 0)

(* One damaged version of stream e.base through every decoding interface:   *)
(* st = BrunsliDecodeJpeg, rc/out = DecodeBrunsli, ss = incremental runs.    *)
Agree(e) ==
  /\ e.rc = 1 => e.st = 0
  /\ \A i \in 1..Len(e.ss) :
       IF e.rc = 1 THEN e.ss[i][1] = "DONE" /\ e.ss[i][2] = e.out
       ELSE e.ss[i][1] \in {"NEEDIN", "ERROR"} \/ (e.ss[i][1] = "DONE" /\ e.ss[i][3])
ProbeOk(k, e) ==
  IF e.same THEN e.rc = 1 /\ Agree(e)
  ELSE CASE e.how = "trunc" -> /\ e.st = 7 /\ e.rc = 0
                               /\ \A i \in 1..Len(e.ss) : e.ss[i][1] = "NEEDIN"
         [] e.how \in {"ext", "len"} -> e.st # 0 /\ e.rc = 0 /\ Agree(e)
         [] OTHER -> Agree(e)

(* Bypass: arbitrary bytes *)
BypassOk(k, e) ==
  /\ e.fits
  /\ e.cap >= e.max => e.ok /\ e.len <= e.max
  /\ e.ok => e.len <= e.cap
BypassUpd(k, e) ==
  IF e.ok THEN [k EXCEPT !.orig = Put(@, e.out, e["in"]), !.kind = Put(@, e.out, "bypass")] ELSE k

IsBrnOk(k, e) == e.ok = e.sig /\ (Proper(k, e["in"]) => e.ok)

(* Peak memory estimate: zero exactly when the stream cannot be decoded far *)
(* enough to be sized.                                                      *)
EstOk(k, e) ==
  /\ e["in"] = "null" => e.zero
  /\ MustDecode(k, e["in"]) => ~e.zero

-----------------------------------------------------------------------------
(* One step: event e is allowed in knowledge k with facts F. *)
Allowed(k, F, e) ==
  CASE e.op = "read"   -> ReadOk(k, F, e)
    [] e.op = "write"  -> WriteOk(k, e)
    [] e.op = "enc"    -> EncOk(k, F, e)
    [] e.op = "dec"    -> DecOk(k, e)
    [] e.op = "cenc"   -> CEncOk(k, F, e)
    [] e.op = "cdec"   -> CDecOk(k, e)
    [] e.op = "stream" -> StreamOk(k, e)
    [] e.op = "bypass" -> BypassOk(k, e)
    [] e.op = "probe"  -> ProbeOk(k, e)
    [] e.op = "cap"    -> CapOk(k, e)
    [] e.op = "isbrn"  -> IsBrnOk(k, e)
    [] e.op = "est"    -> EstOk(k, e)
    [] e.op \in {"derive", "say", "end", "fill"} -> TRUE
    [] OTHER -> FALSE                       \* in particular "crash"
After(k, e) ==
  CASE e.op = "read"   -> ReadUpd(k, e)
    [] e.op = "enc"    -> EncUpd(k, e)
    [] e.op = "cenc"   -> CEncUpd(k, e)
    [] e.op = "bypass" -> BypassUpd(k, e)
    [] e.op = "derive" -> DeriveUpd(k, e)
    [] e.op = "fill"   -> FillUpd(k, e)
    [] OTHER -> k
=============================================================================
