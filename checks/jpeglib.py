"""Files through the real reader, judged by JpegReader.tla."""
import json
import jpegmut
import jpegtok
from common import *

GROUP = 30


def sequences():
    gen = os.path.join(V.workdir(), "jpeg.ndjson")
    r = V.tlc("JpegGen", env={"OUT": gen})
    seqs = [json.loads(x)["s"] for x in open(gen)]
    seqs.sort()
    return seqs, r


def _mut(a):
    seed, i, kind = a
    rng = random.Random("%s/%d" % (seed, i))
    if kind == "ent": return jpegmut.entropy(rng)[0]
    if kind == "entp": return jpegmut.entropy(rng, sof=0xc2)[0]
    if kind == "eobx": return jpegmut.eobx(rng)
    if kind == "rstx": return jpegmut.rstx(rng)
    if kind == "small": return jpegmut.small(rng)[0]
    if kind == "smallp": return jpegmut.small(rng, sof=0xc2)[0]
    if kind == "byte": return jpegmut.bytewise(rng, jpegmut.small(rng)[0])
    if kind == "field": return jpegmut.field(rng, rng.choice([jpegmut.small, jpegmut.entropy])(rng)[0])
    if kind == "byteent": return jpegmut.bytewise(rng, jpegmut.entropy(rng)[0])


def mutants(seed, kinds):
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        return list(zip(kinds, ex.map(_mut, [(seed, i, k) for i, k in enumerate(kinds)], chunksize=8)))


SLIM = ("mode", "ok", "err", "crash")


def execute(exe, inst, slim):
    """inst: list of (label, bytes, mode) -> records (in the same order)."""
    cases = [("g%d" % g, [o for _, d, m in inst[g:g + GROUP] for o in ("hex x " + d.hex(), "parse x " + m)]) for g in range(0, len(inst), GROUP)]
    ev = V.drive(exe, cases)
    recs = []
    for g, (cid, _) in zip(range(0, len(inst), GROUP), cases):
        es = ev[cid]
        ps = [e for e in es if e["op"] == "parse"]
        part = inst[g:g + GROUP]
        for k, (lab, d, m) in enumerate(part):
            if k < len(ps):
                e = ps[k]
                r = {q: e[q] for q in SLIM} if slim else {q: v for q, v in e.items() if q not in ("case", "op")}
            elif k == len(ps) and len(part) > 0:
                cr = [e for e in es if e["op"] == "crash"]
                r = {"mode": m, "ok": False, "err": 0, "crash": True, "what": cr[0]["what"] if cr else "no answer"}
            else:
                r = None          # after a crash: run these again on their own
            recs.append(r)
    todo = [i for i, r in enumerate(recs) if r is None]
    if todo:
        for i, r in zip(todo, execute(exe, [inst[i] for i in todo], slim)):
            recs[i] = r
    for i, r in enumerate(recs):
        r["id"], r["d"] = str(i), list(inst[i][1])
    return recs


def check(rep, exe, inst, what, step=3000):
    slim = what == "verdict"
    recs = execute(exe, inst, slim)
    rep.count("files", len(recs)); rep.count("accepted", sum(r["ok"] for r in recs))
    errs = rep.cov.setdefault("reader_error_codes_seen", [])
    rep.cov["reader_error_codes_seen"] = sorted(set(errs) | {r["err"] for r in recs})
    for i in range(0, len(recs), step):
        stats, bad = V.validate("JpegTrace", recs[i:i + step], rep.prop, env={"JUDGE": what})
        rep.add(stats)
        for r0, idx, why in bad:
            it = inst[int(r0["id"])]
            again = execute(exe, [it], slim)
            s2, b2 = V.validate("JpegTrace", again, rep.prop, env={"JUDGE": what})
            if not b2:
                V.log("rejection did not repeat", it[0]); continue
            r1 = b2[0][0]
            p = put("bad%s.jpg" % r0["id"], it[1])
            rep.violation("file %s (%d bytes) in mode %s: reader says ok=%s error=%s%s, which JpegReader does not allow (%s)" % (
                it[0], len(it[1]), it[2], r1["ok"], r1["err"], " crash: " + r1["what"] if r1["crash"] else "", what),
                {k: v for k, v in r1.items() if k != "d"}, [p])
        if len(rep.violations) >= 3:
            break
    return recs
