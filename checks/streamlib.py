"""Shared by C02 and C03: stream sources, schedules and trace records."""
import json
import os
import random
from common import V, corpus, G, files, put, pub


def schedules():
    out = os.path.join(V.workdir(), "sched.ndjson")
    V.tlc("StreamGen", env={"OUT": out})
    r = [json.loads(l) for l in open(out)]
    r.sort()
    rng = random.Random("sched-%d" % V.SEED)
    m = lambda x: str(rng.randint(2, rng.choice([40, 700, 700, 1400]))) if x == "m" else x
    return [";".join(m(p[0]) + "," + p[1] for p in s) for s in r]


def shapes(rng, i):
    r = i % 12
    if r == 0:
        return {"nc": 3, "maxb": 12, "w": rng.randint(60, 150), "h": rng.randint(60, 150), "samp": rng.choice([[(1, 1)] * 3, [(2, 2), (1, 1), (1, 1)]])}
    if r == 1:
        return {"sof": 0xc2, "style": rng.choice(["libjpeg", "deep", "random"])}
    if r == 2:
        return {"nc": 1, "maxb": 30, "w": rng.randint(8, 24), "h": rng.randint(200, 400), "samp": [(1, 1)]}
    if r == 3:
        return {"metas": ["bigapp", "com", "exif"], "tail": corpus.rand_bytes(rng, rng.choice([0, 5, 70000]))}
    if r == 4:
        return {"pad": "0"}
    if r == 5:
        return {"metas": [], "tail": b"", "extra": None}
    if r == 6:
        return {"ri": rng.choice([1, 2]), "pad": "r"}
    return {}


def sources(fs, rng, n_bypass):
    """(id, ops producing stream b and its one-shot result o, reset of case)"""
    res = []
    for cid, path, data, facts, desc in fs:
        if not facts["rep"]:
            continue
        if rng.random() < 0.25:
            ops = ["load s " + path, "read s j A", "setver j 0", "enc j b", "cdec b o"]
        else:
            ops = ["load s " + path, "cenc s b", "cdec b o"]
        res.append((cid, ops, str(desc)))
    for i in range(n_bypass):
        n = rng.choice([0, 1, 2, 127, 128, 300, 70000, 200000, rng.randint(1, 5000)])
        p = put("raw%d" % i, corpus.rand_bytes(rng, n))
        res.append(("raw%d" % i, ["load s " + p, "bypass s b", "cdec b o"], "bypass %d" % n))
    return res


UNKNOWN = ["5200", "5203616263", "78960100", "720100"]


def damaged(rng, sch, log):
    d = damage(rng)
    return [d, "cdec x y", "stream x - %s %s %s" % (sch, log, "o" if d[:3] in ("cut", "tru") else "y")]


def damage(rng):
    """A random derivation of b into x."""
    k = rng.randrange(9)
    if k <= 1:
        return "cut b x %d" % rng.choice([1, 1, 2, 3, rng.randint(1, 40)])
    if k == 2:
        return "trunc b x %d" % rng.randint(0, 4000)
    if k == 3:
        return "append b x %s" % rng.choice(["00", "41", "5200", "3a00", "ffff", "0a0442d2d54e"])
    if k == 4:
        return "ins b x %d %s" % (rng.randint(1, 9), rng.choice(UNKNOWN + ["50", "5000", "08", "0800"]))
    if k == 5:
        return "drop b x %d" % rng.randint(0, 8)
    if k == 6:
        return "mov b x %d %d" % (rng.randint(0, 8), rng.randint(0, 8))
    if k == 7:
        return "dup b x %d" % rng.randint(0, 8)
    return "flip b x %d 0x%02x" % (rng.randint(0, 100000), rng.randint(1, 255))


def records(cid, meta, ev):
    """One StreamTrace record per recorded run."""
    res = []
    one = {}      # stream id -> (rc, out id, out len)
    proper = {}
    for e in ev:
        if e["op"] == "cdec" and not e["refused"]:
            one[e["in"]] = (e["rc"], e["out"], e["outlen"])
        elif e["op"] == "derive" and e["how"] in ("cut", "trunc") and e["outlen"] < e["inlen"]:
            proper[e["out"]] = e["in"]
        elif e["op"] == "stream":
            rc, o, ln = one[e["in"]]
            pre = e["in"] in proper and one.get(proper[e["in"]], (0,))[0] == 1
            res.append({"id": "%s/%d" % (cid, len(res)), "N": e["inlen"], "L": ln if rc else 0, "good": rc == 1, "prefix": pre and rc == 0,
                        "want": o, "pfx": e["pfx"], "used": e["used"], "ev": e.get("calls", []), "whole": e.get("whole", False), "gaveup": e["gaveup"], "st": e["st"], "out": e["out"],
                        "again": e["again"], "againmade": e["againmade"], "sched": e["sched"]})
        elif e["op"] == "crash":
            res.append({"id": "%s/crash" % cid, "N": 0, "L": 0, "good": True, "prefix": False, "want": "no crash", "pfx": False, "used": 0, "ev": [], "whole": True,
                        "gaveup": True, "st": "CRASH", "out": "", "again": "", "againmade": 0, "sched": json.dumps(e)})
    return res


def run(rep, exe, cases, step=800):
    """Executes, validates; rejected runs are re-executed before reporting."""
    for i in range(0, len(cases), step):
        part = cases[i:i + step]
        ev = V.drive(exe, [(c[0], c[1]) for c in part], timeout=90)
        by = {c[0]: c for c in part}
        recs = [r for c in part for r in records(c[0], c[2], ev[c[0]])]
        rep.count("runs", len(recs)); rep.count("calls", sum(len(r["ev"]) for r in recs))
        rep.count("good_runs", sum(1 for r in recs if r["good"])); rep.count("rejected_runs", sum(1 for r in recs if not r["good"]))
        stats, bad = V.validate("StreamTrace", recs, rep.prop)
        rep.add(stats)
        for rec, idx, why in bad:
            c = by[rec["id"].split("/")[0]]
            ev2 = V.drive(exe, [(c[0], c[1])], timeout=180)
            r2 = [r for r in records(c[0], c[2], ev2[c[0]]) if r["id"] == rec["id"]]
            s2, b2 = V.validate("StreamTrace", r2, rep.prop)
            if not b2:
                V.log("not repeated", rec["id"]); continue
            rec, idx, why = b2[0]
            what = rec["ev"][idx] if idx < len(rec["ev"]) else {k: rec[k] for k in ("st", "good", "out", "want", "gaveup", "again")}
            rep.violation("run %s schedule %s: call #%d of the incremental decoder not allowed: %s" % (rec["id"], rec["sched"], idx + 1, what),
                          {"ops": c[1], "run": {k: v for k, v in rec.items() if k != "ev"}, "calls": rec["ev"][:idx + 1][-20:], "source": c[2]},
                          [t.split()[2] for t in c[1] if t.startswith("load ")])
        if len(rep.violations) >= 3:
            return
