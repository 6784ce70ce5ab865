"""C12: output callbacks of EncodeBrunsli, DecodeBrunsli and WriteJpeg."""
from common import *


def shapes(rng, i):
    r = i % 4
    t = corpus.rand_bytes(rng, rng.choice([65536, 65535, 70000, 131072, 140000, 200000, 65536 * 3])) if r < 2 else b""
    if r == 1:
        return {"metas": ["bigapp", "bigapp", "com"], "tail": t}
    if r == 0:
        return {"tail": t}
    if r == 2:
        return {"maxb": 16, "w": 128, "h": rng.randint(100, 200), "nc": 3, "samp": [(1, 1)] * 3, "kind": rng.choice(["large", "dense"])}
    return {}


def records(cid, meta, ev):
    res = []
    for e in ev:
        if e["op"] == "sink":
            res.append({"id": "%s/%d" % (cid, len(res)), "L": e["L"], "calls": e["calls"], "rc": e["rc"], "pref": e["pref"], "inmod": e["inmod"], "fn": e["fn"], "at": e["at"], "ans": e["ans"], "crash": False})
        elif e["op"] == "crash":
            res.append({"id": "%s/crash" % cid, "L": 0, "calls": [], "rc": 0, "pref": False, "inmod": False, "fn": e["what"], "at": 0, "ans": 0, "crash": True})
    return res


def main():
    rep = V.Report("C12")
    exe = V.build("asan")
    rng = random.Random("C12-%d" % V.SEED)
    r = V.tlc("Sink"); rep.add({"states": r.distinct, "transitions": r.states})
    n = 90 if not V.THOROUGH else 800
    cases = []
    for i, (cid, path, data, facts, desc) in enumerate(files(n, "C12-%d" % V.SEED, shapes)):
        if not facts["rep"]:
            continue
        cases.append((cid, ["load s " + path, "cenc s b", "sinks cenc s b %d" % i, "sinks cdec b s %d" % i, "read s j A", "sinks write j s %d" % i, "dec b k", "sinks write k s %d" % i], None))
    for i in range(20):
        k = rng.choice([0, 1, 100, 65536, 200000])
        cases.append(("raw%d" % i, ["load s " + put("r%d" % i, corpus.rand_bytes(rng, k)), "bypass s b", "sinks cdec b s %d" % i, "dec b k", "sinks write k s 1"], None))
    ev = V.drive(exe, [(c[0], c[1]) for c in cases], timeout=120)
    recs = [r for c in cases for r in records(c[0], None, ev[c[0]])]
    rep.count("function_runs", len(recs)); rep.count("callback_calls", sum(len(r["calls"]) for r in recs)); rep.count("refused_runs", sum(1 for r in recs if r["at"] >= 0))
    rep.sample(recs[0]); rep.sample(recs[-1])
    stats, bad = V.validate("SinkTrace", recs, "C12")
    rep.add(stats)
    by = {c[0]: c for c in cases}
    for r0, idx, why in bad:
        c = by[r0["id"].split("/")[0]]
        ev2 = V.drive(exe, [(c[0], c[1])], timeout=200)
        r2 = [r for r in records(c[0], None, ev2[c[0]]) if r["id"] == r0["id"]]
        s2, b2 = V.validate("SinkTrace", r2, "C12")
        if b2:
            rep.violation("%s with callback answer #%d at call %d: rc=%d calls=%s" % (r0["fn"], r0["ans"], r0["at"], r0["rc"], r0["calls"][:12]), {"record": r0, "ops": c[1]}, [c[1][0].split()[2]])
    return rep.finish()
