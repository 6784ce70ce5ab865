"""C16: the estimate against every allocation decoding makes."""
import json
import brn
import c04
from common import *


def shapes(rng, i):
    k = i % 16
    one = {"nc": 1, "samp": [(1, 1)], "metas": [], "tail": b"", "extra": None}
    if k == 0:
        return dict(one, w=rng.choice([8000, 20000, 65535]), h=rng.randint(1, 16), kind="zero", sof=0xc0, ri=0)
    if k == 1:
        return {"nc": 4, "samp": [(1, 1)] * 4, "w": rng.randint(2000, 9000), "h": 8, "kind": rng.choice(["zero", "smooth"]), "metas": [], "tail": b"", "sof": 0xc0}
    if k == 2:
        return dict(one, w=16, h=rng.randint(3000, 20000), kind="zero", sof=0xc0)
    if k == 3:
        return {"nc": 3, "samp": [(1, 1)] * 3, "w": rng.randint(300, 700), "h": rng.randint(300, 600), "kind": rng.choice(["sparse", "tail", "mixed"]), "metas": [], "tail": b""}
    if k == 4:
        return dict(one, w=8, h=8, kind="zero", metas=[("app", rng.randrange(16), bytes(rng.choice([65500, 3000])))] * rng.choice([1, 16, 40]))
    if k == 5:
        return dict(one, w=8, h=8, kind="zero", tail=bytes(rng.choice([1 << 20, 1 << 18, 3 << 20])))
    if k == 6:
        return dict(one, w=rng.randint(300, 900), h=rng.randint(100, 800), kind="zero", ri=1, pad="r")
    if k == 7:
        return dict(one, w=rng.randint(200, 500), h=rng.randint(100, 500), kind="sparse", sof=0xc2, style=rng.choice(["deep", "random", "bands"]), p_zr=1.0, p_reset=1.0)
    if k == 8:
        return dict(one, w=8, h=8, metas=[rng.choice(["com", "empty"])] * rng.randint(200, 1000))
    if k == 9:
        return {"nc": 4, "samp": [(1, 1)] * 4, "w": rng.randint(200, 500), "h": rng.randint(200, 400), "kind": rng.choice(["sparse", "tail", "dconly", "hfzero"]), "metas": [], "tail": b"", "sof": 0xc0}
    if k == 10:
        return dict(one, w=rng.randint(2000, 8200), h=8, samp=[rng.choice([(15, 15), (1, 15), (15, 1)])], kind="zero", sof=0xc0)
    if k == 11:
        return {"nc": 4, "samp": [(1, 1)] * 4, "w": rng.choice([800, 1200]), "h": 800, "kind": "zero", "metas": [], "tail": b"", "sof": 0xc0, "ri": 0}
    if k == 12:
        return {"nc": 3, "w": rng.randint(1000, 4000), "h": rng.randint(1, 64), "kind": "grad", "metas": [], "tail": b""}
    if k == 13:
        return {"metas": ["bigapp"] * 16}
    return {}


def damage(data, rng):
    """Bytes of the DC or AC section replaced."""
    out, at = bytearray(data), 0
    for tag, wire, pay, raw in brn.split(data):
        if tag in (7, 8) and len(pay):
            s = at + len(raw) - len(pay)
            for _ in range(rng.choice([1, 1, 4, 50])):
                out[s + rng.randrange(len(pay))] = rng.getrandbits(8)
        at += len(raw)
    return bytes(out)


def main():
    rep = V.Report("C16")
    rng = random.Random("C16-%d" % V.SEED)
    r = V.tlc("Memory", cfg="MemoryMC.cfg"); rep.add({"states": r.distinct, "transitions": r.states})
    if not r.ok:
        raise V.CheckError("the accounting model fails")
    for d in ("coef", "side", "comp", "blocks", "hist"):
        if V.tlc("Memory", cfg="MemoryBad_%s.cfg" % d, keep_out=True).ok:
            raise V.CheckError("an estimate without %s passes" % d)
    exe = V.build("plain", name="peak", defs=['-DBDRV_EXTRA="harness/peak.h"'])
    n = 240 if not V.THOROUGH else 3000
    fs = files(n, "C16-%d" % V.SEED, shapes)
    V.log("files made")
    cases, meta = [], {}

    def add(cid, ops, **m):
        cases.append((cid, ops, m)); meta[cid] = m
    first = []
    for cid, path, data, facts, desc in fs:
        if facts["rep"]:
            q = os.path.join(V.workdir(), "files", cid + ".brn")
            ver = ["read s j A", "setver j %d" % rng.choice([0, 2]), "enc j b"]
            first.append((cid, ["load s " + path] + ver + ["save b " + q], q, data))
    V.drive(exe, [(c[0], c[1]) for c in first])
    for cid, ops, q, data in first:
        if not os.path.exists(q) or not os.path.getsize(q):
            V.log("not encoded", cid); continue
        add(cid, ["load b " + q, "peak b"], kind="emitted", toks=[], cut=False)
        b = open(q, "rb").read()
        add(cid + "d", ["load b " + put(cid + ".dmg", damage(b, rng)), "peak b"], kind="coefdamage", toks=[], cut=False)
    for i in range(20):
        add("raw%d" % i, ["load s " + put("raw%d" % i, corpus.rand_bytes(rng, rng.choice([0, 1, 50, 5000, 100000]))), "bypass s b", "peak b"], kind="emitted", toks=[], cut=False)
    add("none", ["estnull 0", "estnull 100"], kind="absent", toks=[], cut=False)
    # container sequences: the header part
    gen = os.path.join(V.workdir(), "cont.ndjson")
    V.tlc("ContainerGen", env={"OUT": gen})
    seqs = [json.loads(x) for x in open(gen)]
    seqs.sort(key=json.dumps)
    ims = c04.images(exe, rng, 6)
    pick = rng.sample(seqs, 1500) if not V.THOROUGH else seqs * 3
    for i, s in enumerate(pick):
        im = rng.choice(ims)
        x = c04.concretise(s, im, rng)
        add("k%d" % i, ["hex b " + x.hex(), "peak b"], kind="tokens", toks=s, cut=False)
        if len(s) >= 2 and rng.random() < .3:
            h = c04.concretise(s[:2], im, rng)
            h1 = c04.concretise(s[:1], im, rng)
            if s[1]["l"] != "huge" and len(h) > len(h1) + 1:
                # cut inside the second token
                add("h%d" % i, ["hex b " + h[:rng.randrange(len(h1) + 1, len(h))].hex(), "peak b"], kind="tokens", toks=s[:2], cut=True)

    def go(cs):
        ev = V.drive(exe, [(c[0], c[1]) for c in cs])
        res = []
        for cid, ops, m in cs:
            for e in ev[cid]:
                r = {"id": cid, "kind": m["kind"], "toks": m["toks"], "cut": m["cut"], "crash": e["op"] == "crash", "zero": False, "est": 0, "pts": [], "st": -1}
                if e["op"] == "est":
                    r["zero"] = e["zero"]
                elif e["op"] == "peak":
                    r.update(zero=e["est"] == 0, est=e["est"], pts=e["pts"], st=e["st"], peak=e["peak"])
                elif e["op"] != "crash":
                    continue
                res.append(r)
        return res
    recs = go(cases)
    rep.count("decodings", len(recs)); rep.count("allocation_turning_points", sum(len(r["pts"]) for r in recs))
    em = [r for r in recs if r["kind"] == "emitted" and r["est"]]
    rep.cov["closest_peak_to_estimate"] = max(r["peak"] / r["est"] for r in em)
    rep.count("within_five_percent", sum(r["peak"] > .95 * r["est"] for r in em))
    rep.sample({k: v for k, v in em[0].items() if k != "pts"})
    stats, bad = V.validate("MemTrace", recs, "C16")
    rep.add(stats)
    by = {c[0]: c for c in cases}
    for r0, idx, why in bad:
        c = by[r0["id"]]
        s2, b2 = V.validate("MemTrace", go([c]), "C16", max_bad=1)
        if not b2:
            V.log("did not repeat", r0["id"]); continue
        r1 = b2[0][0]
        rep.violation("%s stream %s: estimate %s, allocated at peak %s, decoding status %s" % (r1["kind"], r1["id"], r1["est"], r1.get("peak"), r1["st"]),
                      {"ops": c[1], "record": {k: v for k, v in r1.items() if k != "pts"}}, [o.split()[2] for o in c[1] if o.startswith("load ")])
    return rep.finish()
