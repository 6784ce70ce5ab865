"""C14: the same question always gets the same answer (Determinism.tla)."""
import json
import struct
import jpegmut
from common import *


def shapes(rng, i):
    r = i % 6
    if r == 0:
        return {"sof": 0xc2, "maxb": 4}
    if r == 1:
        return {"nc": 1, "samp": [(1, 1)], "w": rng.randint(200, 500), "h": rng.randint(8, 24), "kind": rng.choice(["dense", "large", "smooth"])}
    if r == 2:
        return {"metas": [rng.choice(["exif", "icc", "com", "adobe", "bigapp"])] * rng.randint(1, 3), "tail": b"tail" * rng.choice([0, 1, 900])}
    if r == 3:
        return {"nc": 4, "maxb": 3}
    return {"maxb": 4}


def group(exe, fs, rng, g):
    """One set of data: good and bad files, good and bad streams."""
    ops = []
    for k, f in enumerate(fs):
        q = os.path.join(V.workdir(), "files", "g%d-%d.b" % (g, k))
        ops.append(("g%d-%d" % (g, k), ["load s " + f[1]] + (["read s j A", "setver j 0", "enc j b"] if k % 3 == 2 and f[3]["rep"] else ["cenc s b"] if f[3]["rep"] and k % 5 != 4 else ["bypass s b"]) + ["save b " + q]))
    return ops


def items_of(fs, rng, g):
    it = []
    for k, f in enumerate(fs):
        it.append((b"j", f[2]))
        p = os.path.join(V.workdir(), "files", "g%d-%d.b" % (g, k))
        b = open(p, "rb").read() if os.path.exists(p) else b""
        if not b:
            continue
        it.append((b"b", b))
        if rng.random() < .6:
            d = bytearray(b)
            n = rng.randrange(6, len(d))
            if rng.random() < .5:
                d = d[:n]
            else:
                d[n] ^= 1 << rng.randrange(8)
            it.append((b"b", bytes(d)))
    it.append((b"j", jpegmut.bytewise(rng, jpegmut.small(rng)[0])))
    return it


def main():
    rep = V.Report("C14")
    r = V.tlc("DetMC"); rep.add({"states": r.distinct, "transitions": r.states})
    if not r.ok:
        raise V.CheckError("the model of a clean library is not deterministic")
    if V.tlc("DetMC", cfg="DetMCLeak.cfg", keep_out=True).ok:
        raise V.CheckError("the model does not notice a leak")
    rng = random.Random("C14-%d" % V.SEED)
    d = ['-DBDRV_EXTRA="harness/det.h"']
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        asan, tsan, plain = ex.map(lambda k: V.build(k, name="det", defs=d), ["asan", "tsan", "plain"])
    ng, per = (14, 7) if not V.THOROUGH else (120, 9)
    fs = files(ng * per, "C14-%d" % V.SEED, shapes)
    V.drive(asan, [o for g in range(ng) for o in group(asan, fs[g * per:(g + 1) * per], rng, g)])
    calls = 500 if not V.THOROUGH else 1500
    plans, data = {}, {}
    for g in range(ng):
        it = items_of(fs[g * per:(g + 1) * per], rng, g)
        data[g] = it
        p = put("items%d" % g, b"".join(k + struct.pack("<I", len(x)) + x for k, x in it))
        one = []
        for i, (k, x) in enumerate(it):      # each piece of data alone, in a process of its own
            q = put("item%d-%d" % (g, i), k + struct.pack("<I", len(x)) + x)
            one.append(("a%d-%d" % (g, i), ["det %s %d 1 40 1" % (q, V.SEED + 7 * i)]))
        plans[g] = (p, one)
    runs = []                                # (build, env, cases)
    runs.append((plain, {"MALLOC_PERTURB_": "165"}, [c for g in plans for c in plans[g][1]]))
    for n, (exe, env, th, dec) in enumerate([(asan, {}, 1, 7), (asan, {}, 4, 5), (plain, {"MALLOC_PERTURB_": "85"}, 1, 9), (plain, {"MALLOC_PERTURB_": "255"}, 6, 6), (tsan, {}, 4, 6)]):
        runs.append((exe, env, [("r%d-%d" % (n, g), ["det %s %d %d %d %d" % (plans[g][0], V.SEED * 100 + n, th, calls * 2 // th if th > 1 else calls, dec)]) for g in plans]))
    V.log("data ready", sum(len(x) for x in data.values()))

    def execute(runs):
        hist, crashed = {}, []
        for n, (exe, env, cases) in enumerate(runs):
            save = {k: os.environ.get(k) for k in env}
            os.environ.update(env)
            try:
                ev = V.drive(exe, cases, timeout=60, jobs=8 if n == 0 else 4)
            finally:
                for k, v in save.items():
                    os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
            V.log("run", n, sum(len(v) for v in ev.values()))
            if len(crashed) >= 3:
                break
            for cid, es in ev.items():
                if cid[0] == "a":
                    g, base = [int(x) for x in cid[1:].split("-")]
                else:
                    g, base = int(cid.split("-")[1]), 0
                for e in es:
                    if e["op"] == "end":
                        continue
                    if e["op"] == "crash":
                        crashed.append((cid, e)); continue
                    e["run"] = "%d %s" % (n, cid)
                    i = base + e["i"]
                    if e["op"] == "f":
                        e["d"] = cid + "." + e["d"]
                        k = (g, i, e["sch"])
                    else:
                        k = (g, i, "r")
                    hist.setdefault(k, []).append(e)
        return hist, crashed

    def record(k, es):
        if k[2] == "r":
            return {"id": "%s/%s/%s" % k, "ev": [{x: e[x] for x in ("op", "key", "route", "res", "kept", "run")} for e in es]}
        return {"id": "%s/%s/%s" % k, "ev": [{x: e[x] for x in ("op", "d", "a", "res", "kept", "run")} for e in es]}

    def split(hist):
        """Cases of bounded size; each keeps the first run's answers as reference."""
        out = []
        for k, es in sorted(hist.items(), key=str):
            if k[2] != "r":
                by = {}
                for e in es:
                    by.setdefault(e["d"], []).append(e)
                ds = list(by.values())
                ref = max(ds, key=len)
                ds = [x for x in ds if x is not ref]
                for a in range(0, max(1, len(ds)), 12):
                    out.append((k, ref + [e for x in ds[a:a + 12] for e in x]))
            else:
                out.append((k, es))
        return out

    for again in (0,):
        hist, crashed = execute(runs)
        sp = split(hist)
        rep.count("calls", sum(len(v) for v in hist.values()))
        rep.count("questions", len({(k, e["key"] if k[2] == "r" else e["n"]) for k, v in hist.items() for e in v}))
        recs = [record(k, es) for k, es in sp]
        if again == 0:
            rep.sample(recs[0]["ev"][:4]); rep.sample(next(r for r in recs if r["ev"][0]["op"] == "f")["ev"][:4])
        stats, bad = V.validate("DetTrace", recs, rep.prop)
        if again == 0:
            rep.add(stats)
        for cid, e in crashed[:3]:
            g = int(cid[1:].split("-")[0]) if cid[0] == "a" else int(cid.split("-")[1])
            bad.append(({"id": "%d" % g, "ev": [{"run": cid, **e}]}, 0, "crash"))
        if not bad:
            break
        for rec, idx, why in bad:
            e = rec["ev"][idx]
            g = int(rec["id"].split("/")[0])
            ref = next((x for x in rec["ev"][:idx] if x["op"] == e["op"] and (x.get("key") == e.get("key"))), None) if e["op"] == "r" else None
            rep.violation("%s on data %s answered %s%s" % (e.get("route", "call"), rec["id"], json.dumps(e)[:300], "; before: " + json.dumps(ref)[:300] if ref else ""),
                          {"events": rec["ev"][:idx + 1][-80:]}, [plans[g][0]])
        break
    return rep.finish()
