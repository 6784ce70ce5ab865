"""C15: hostile byte strings through every entry point; Hostile.tla has no action for anything but a verdict."""
import copy
import struct
import brn
import jpegmut
import jpegtok
import side
from jpeglib import sequences
from common import *

GROUP = 50


def shapes(rng, i):
    r = i % 7
    if r == 0:
        return {"sof": 0xc2, "style": rng.choice(["libjpeg", "random", "deep"]), "maxb": rng.choice([1, 2, 3])}
    if r == 1:
        return {"nc": 1, "samp": [(1, 1)], "w": rng.randint(1, 40), "h": rng.randint(1, 40), "kind": rng.choice(["dense", "large"])}
    if r == 2:
        return {"ri": rng.choice([1, 2, 5]), "maxb": 3}
    if r == 3:
        return {"nc": 3, "w": rng.randint(60, 130), "h": rng.randint(60, 130), "kind": rng.choice(["smooth", "dense", "large"]), "sof": rng.choice([0xc0, 0xc2]), "metas": []}
    if r == 4:
        return {"nc": 4, "maxb": 2}
    if r == 5:
        return {"metas": ["exif", "icc", "com", "adobe"], "tail": b"tail", "maxb": 2}
    return {"maxb": 3}


def bases(exe, n):
    rng = random.Random("C15b-%d" % V.SEED)
    fs = files(n, "C15-%d" % V.SEED, shapes)
    cases, outs = [], []
    for i, (cid, path, data, facts, desc) in enumerate(fs):
        if not facts["rep"] or not facts["valid"]:
            continue
        q = os.path.join(V.workdir(), "files", cid + ".brn")
        ops = ["load s " + path]
        if i % 5 in (1, 3):          # coefficients of any size, as an encoder's caller may hand them over
            ops += ["read s j A", "fill j %d %d %d %d" % (rng.choice([1, 3, 100, 1023, 32767]), rng.choice([0, 5, 1000, 2047]), rng.randrange(1 << 30), rng.choice([1, 5, 30, 100])),
                    "setver j %d" % rng.choice([0, 2]), "enc j b"]
        elif i % 5 == 2:
            ops += ["read s j A", "setver j 0", "enc j b"]
        else:
            ops += ["cenc s b"]
        cases.append((cid, ops + ["save b " + q]))
        outs.append((q, data))
    V.drive(exe, cases)
    return [(open(q, "rb").read(), d) for q, d in outs if os.path.exists(q) and os.path.getsize(q)]


def noise(rng, b, unit=1):
    b = bytearray(b)
    if not b:
        return bytes(rng.getrandbits(8) for _ in range(unit * rng.choice([1, 4, 50])))
    k = rng.randrange(8)
    n = len(b)
    i = rng.randrange(n // unit + 1) * unit
    if k == 0:
        return bytes(b[:i]) + bytes(rng.getrandbits(8) for _ in range(n - i))
    if k == 1:
        return bytes(b[:i]) + bytes([rng.choice([0, 255, 128, 1])]) * (n - i)
    if k == 2:
        return bytes(b[:i]) + bytes(b[i + unit:])
    if k == 3:
        return bytes(b[:i]) + bytes(rng.getrandbits(8) for _ in range(unit * rng.choice([1, 2, 30, 400]))) + bytes(b[i:])
    if k == 4:
        return bytes(b[:i])
    if k == 5:
        return bytes(rng.getrandbits(8) for _ in range(n))
    for _ in range(rng.choice([1, 1, 2, 5])):
        p = rng.randrange(n)
        b[p] ^= 1 << rng.randrange(8)
    return bytes(b)


def hostile_brn(rng, base):
    """One hostile stream and what was done to it."""
    b, jpg = rng.choice(base)
    if rng.random() < .02:
        return "random", brn.SIG + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 60, 1000])))
    secs = [[t, w, v] for t, w, v, _ in brn.split(b)]
    hdr = {t: v for t, _, v, _ in brn.split(next(s[2] for s in secs if s[0] == 2))}
    nc = (hdr[3] & 3) + 1
    what = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(["int", "int", "int", "int", "int", "quant", "hist", "hist", "coef", "coef", "coef", "meta", "splice", "header", "token", "bytes"])
        by = {s[0]: s for s in secs}
        try:
            if k == "int" and 4 in by:
                d = side.internals(by[4][2], nc)
                e = [side.edit_internals(rng, d, nc) for _ in range(rng.choice([1, 1, 2, 4]))]
                by[4][2] = side.put_internals(d)
                k += ":" + ",".join(e)
                if rng.random() < .08:
                    by[4][2] = noise(rng, by[4][2])
            elif k == "quant" and 5 in by:
                d = side.quant(by[5][2], nc)
                k += ":" + side.edit_quant(rng, d, nc)
                by[5][2] = side.put_quant(d)
                if rng.random() < .1:
                    by[5][2] = noise(rng, by[5][2])
            elif k == "hist" and 6 in by:
                by[6][2] = noise(rng, by[6][2])
            elif k == "coef":
                t = rng.choice([7, 8, 8])
                if t in by:
                    if t == 8 and rng.random() < .3:
                        by[t][2] = side.order_section(rng, by[t][2], nc)
                        k = "order"
                    else:
                        by[t][2] = noise(rng, by[t][2], 2)
                    if rng.random() < .3 and 6 in by:
                        by[6][2] = noise(rng, by[6][2])
            elif k == "meta" and 3 in by:
                by[3][2] = noise(rng, by[3][2])
            elif k == "splice":
                o = {t: v for t, _, v, _ in brn.split(rng.choice(base)[0])}
                for t in rng.sample([2, 3, 4, 5, 6, 7, 8], rng.choice([1, 1, 2, 3])):
                    if t in o and t in by:
                        by[t][2] = o[t]
                hdr = {t: v for t, _, v, _ in brn.split(by[2][2])} if 2 in by else hdr
                nc = (hdr[3] & 3) + 1
            elif k == "header" and 2 in by:
                f = rng.choice([1, 2, 3, 4, 4])
                if f == 3:
                    hdr[3] = (rng.choice([0, 2, 4, 6, 1]) << 2) | rng.randrange(4)
                elif f == 4:
                    hdr[4] = sum(rng.choice([0, 0, 1, 2, 3, 14]) << (4 * i) for i in range(2 * nc))
                else:
                    hdr[f] = max(1, min(rng.choice([65535, 3000]), rng.choice([1, hdr[f] - 1, hdr[f] + 1, hdr[f] * 2, 8, 16, 17, rng.randint(1, 300), rng.randint(1, 65535)])))
                if hdr.get(1, 1) * hdr.get(2, 1) > 1 << 20:
                    hdr[1] = min(hdr[1], 64); hdr[2] = min(hdr[2], 64)
                by[2][2] = b"".join(brn.var(t, hdr[t]) for t in sorted(hdr))
                nc = (hdr[3] & 3) + 1
            elif k == "token":
                i = rng.randrange(len(secs))
                if rng.random() < .5:
                    secs.insert(rng.randrange(len(secs) + 1), [rng.choice([3, 9, 10, 15, secs[i][0]]), 2, secs[i][2] if rng.random() < .5 else b"xyz"])
                else:
                    secs.pop(i)
        except (ValueError, StopIteration, KeyError, IndexError, TypeError):
            k += "?"
        what.append(k)
    out = b"".join(brn.SIG if t == 1 and v == brn.SIG[2:] else brn.sec(t, v) if w == 2 else brn.var(t, v) for t, w, v in secs)
    if "bytes" in what:
        out = brn.SIG + noise(rng, out[6:])
    return "+".join(what), out


def _brn(a):
    seed, i, base, n = a
    rng = random.Random("%s/%d" % (seed, i))
    return [hostile_brn(rng, base) for _ in range(n)]


def _jpg(a):
    seed, i, seqs, n = a
    rng = random.Random("%s/%d" % (seed, i))
    out = []
    for _ in range(n):
        k = rng.choice(["ent", "entp", "byte", "byteent", "tok", "soup", "big", "cut", "field", "field", "field"])
        if k == "ent":
            d = jpegmut.entropy(rng)[0]
        elif k == "entp":
            d = jpegmut.entropy(rng, sof=0xc2)[0]
        elif k == "byte":
            d = jpegmut.bytewise(rng, jpegmut.small(rng)[0])
        elif k == "byteent":
            d = jpegmut.bytewise(rng, jpegmut.entropy(rng)[0])
        elif k == "tok":
            d = jpegtok.concretise(rng.choice(seqs), rng)
        elif k == "soup":       # sequences of sequences, then damage
            d = jpegtok.concretise(sum([rng.choice(seqs) for _ in range(rng.choice([2, 3]))], []), rng)
            for _ in range(rng.choice([0, 1, 3])):
                d = jpegmut.bytewise(rng, d)
        elif k == "field":
            d = rng.choice([jpegmut.entropy, jpegmut.small])(rng, sof=rng.choice([0xc0, 0xc1, 0xc2, 0xc2]))[0]
            for _ in range(rng.choice([1, 1, 1, 2])):
                d = jpegmut.field(rng, d)
        elif k == "cut":
            d = jpegmut.entropy(rng, sof=rng.choice([0xc0, 0xc2]))[0]
            d = d[:rng.randrange(len(d) + 1)]
        else:                   # dimensions and factors that do not fit the data
            d = bytearray(jpegmut.small(rng)[0])
            i = max(d.find(b"\xff\xc0"), d.find(b"\xff\xc1"), d.find(b"\xff\xc2"))
            w, h = rng.choice([(65535, 1), (1, 65535), (300, 500), (16, 16), (65535, 65535), (rng.randint(1, 2000), rng.randint(1, 400))])
            d[i + 5:i + 9] = struct.pack(">HH", h, w)
            if rng.random() < .5 and i + 11 < len(d):
                d[i + 11] = rng.choice([0x11, 0x22, 0xff, 0x41, 0x14, 0])
            d = bytes(d)
        out.append((k, d))
    return out


def spread(fn, seed, arg, total):
    from concurrent.futures import ProcessPoolExecutor
    m = 100
    with ProcessPoolExecutor(8) as ex:
        return sum(ex.map(fn, [(seed, i, arg, m) for i in range((total + m - 1) // m)]), [])


def pack(name, items):
    return put(name, b"".join(struct.pack("<I", len(d)) + d for _, d in items))


def run(rep, exe, fn, items, tag, wrapper=(), timeout=120):
    path = pack(tag + ".bin", items)
    cases = [("%s.%d" % (tag, g), ["%s %s %d %d %d" % (fn, path, g, GROUP, V.SEED)]) for g in range(0, len(items), GROUP)]
    ev = V.drive(exe, cases, timeout=timeout, wrapper=wrapper)
    recs = [{"id": c, "ev": ev[c]} for c, _ in cases]
    rep.count("events", sum(len(v) for v in ev.values()))
    stats, bad = V.validate("HostileTrace", recs, "C15")
    rep.add(stats)
    for rec, idx, why in bad:
        g = int(rec["id"].split(".")[1])
        n = (len(rec["ev"][:idx + 1]) - 1) // 2
        if g + n >= len(items):
            n = len(items) - g - 1
        what, data = items[g + n]
        one = put("one.bin", struct.pack("<I", len(data)) + data)
        ops = ["%s %s 0 1 %d" % (fn, one, V.SEED)]
        ev2 = V.drive(exe, [("one", ops)], timeout=2 * timeout, wrapper=wrapper)["one"]
        s2, bad2 = V.validate("HostileTrace", [{"id": "one", "ev": ev2}], "C15", max_bad=1)
        if not bad2:           # needs the history before it
            ops = dict(cases)[rec["id"]]
            ev2 = V.drive(exe, [("one", ops)], timeout=2 * timeout, wrapper=wrapper)["one"]
            s2, bad2 = V.validate("HostileTrace", [{"id": "one", "ev": ev2}], "C15", max_bad=1)
        if not bad2:
            V.log("rejection of", rec["id"], "did not repeat; ignored")
            continue
        e = bad2[0][0]["ev"][bad2[0][1]] if bad2[0][1] < len(bad2[0][0]["ev"]) else {"op": "<no end>"}
        rep.violation("%s (%s, %d bytes): %s" % (fn, what, len(data), str(e)[:500]), {"what": what, "bytes": data.hex(), "events": ev2[-4:]})


def main():
    rep = V.Report("C15")
    from concurrent.futures import ThreadPoolExecutor
    defs = ['-DBDRV_EXTRA="harness/hostile.h"']
    exe = V.build("asan", defs=defs + ["-D_GLIBCXX_ASSERTIONS"])
    plain = V.build("plain", defs=["-g1"] + defs)
    base = bases(plain, 110 if not V.THOROUGH else 600)
    seqs, r = sequences()
    rep.add({"states": r.distinct, "transitions": r.states})
    nb, nj = (9000, 5000) if not V.THOROUGH else (150000, 80000)
    hb = spread(_brn, "C15h-%d" % V.SEED, base, nb)
    hj = spread(_jpg, "C15j-%d" % V.SEED, seqs, nj)
    V.log("hostile inputs ready", len(hb), len(hj))
    kinds = {}
    for w, _ in hb:
        for k in w.split("+"):
            kinds[k.split(",")[0]] = kinds.get(k.split(",")[0], 0) + 1
    rep.cov["kinds"] = kinds
    rep.sample({"what": hb[0][0], "bytes": hb[0][1].hex()[:200]}); rep.sample({"what": hj[0][0], "bytes": hj[0][1].hex()[:200]})
    for i in range(0, len(hb), 10000):
        run(rep, exe, "hbrn", hb[i:i + 10000], "hb%d" % i)
        if len(rep.violations) >= 3:
            return rep.finish()
    V.log("streams done")
    for i in range(0, len(hj), 10000):
        run(rep, exe, "hjpg", hj[i:i + 10000], "hj%d" % i)
        if len(rep.violations) >= 3:
            return rep.finish()
    V.log("files done")
    # use of memory nobody has written
    k = 240 if not V.THOROUGH else 6000
    mem = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--child-silent-after-fork=no"]
    small = [x for x in hb if len(x[1]) < 3000]
    run(rep, plain, "hbrn", small[:k], "mb", wrapper=mem, timeout=400)
    run(rep, plain, "hjpg", [x for x in hj if x[0] != "big"][:k], "mj", wrapper=mem, timeout=400)
    V.log("memcheck done")
    return rep.finish()
