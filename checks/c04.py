"""C04: the container grammar, every enumerated token sequence."""
import json
import brn
from common import *

TAG = {"sig": 1, "hdr": 2, "meta": 3, "int": 4, "quant": 5, "hist": 6, "dc": 7, "ac": 8, "orig": 9}


def images(exe, rng, n):
    """Base images with the bodies of the streams the encoder makes of them."""
    fixes = [{"nc": 1, "samp": [(1, 1)], "w": 8, "h": 8, "sof": 0xc0, "metas": [], "tail": b"", "extra": None, "pad": "1"},
             {"nc": 3, "samp": [(2, 2), (1, 1), (1, 1)], "w": 20, "h": 30, "sof": 0xc0, "metas": ["jfif", "com"], "extra": None},
             {"nc": 3, "samp": [(1, 1)] * 3, "sof": 0xc2, "w": 30, "h": 9, "ri": 2, "style": "libjpeg", "pad": "r", "metas": ["exif"]},
             {"nc": 4, "w": 17, "h": 33, "kind": "dense", "metas": [], "tail": b"", "extra": None},
             {"nc": 2, "metas": ["icc", "adobe"], "tail": b"abc"},
             {"nc": 1, "samp": [(1, 1)], "w": 300, "h": 8, "metas": [], "kind": "smooth", "tail": b"", "extra": None}]
    # images whose other sections still fit when one header field is just out of range
    edge = [{"nc": 1, "samp": [(1, 1)], "w": 65535, "h": rng.randint(1, 8), "sof": 0xc0, "metas": [], "tail": b"", "extra": None, "ri": 0},
            {"nc": 1, "samp": [(1, 1)], "w": rng.randint(1, 8), "h": 65535, "sof": 0xc0, "metas": [], "tail": b"", "extra": None, "ri": 0},
            {"nc": 1, "samp": [(1, 1)], "w": rng.randint(121, 128), "h": rng.randint(121, 128), "sof": 0xc0, "metas": [], "tail": b"", "extra": None, "ri": 0}]
    fixes = edge if n == 0 else fixes
    n = n or len(edge)
    res = []
    cases = []
    for i in range(n):
        while True:
            d, f, s = corpus.make(rng, **fixes[i % len(fixes)])
            if f["rep"]:
                break
        p = put("img%d.jpg" % i, d)
        q = os.path.join(V.workdir(), "files", "img%d.brn" % i)
        cases.append(("i%d" % i, ["load s " + p, "cenc s b", "save b " + q] if i % 3 else ["load s " + p, "read s j A", "setver j 0", "enc j b", "save b " + q]))
        res.append((d, f, q))
    V.drive(exe, cases)
    out = []
    for d, f, q in res:
        b = open(q, "rb").read()
        sec = {}
        for tag, wire, pay, raw in brn.split(b):
            sec[tag] = pay
        hv = {}
        for tag, wire, pay, raw in brn.split(sec[2]):
            hv[tag] = pay
        need = f["napp"] + f["ncom"] + f["ntail"] > 0 or 0xff in f["markers"]
        out.append({"jpg": d, "need": need, "sec": sec, "hv": hv, "brn": b})
    return out


def wide(v, extra):
    n = len(brn.base128(v))
    return brn.base128(v, min(9, n + extra))


def item(it, im, rng):
    t, w, v = it["t"], it["w"], it["v"]
    hv = im["hv"]
    head = bytes([(t << 3 | {"var": 0, "sec": 2, "bad": rng.choice([1, 3, 4, 5, 6, 7])}[w]) & 255])
    if w == "sec":
        if v == "over":
            return head + b"\x80" * 9 + b"\x00"
        body = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 3, 200])))
        if v == "cross":
            return head + brn.base128(len(body) + 5000) + body
        return head + brn.base128(len(body)) + body
    if v == "over":
        return head + b"\x80" * 9 + b"\x01"
    val = {"good": hv.get(t, 0), "zero": 0, "toobig": 65536 if im["hv"].get(t) == 65535 else 65536 + rng.choice([0, 1, 8, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 8, 1 << 40]), "any": rng.getrandbits(rng.choice([3, 20, 60])),
           "v1": 4 | rng.randrange(4), "vodd": rng.choice([3, 5, 7, 9, 255]) << 2 | rng.randrange(4), "v8": rng.choice([8, 10, 16, 1 << 20, 1 << 30, 1 << 33]) << 2 | (hv[3] & 3),
           "s16": hv.get(4, 0) | 0xf << (4 * rng.randrange(2 * ((hv[3] & 3) + 1)))}[v]
    if v == "good" and rng.random() < .3:
        return head + wide(val, rng.randint(1, 8))
    return head + brn.base128(val)


def token(t, im, rng, rest):
    k, w, b, l = t["k"], t["w"], t["b"], t["l"]
    if k == "sig" and w == "sec":
        return brn.SIG if b == "ok" else brn.SIG[:2] + bytes([brn.SIG[2] ^ 1]) + brn.SIG[3:]
    tag = TAG.get(k)
    if tag is None:
        tag = int(k[3:])
    head = bytes([(tag << 3 | {"var": 0, "sec": 2, "bad": rng.choice([1, 3, 4, 5, 6, 7])}[w]) & 255])
    if w == "var":
        v = rng.getrandbits(rng.choice([1, 7, 14, 40]))
        return head + (b"\x80" * 9 + b"\x01" if l == "over" else wide(v, 1 + rng.randrange(5)) if l == "wide" else brn.base128(v))
    if k == "hdr":
        body = b"".join(item(i, im, rng) for i in t["items"]) if t["items"] or b == "ok" else b""
    elif k == "orig":
        body = im["jpg"]
    elif b == "any" or k == "sig":
        body = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 130]))) if tag > 9 else b"\xff" * 4
    else:
        body = im["sec"][tag]
        n = 2 if k in ("dc", "ac") else 1
        if not body and b in ("long", "short"):
            body = b"\xff" * (n + 1)
        if b == "long":
            body += bytes(rng.getrandbits(8) for _ in range(n * rng.choice([1, 2])))
        elif b == "short":
            body = body[:-n]
        elif b == "odd":
            body = body + b"\x00" if rng.random() < .5 else body[:-1]
    n = len(body)
    if l == "huge":
        n += rest + rng.choice([1, 2, 1000, 1 << 31, 1 << 32, 1 << 62])
    ln = b"\x80" * 9 + b"\x01" if l == "over" else wide(n, 1 + rng.randrange(7)) if l == "wide" else brn.base128(n)
    return head + ln + body


def concretise(toks, im, rng):
    out = b""
    for i in range(len(toks) - 1, -1, -1):
        out = token(toks[i], im, rng, len(out)) + out
    return out


def short_possible(t, im):
    return True


def main():
    rep = V.Report("C04")
    exe = V.build("asan")
    rng = random.Random("C04-%d" % V.SEED)
    gen = os.path.join(V.workdir(), "cont.ndjson")
    r = V.tlc("ContainerGen", env={"OUT": gen})
    rep.add({"states": r.distinct, "transitions": r.states})
    seqs = [json.loads(x) for x in open(gen)]
    seqs.sort(key=json.dumps)
    rep.count("token_sequences", len(seqs))
    ims = images(exe, rng, 6 if not V.THOROUGH else 30)
    inst = []
    for i, s in enumerate(seqs):
        for im in ([ims[(i + V.SEED) % len(ims)]] if not V.THOROUGH else rng.sample(ims, 6)):
            inst.append((s, im, concretise(s, im, rng), False))
    edge = images(exe, rng, 0)
    for s in seqs:
        vs = [i["v"] for t in s for i in t["items"]]
        for im in edge:
            if len(s) == 8 and ("toobig" in vs and im is not edge[2] or "s16" in vs and im is edge[2]) or all(v == "good" for v in vs) and len(vs) == 4 and len(s) == 8 and rng.random() < .01:
                for _ in range(1 if "toobig" in vs else 3):
                    inst.append((s, im, concretise(s, im, rng), False))
    # the same machine on streams that stop inside a token
    base = [s for s in seqs if len(s) >= 3][:]
    for _ in range(1500 if not V.THOROUGH else 12000):
        s = rng.choice(base)
        im = rng.choice(ims)
        n = rng.randint(1, len(s))
        whole = concretise(s[:n], im, rng)
        head = concretise(s[:n - 1], im, rng)
        last = token(s[n - 1], im, rng, 0)
        if s[n - 1]["l"] == "huge" or len(last) < 2:
            continue
        cutn = rng.randint(1, len(last) - 1)
        if s[n - 1]["k"] == "hdr" or rng.random() < .5:
            cutn = min(len(last) - 1, rng.randint(1, 3))
        inst.append((s[:n], im, head + last[:-cutn], True))
    recs, cases = {}, []
    B = 40
    for g in range(0, len(inst), B):
        ops, meta = [], []
        for j, (s, im, x, cut) in enumerate(inst[g:g + B]):
            sch = ["a,a", "1,a", rng.choice(["7,3", "s,a", "h,a;1,1", "a,1", "t,100", "i,a;0,0;1,7"])]
            ops += ["hex x %s" % (x.hex() or ""), "dec x k", "cdec x o"] + ["stream x - " + q for q in sch]
            meta.append((s, im, x, cut))
        cases.append(("g%d" % (g // B), ops, meta))

    def records(cid, meta, ev):
        res = []
        n = 5
        crash = [e for e in ev if e["op"] == "crash"]
        evs = [e for e in ev if e["op"] not in ("crash", "end")]
        for j, (s, im, x, cut) in enumerate(meta):
            e = evs[j * n:(j + 1) * n]
            if len(e) < n:
                if crash:
                    res.append({"id": "%s/%d" % (cid, j), "toks": s, "needmeta": im["need"], "cut": cut, "crash": True, "st": -1, "rc": -1, "out": "", "want": "", "streams": [], "what": crash[0]["what"], "hex": x.hex()})
                return res
            res.append({"id": "%s/%d" % (cid, j), "toks": s, "needmeta": im["need"], "cut": cut, "crash": False, "st": e[0]["st"], "rc": e[1]["rc"], "out": e[1]["out"],
                        "want": G.file_id(im["jpg"]), "streams": [[q["st"], q["out"], "whole" if q["pfx"] else ""] for q in e[2:]], "hex": x.hex()})
        return res

    def go(cs):
        ev = V.drive(exe, [(c[0], c[1]) for c in cs])
        return [r for c in cs for r in records(c[0], c[2], ev[c[0]])]
    allrecs = go(cases)
    rep.count("streams", len(allrecs)); rep.count("accepted", sum(1 for r in allrecs if r["rc"] == 1)); rep.count("incomplete", sum(1 for r in allrecs if r["st"] == 7))
    rep.sample({k: allrecs[7][k] for k in ("toks", "st", "rc", "streams")})
    for i in range(0, len(allrecs), 4000):
        stats, bad = V.validate("ContainerTrace", allrecs[i:i + 4000], "C04", max_bad=8 if os.environ.get("DEBUG") else 3)
        rep.add(stats)
        for r0, idx, why in bad:
            cid, j = r0["id"].split("/")
            c = [c for c in cases if c[0] == cid][0]
            again = [r for r in go([(c[0], c[1], c[2])]) if r["id"] == r0["id"]]
            s2, b2 = V.validate("ContainerTrace", again, "C04")
            if not b2:
                continue
            r1 = b2[0][0]
            rep.violation("token sequence %s answered dec=%s rc=%s streams=%s%s" % (
                " ".join("%s.%s.%s.%s%s" % (t["k"], t["w"], t["b"], t["l"], "[" + ",".join("%d%s:%s" % (q["t"], q["w"], q["v"]) for q in t["items"]) + "]" if t["items"] else "") for t in r1["toks"]) + (" <cut>" if r1["cut"] else ""),
                r1["st"], r1["rc"], r1["streams"], " crash " + r1["what"] if r1["crash"] else ""), r1)
        if len(rep.violations) >= 3:
            break
    return rep.finish()
