"""Random JPEG scripts of many shapes (concretised with jpeggen)."""
import random
import jpeggen as G


def coef_fn(rng, kind, comps):
    """Returns a coefficient generator: (ci, by, bx) -> 64 values, zigzag."""
    state = {}

    def smooth(ci, by, bx):
        dc = state.get(ci, 0) + rng.randint(-12, 12)
        dc = max(-900, min(900, dc))
        state[ci] = dc
        b = [0] * 64
        b[0] = dc
        for k in range(1, 64):
            if rng.random() < 6.0 / (k + 6) * 0.6:
                m = max(1, int(40 / (k + 2)))
                b[k] = rng.randint(-m, m)
        return b

    def sparse(ci, by, bx):
        b = [0] * 64
        if rng.random() < 0.5:
            b[0] = rng.randint(-60, 60)
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            b[rng.randrange(1, 64)] = rng.choice([-2, -1, 1, 1, 2, 5])
        return b

    def dense(ci, by, bx):
        b = [rng.randint(-40, 40) for _ in range(64)]
        b[0] = rng.randint(-500, 500)
        return b

    def large(ci, by, bx):
        b = [0] * 64
        b[0] = rng.choice([-1024, 1023, 0, 500, -500, 1000, -1000])
        for k in range(1, 64):
            if rng.random() < 0.25:
                b[k] = rng.choice([1, -1]) * rng.choice([1, 2, 3, 7, 8, 63, 64, 255, 511, 512, 1023, 1024, 2047])
        return b

    def zero(ci, by, bx):
        return [0] * 64

    def dconly(ci, by, bx):
        b = [0] * 64
        b[0] = rng.randint(-1000, 1000)
        return b

    def tail(ci, by, bx):
        b = [0] * 64
        b[0] = rng.randint(-100, 100)
        b[63] = rng.choice([0, 1, -1, 3])
        b[62] = rng.choice([0, 0, 1])
        b[rng.randrange(1, 64)] = rng.choice([0, 1])
        return b

    def grad(ci, by, bx):
        b = [0] * 64
        b[0] = max(-1000, min(1000, by * 37 + bx * 11 - 300 * ci))
        b[1] = (bx * 7 + by) % 31 - 15
        b[2] = (by * 5 - bx) % 29 - 14
        b[9] = rng.choice([0, 0, 0, 3])
        return b

    def mixed(ci, by, bx):
        return rng.choice([smooth, sparse, dense, large, zero, dconly, tail])(ci, by, bx)

    def hfzero(ci, by, bx):
        b = smooth(ci, by, bx)
        n = rng.randint(0, 63)
        for k in range(n + 1, 64):
            b[k] = 0
        return b

    const = {}

    def full2(ci, by, bx):     # no coefficient zero, all to be refined; few distinct blocks
        k = rng.randrange(16)
        if k not in const:
            const[k] = [rng.choice([-1, 1]) * rng.choice([2, 3]) for _ in range(64)]
        return const[k]

    def part2(ci, by, bx):     # the same with gaps and coefficients that appear late
        return [rng.choice([0, 0, 2, -2, 3, -3]) for _ in range(64)] if rng.random() < .97 else sparse(ci, by, bx)

    def ff(ci, by, bx):        # amplitudes of ones only: many 0xff bytes
        m = rng.choice([1023, 1023, 511, 255])
        return [m if rng.random() < .97 else 0 for _ in range(64)]

    return {"ff": ff, "full2": full2, "part2": part2, "smooth": smooth, "sparse": sparse, "dense": dense, "large": large, "zero": zero, "dconly": dconly,
            "tail": tail, "grad": grad, "mixed": mixed, "hfzero": hfzero}[kind]


KINDS = ["smooth", "sparse", "dense", "large", "zero", "dconly", "tail", "grad", "mixed", "hfzero"]

ICC = b"ICC_PROFILE\x00"


def rand_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def metadata(rng, what):
    """One APPn/COM segment as a build() tuple."""
    if what == "jfif":
        return ("app", 0, b"JFIF\x00\x01" + bytes([rng.choice([1, 2]), rng.choice([0, 1, 2])]) +
                G.be16(rng.choice([1, 72, 96, 100, 300])) + G.be16(rng.choice([1, 72, 96, 300])) + b"\x00\x00")
    if what == "jfif_odd":
        return ("app", 0, b"JFIF\x00\x01\x01" + rand_bytes(rng, rng.randint(0, 12)))
    if what == "adobe":
        return ("app", 14, b"Adobe\x00\x64" + rand_bytes(rng, 4) + bytes([rng.choice([0, 1, 2])]))
    if what == "adobe_std":
        return ("app", 14, b"Adobe\x00\x64\x00\x00\x00\x00" + bytes([rng.choice([0, 1, 2])]))
    if what == "ducky":
        return ("app", 12, b"Ducky\x00\x01\x00\x04\x00\x00\x00" + bytes([rng.randint(0, 100)]) + b"\x00\x00")
    if what == "icc":
        return ("app", 2, ICC + bytes([1, 1]) + rand_bytes(rng, rng.choice([1, 100, 3144 - 14, 500])))
    if what == "exif":
        return ("app", 1, b"Exif\x00\x00" + rand_bytes(rng, rng.randint(0, 3000)))
    if what == "xmp":
        return ("app", 1, b"http://ns.adobe.com/xap/1.0/\x00" + b"<x:xmpmeta>" * rng.randint(1, 100))
    if what == "ps":
        return ("app", 13, b"Photoshop 3.0\x00" + rand_bytes(rng, rng.randint(0, 300)))
    if what == "com":
        return ("com", bytes(rng.choice(b"abc \xff\xd8\x00") for _ in range(rng.randint(0, 40))))
    if what == "any":
        return ("app", rng.randrange(16), rand_bytes(rng, rng.choice([0, 1, 2, 5, 14, 127, 128, 300])))
    if what == "empty":
        return ("app", rng.randrange(16), b"")
    if what == "bigapp":
        return ("app", rng.randrange(16), rand_bytes(rng, rng.choice([65533, 65000, 20000])))
    if what == "thumb":
        return ("app", 1, b"Exif\x00\x00\xff\xd8\xff\xdb\x00\x04\x00\x01\xff\xc0\x00\x0b\x08\x00\x10\x00\x10\x01\x01\x11\x00\xff\xda\x00\x08\xff\xd9")
    if what == "stockicc":
        import os
        g = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden", "e2.bin"), "rb").read()
        return ("app", 2, g[3:84] + bytes([rng.choice([g[84], g[84], 0, 200])]) + g[85:])
    raise KeyError(what)


META = ["jfif", "jfif_odd", "adobe", "adobe_std", "ducky", "icc", "exif", "xmp", "ps", "com", "any", "empty", "thumb"]

SAMPLINGS = {
    1: [[(1, 1)], [(2, 2)], [(1, 2)], [(4, 1)], [(15, 15)], [(3, 3)], [(2, 1)]],
    2: [[(1, 1), (1, 1)], [(2, 1), (1, 1)], [(1, 1), (2, 2)], [(3, 1), (1, 3)]],
    3: [[(1, 1)] * 3, [(2, 2), (1, 1), (1, 1)], [(2, 1), (1, 1), (1, 1)], [(1, 2), (1, 1), (1, 1)], [(2, 2), (2, 1), (2, 1)],
        [(4, 1), (1, 1), (1, 1)], [(4, 4), (2, 2), (1, 1)], [(1, 1), (2, 2), (1, 1)], [(3, 3), (1, 1), (1, 3)],
        [(2, 2), (1, 2), (2, 1)], [(2, 2)] * 3, [(6, 1), (3, 1), (2, 1)], [(1, 4), (1, 1), (1, 2)]],
    4: [[(1, 1)] * 4, [(2, 2), (1, 1), (1, 1), (2, 2)], [(2, 1), (1, 1), (1, 1), (2, 1)], [(1, 1), (1, 1), (1, 1), (2, 2)]],
}


def prog_script(rng, nc, style):
    """Progressive scan scripts: list of (comps, Ss, Se, Ah, Al)."""
    allc = list(range(nc))
    if style == "dc_ac":
        s = [(allc, 0, 0, 0, 0)]
        for c in allc:
            s.append(([c], 1, 63, 0, 0))
        return s
    if style == "libjpeg":
        s = [(allc, 0, 0, 0, 1)]
        s.append(([0], 1, 5, 0, 2))
        for c in allc[1:]:
            s.append(([c], 1, 63, 0, 1))
        s.append(([0], 6, 63, 0, 2))
        s.append(([0], 1, 63, 2, 1))
        s.append((allc, 0, 0, 1, 0))
        for c in allc[1:]:
            s.append(([c], 1, 63, 1, 0))
        s.append(([0], 1, 63, 1, 0))
        return s
    if style == "incomplete":
        s = [(allc, 0, 0, 0, rng.randint(0, 2))]
        for c in allc:
            if rng.random() < 0.5:
                s.append(([c], 1, rng.randint(1, 63), 0, rng.randint(0, 2)))
        return s
    if style == "bands":
        s = [([c], 0, 0, 0, 0) for c in allc]
        for c in allc:
            k = 1
            while k <= 63:
                e = rng.randint(k, 63)
                s.append(([c], k, e, 0, 0))
                k = e + 1
        return s
    if style == "deep":
        al = rng.randint(2, 10)
        s = [(allc, 0, 0, 0, al)]
        for a in range(al - 1, -1, -1):
            s.append((allc, 0, 0, a + 1, a))
        for c in allc:
            al = rng.randint(1, 6)
            s.append(([c], 1, 63, 0, al))
            for a in range(al - 1, -1, -1):
                s.append(([c], 1, 63, a + 1, a))
        return s
    if style == "dcac_joint":   # DC and AC in the same progressive scan
        return [([c], 0, 63, 0, 0) for c in allc]
    if style == "random":
        # random but legal
        done = {}
        s = []
        for c in allc:
            al = rng.randint(0, 3)
            s.append((0, ([c], 0, 0, 0, al)))
            for a in range(al - 1, -1, -1):
                s.append((0, ([c], 0, 0, a + 1, a)))
            k = 1
            while k <= 63:
                e = rng.randint(k, 63)
                al = rng.randint(0, 3)
                s.append((0, ([c], k, e, 0, al)))
                for a in range(al - 1, -1, -1):
                    s.append((0, ([c], k, e, a + 1, a)))
                k = e + 1
        # random interleave preserving per-chain order
        chains = {}
        for _, x in s:
            chains.setdefault((x[0][0], x[1]), []).append(x)
        res = []
        keys = list(chains)
        while keys:
            k = rng.choice(keys)
            res.append(chains[k].pop(0))
            if not chains[k]:
                keys.remove(k)
        return res
    raise KeyError(style)


STYLES = ["dc_ac", "libjpeg", "incomplete", "bands", "deep", "dcac_joint", "random"]


def random_script(rng, **fix):
    f = lambda k, d: fix[k] if k in fix else d()
    nc = f("nc", lambda: rng.choice([1, 1, 3, 3, 3, 3, 4, 2]))
    samp = f("samp", lambda: rng.choice(SAMPLINGS[nc]))
    sof = f("sof", lambda: rng.choice([0xc0, 0xc0, 0xc1, 0xc2, 0xc2]))
    kind = f("kind", lambda: rng.choice(KINDS))
    mh, mv = max(h for h, v in samp), max(v for h, v in samp)
    maxb = f("maxb", lambda: rng.choice([1, 2, 4, 10]))
    w = f("w", lambda: rng.randint(1, max(8, min(8 * maxb, 8 * mh * max(1, maxb // mh) ))))
    h = f("h", lambda: rng.randint(1, max(8, min(8 * maxb, 8 * mv * max(1, maxb // mv)))))
    ids = f("ids", lambda: rng.choice(["123", "123", "0", "RGB", "rnd", "123x"]))
    if ids == "123":
        cid = list(range(1, nc + 1))
    elif ids == "123x":
        cid = list(range(1, nc + 1)); rng.shuffle(cid)
    elif ids == "0":
        cid = list(range(nc))
    elif ids == "RGB":
        cid = [ord(x) for x in "RGBA"][:nc]
    else:
        cid = rng.sample(range(256), nc)
    nq = f("nq", lambda: rng.choice([1, 2, 2, 3, 4]))
    qidx = list(range(4)); rng.shuffle(qidx)
    qidx = sorted(qidx[:nq]) if rng.random() < 0.7 else qidx[:nq]
    comps = [{"id": cid[i], "h": samp[i][0], "v": samp[i][1], "tq": rng.choice(qidx)} for i in range(nc)]
    # every quant table may be unused by components; the format keeps them all
    qkind = f("qkind", lambda: rng.choice(["std", "scaled", "rnd", "16", "ones", "big16", "near"]))
    qt = []
    for n, qi in enumerate(qidx):
        base = G.QL if n % 2 == 0 else G.QC
        prec = 0
        if qkind == "std":
            v = list(base)
        elif qkind == "scaled":
            v = G.scaled_quant(base, rng.randint(1, 99))
        elif qkind == "rnd":
            v = [rng.randint(1, 255) for _ in range(64)]
        elif qkind == "ones":
            v = [1] * 64
        elif qkind == "16":
            prec = rng.choice([0, 1])
            v = [rng.randint(1, 255 if not prec else 4000) for _ in range(64)]
        elif qkind == "near":
            v = G.scaled_quant(base, rng.randint(10, 95))
            v[rng.randrange(64)] = rng.randint(1, 255)
        else:
            prec = 1
            v = [rng.choice([1, 2, 255, 256, 65535, 32768]) for _ in range(64)]
        qt.append((qi, prec, v))
    # huffman tables
    hk = f("hk", lambda: rng.choice(["std", "opt", "rnd", "full", "mix"]))
    prog = sof == 0xc2
    def tk(cls, slot):
        k = hk if hk != "mix" else rng.choice(["std", "opt", "rnd", "full"])
        if k == "std":
            if prog or kind in ("large", "mixed", "dense") and False:
                return "full" if prog else ("dcl", "acl")[cls]
            return (("dcl", "dcc"), ("acl", "acc"))[cls][slot % 2]
        return k
    segs = []
    metas = f("metas", lambda: [rng.choice(META) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
    for m in metas:
        segs.append(metadata(rng, m) if isinstance(m, str) else m)
    split_q = rng.random() < 0.5
    dq = [("dqt", [t]) for t in qt] if split_q else [("dqt", qt)]
    sofs = [("sof",)]
    pre = dq + sofs if rng.random() < 0.8 else sofs + dq
    segs += pre
    ri = f("ri", lambda: rng.choice([0, 0, 0, 1, 2, 3, 7, 20]))
    if ri or rng.random() < 0.05:
        segs.insert(rng.randint(0, len(segs)), ("dri", ri))
    p_zr = f("p_zr", lambda: rng.choice([0, 0, 0, 0.3, 1.0]))
    p_reset = f("p_reset", lambda: rng.choice([0, 0, 0.1, 0.5, 1.0]))
    if prog:
        script = f("script", lambda: prog_script(rng, nc, f("style", lambda: rng.choice(STYLES))))
    elif f("inter", lambda: rng.random() < 0.7) or nc == 1:
        script = [(list(range(nc)), 0, 63, 0, 0)]
    else:
        parts = list(range(nc)); rng.shuffle(parts)
        cutp = rng.randint(1, nc)
        script = [(parts[:cutp], 0, 63, 0, 0)] + [([c], 0, 63, 0, 0) for c in parts[cutp:]]
    per_scan = f("per_scan", lambda: rng.random() < (0.6 if prog else 0.3))
    slots = {}
    nslots = f("nslots", lambda: rng.choice([1, 2, 2, 4]))
    body = []
    fulls = [0]
    def tables_for(need):
        if rng.random() < 0.3:
            rng.shuffle(need)
        t = [(cls, sl, tk(cls, sl)) for cls, sl in need]
        if rng.random() < 0.5 or len(t) == 1:
            return [("dht", t)]
        return [("dht", [x]) for x in t]
    defined = set()
    first = True
    allneed = []
    scs = []
    for (cs, Ss, Se, Ah, Al) in script:
        c3 = [(c, c % nslots if rng.random() < 0.9 else rng.randrange(nslots), c % nslots) for c in cs]
        scs.append({"comps": c3, "Ss": Ss, "Se": Se, "Ah": Ah, "Al": Al, "p_zr": p_zr, "p_reset": p_reset, "maxrun": fix.get("maxrun", 0x7fff), "maxcorr": fix.get("maxcorr", 937)})
        if not prog:
            pass
    def need_of(sc):
        n = []
        prog_dc = (not prog) or sc["Ss"] == 0
        prog_ac = (not prog) or sc["Se"] > 0
        for c, d, a in sc["comps"]:
            # The reader requires a DC table for Ss = 0 even when refining.
            if prog_dc and (0, d) not in n:
                n.append((0, d))
            if prog_ac and (1, a) not in n:
                n.append((1, a))
        return n
    if per_scan:
        for sc in scs:
            nd = need_of(sc)
            body += tables_for(nd)
            if rng.random() < 0.1:
                body.append(metadata(rng, "com"))
            body.append(("sos", sc))
    else:
        nd = []
        for sc in scs:
            for x in need_of(sc):
                if x not in nd:
                    nd.append(x)
        body += tables_for(nd)
        for sc in scs:
            body.append(("sos", sc))
            if rng.random() < 0.05:
                body.append(metadata(rng, "com"))
    segs += body
    extra = f("extra", lambda: rng.choice([None] * 6 + ["junk", "rst", "junk2", "latedqt", "latedht", "junkff"]))
    if extra == "junk":
        segs.insert(rng.randint(0, len(segs)), ("junk", bytes(rng.choice(b"\x00\x01abc") for _ in range(rng.randint(1, 20)))))
    elif extra == "junkff":
        segs.insert(rng.randint(0, len(segs)), ("junk", b"\xff" * rng.randint(1, 5)))
    elif extra == "junk2":
        segs.insert(0, ("junk", b"\x00")); segs.append(("junk", b"\x13\x37" * rng.randint(1, 400)))
    elif extra == "rst":
        segs.insert(rng.randint(0, len(segs)), ("rst", rng.randrange(8)))
    elif extra == "latedht":
        segs.append(("dht", [(1, rng.randrange(4), "acl")]))
    segs.append(("eoi",))
    tail = f("tail", lambda: rng.choice([b"", b"", b"", b"\x00", b"tail data \xff\xd8\xff\xd9" * 3, rand_bytes(rng, rng.choice([1, 127, 128, 3000]))]))
    if tail:
        segs.append(("tail", tail))
    s = {"w": w, "h": h, "sof": sof, "comps": comps, "coef": coef_fn(rng, kind, comps), "seed": rng.getrandbits(30),
         "pad": f("pad", lambda: rng.choice(["1", "1", "1", "0", "r"])), "segs": segs,
         "desc": {"nc": nc, "samp": samp, "sof": sof, "kind": kind, "hk": hk, "ri": ri, "w": w, "h": h, "extra": extra,
                  "qkind": qkind, "per_scan": per_scan, "metas": [m if isinstance(m, str) else m[0] for m in metas]}}
    return s


def extremes(rng, i):
    """Counts and sizes around the limits of JPEG and of the stored form."""
    ac, ref = [([0], 0, 0, 0, 0), ([0], 1, 63, 0, 0)], [([0], 0, 0, 0, 0), ([0], 1, 63, 0, 1), ([0], 1, 63, 1, 0)]
    def gray(wb, hb, **k):
        d = {"nc": 1, "samp": [(1, 1)], "sof": 0xc2, "script": ac, "kind": "zero", "p_reset": 0, "p_zr": 0, "ri": 0, "hk": "opt", "per_scan": True, "metas": [], "extra": None,
             "w": wb * 8 - rng.randint(0, 7), "h": hb * 8 - rng.randint(0, 7), "pad": "1", "tail": b""}
        d.update(k)
        return d
    q = rng.choice
    L = [lambda: gray(217, 151), lambda: gray(256, 128), lambda: gray(434, 151), lambda: gray(435, 151), lambda: gray(217, 151, script=ref),           # runs of 32767 blocks and one more
         lambda: gray(40, 30, kind="full2", script=ref, maxcorr=1 << 30), lambda: gray(50, 41, kind="part2", script=ref, maxcorr=1 << 30), lambda: gray(30, 41, kind="part2", script=ref),
         lambda: gray(300, 300, maxrun=q([20000, 16384, 32766])), lambda: gray(100, 90, p_reset=1.0), lambda: gray(60, 60, p_zr=1.0, kind=q(["zero", "sparse"])),
         lambda: gray(300, 250, sof=0xc0, script=None, ri=q([65535, 65534, 60000, 32768])), lambda: gray(220, 100, sof=0xc0, script=None, ri=1, pad=q(["0", "r"])),
         lambda: gray(8192, 1, w=65535, kind="dconly", sof=0xc0), lambda: gray(1, 8192, h=65535, kind="sparse"),
         lambda: dict(gray(1, 1), nc=3, samp=[(2, 2), (1, 1), (1, 1)], w=65535, h=rng.randint(1, 16), sof=0xc0, kind="zero", script=None), lambda: dict(gray(1, 1), nc=3, samp=[(1, 2), (1, 1), (1, 1)], w=rng.randint(1, 8), h=65535, sof=0xc0, kind="sparse", script=None),
         lambda: gray(3, 2, metas=["bigapp"] * 20 + ["com"] * 30), lambda: gray(2, 2, tail=rand_bytes(rng, q([1 << 21, (1 << 21) - 1, 3000000]))), lambda: gray(2, 2, metas=[("com", b"")] * 1024),
         lambda: dict(gray(1, 1), nc=4, samp=[(1, 1)] * 4, kind="sparse", per_scan=False, hk="full", script=[([c], 0, 0, 0, 1) for c in range(4)] + [([c], k, k, 0, 1) for c in range(4) for k in range(1, 64)] + [([c], k, k, 1, 0) for c in range(4) for k in range(1, 64)]),
         lambda: gray(2, 2, kind="sparse", per_scan=True, hk="opt", script=[([0], 0, 0, 0, 10)] + [([0], 0, 0, a + 1, a) for a in range(9, -1, -1)] + [([0], 1, 63, 0, 10)] + [([0], 1, 63, a + 1, a) for a in range(9, -1, -1)])]
    L += [lambda: gray(60, 60, sof=0xc0, script=None, kind="ff", hk="opt"), lambda: gray(60, 60, kind="ff", hk="opt", sof=q([0xc0, 0xc2]), ri=1, pad=q("11r")), lambda: gray(1, 1, w=8191, h=1, kind="ff", ri=q([0, 3, 5]), sof=0xc0)]
    L += [lambda: gray(130, 110, sof=0xc0, script=None, kind="sparse", ri=1, pad="1"), lambda: gray(130, 110, sof=0xc2, kind="dconly", ri=1, hk="full", pad=q("01r"))]   # restarts anywhere in the writer's chunks
    if i == len(L):
        return gray(217, 151, kind="full2", script=ref, maxcorr=1 << 30)      # as many correction bits as a run can have
    return L[i % (len(L) + 1)]()


def make(rng, tries=30, **fix):
    """Builds one file; scripts whose tables cannot code a symbol are redrawn."""
    for _ in range(tries):
        s = random_script(rng, **fix)
        try:
            data, facts = G.build(s)
        except KeyError as e:      # symbol missing from the chosen table
            continue
        return data, facts, s
    raise RuntimeError("no script")
