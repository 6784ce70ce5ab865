"""Turns the segment names JpegGen enumerates into bytes."""
import random
import jpeggen as G
import corpus

SOFM = {"sof0": 0xc0, "sof1": 0xc1, "sof2": 0xc2, "sof2c2": 0xc2, "sof3": 0xc3}


def be(n):
    return G.be16(n & 65535)


class Ctx:
    def __init__(self, rng, big=False):
        self.rng = rng
        self.w, self.h = (8, 8) if rng.random() < .3 else (rng.randint(1, 20), rng.randint(1, 17))
        self.j = None
        self.tables = {}
        self.ri = 0
        self.kind = rng.choice(["sparse", "tail", "smooth", "zero", "dconly"])

    def frame(self, comps, prog):
        if self.j is not None:
            return
        self.j = G.Jpeg(self.w, self.h, comps, prog)
        f = corpus.coef_fn(self.rng, self.kind, comps)
        self.j.coef = [[f(ci, b, b) for b in range(c["wb"] * c["hb"])] for ci, c in enumerate(self.j.comps)]
        for c in self.j.coef:
            for b in c:
                b[0] = max(-1000, min(1000, b[0]))

    def data(self, sc):
        """Entropy coded bytes of one scan, as well as the state allows."""
        rng = self.rng
        try:
            segl, _, _ = self.j.scan_symbols(sc, self.ri, rng)
            out = b""
            for q, sg in enumerate(segl):
                if q:
                    out += bytes([255, 0xd0 + (q - 1) % 8])
                bw = G.BitW()
                for it in sg:
                    if it[0] == "h":
                        c, n = self.tables[(it[1], it[2])][it[3]]
                        bw.put(c, n)
                    else:
                        bw.put(it[1], it[2])
                bw.flush(lambda: rng.random() < .9)
                out += bytes(bw.out)
            return out
        except (KeyError, AttributeError, IndexError, ValueError):
            return bytes(rng.choice([0, 1, 0x55, 0xaa, 0xfe]) for _ in range(rng.choice([0, 3, 40])))


def sof(x, name, c):
    rng = x.rng
    base, _, v = name.partition(":")
    m = SOFM.get(base, 0xc0)
    comps = [{"id": 1, "h": 1, "v": 1, "tq": 0}]
    if base == "sof2c2":
        hv = rng.choice([(1, 1), (2, 1), (1, 2)])
        comps = [{"id": 1, "h": hv[0], "v": hv[1], "tq": 0}, {"id": 2, "h": 1, "v": 1, "tq": 0}]
    w, h, prec, nc, extra, raw = x.w, x.h, 8, None, b"", None
    if v == "prec12": prec = rng.choice([12, 16, 0, 7, 9])
    elif v == "w0": w = 0
    elif v == "h0": h = 0
    elif v == "nc0": comps = []
    elif v == "nc5": comps = [{"id": i, "h": 1, "v": 1, "tq": 0} for i in range(5)]
    elif v == "dupid": comps = [{"id": 7, "h": 1, "v": 1, "tq": 0}] * 2
    elif v == "samp0": comps[0] = dict(comps[0], **rng.choice([{"h": 0}, {"v": 0}, {"h": 0, "v": 0}]))
    elif v == "samp03": comps = [{"id": 1, "h": 2, "v": 2, "tq": 0}, {"id": 2, "h": rng.choice([0, 1]), "v": 0, "tq": 0}]
    elif v == "samp32": comps = [{"id": 1, "h": 3, "v": 1, "tq": 0}, {"id": 2, "h": 2, "v": 1, "tq": 0}] if rng.random() < .5 else [{"id": 1, "h": 1, "v": 3, "tq": 0}, {"id": 2, "h": 1, "v": 2, "tq": 0}]
    elif v == "big": w, h = rng.choice([(65535, 2049), (2049, 65535), (65535, 65535), (16384, 8200), (32768, 4096 + 1), (11600, 11600)])
    elif v == "s15": comps[0] = dict(comps[0], h=rng.choice([1, 3, 15]), v=rng.choice([1, 5, 15]))
    elif v == "tq3": comps[0] = dict(comps[0], tq=rng.choice([1, 2, 3, 4, 255]))
    p = bytes([prec]) + be(h) + be(w) + bytes([len(comps)])
    for q in comps:
        p += bytes([q["id"], q["h"] << 4 | q["v"], q["tq"]])
    if v in ("", "tq3", "s15") and (v != "s15" or True):
        try:
            x.frame([dict(q) for q in comps], m == 0xc2)
        except Exception:
            pass
    fix = 0
    if v == "long": fix, p = rng.choice([(1, p), (0, p + b"\x00"), (3, p), (-3, p)])
    if v == "short": fix = rng.choice([-1, -3, -8])
    if v == "cut": return b"\xff" + bytes([m]) + be(len(p) + 2) + p[:rng.randint(0, len(p) - 1)]
    return G.seg(m, p, fix)


def dqt(x, name):
    rng = x.rng
    v = name.partition(":")[2]
    one = lambda i, prec=0, z=False: bytes([prec << 4 | i]) + b"".join((be(rng.randint(1, 65535)) if prec else bytes([rng.randint(1, 255)])) for _ in range(64))
    def zero(p, prec):
        k = rng.choice([0, 63, rng.randrange(64)])
        q = bytearray(p)
        n = prec + 1
        q[1 + k * n:1 + k * n + n] = bytes(n)
        return bytes(q)
    fix = 0
    if name in ("dqt0", "dqt1"): p = one(int(name[3]), rng.choice([0, 0, 1]))
    elif v == "idx4": p = one(rng.choice([4, 5, 15]))
    elif v == "prec2": p = bytes([rng.choice([2, 3, 8]) << 4]) + one(0, 1)[1:]
    elif v == "zero": p = zero(one(0), 0)
    elif v == "zero16": p = zero(one(1, 1), 1)
    elif v == "16":
        q = bytearray(one(0, 1)); k = rng.randrange(64); q[1 + 2 * k:3 + 2 * k] = rng.choice([b"\x01\x00", b"\x00\x01", b"\xff\xff"]); p = bytes(q)
    elif v == "empty": p = b""
    elif v == "long": p, fix = one(0), rng.choice([1, 2, 64])
    elif v == "short": p, fix = one(0), rng.choice([-1, -2, -64, -65])
    elif v == "four": p = b"".join(one(i) for i in range(4))
    elif v == "five": p = b"".join(one(i % 4) for i in range(5))
    elif v == "len0": p, fix = one(0), -67 + rng.randint(0, 1)
    return G.seg(0xdb, p, fix)


def raw_dht(slot, counts, vals):
    return bytes([slot]) + bytes(counts) + bytes(vals)


def dht(x, name):
    rng = x.rng
    v = name.partition(":")[2]
    fix = 0
    if name[:4] in ("dhtd", "dhta"):
        cls, slot = int(name[3] == "a"), int(name[4])
        if x.j is not None and not x.j.prog and cls:
            t = G.STD_AC_L if rng.random() < .5 else G.random_table(rng, range(256))
        else:
            t = G.random_table(rng, range(256 if cls else 12)) if rng.random() < .8 else (G.STD_DC_L, G.STD_AC_L)[cls]
        x.tables[(cls, slot)] = G.codes_of(t)
        return G.seg(0xc4, raw_dht(cls << 4 | slot, *t))
    sl = rng.choice([0, 16, 1, 17, 3, 19])
    c = [0] * 16
    if v == "slot4": p = raw_dht(rng.choice([4, 5, 15]), [0, 2] + [0] * 14, [0, 1])
    elif v == "slot20": p = raw_dht(rng.choice([20, 21, 31]), [0, 2] + [0] * 14, [0, 1])
    elif v == "slot32": p = raw_dht(rng.choice([32, 33, 48, 255]), [0, 2] + [0] * 14, [0, 1])
    elif v == "dup": p = raw_dht(sl, [0, 1, 2] + [0] * 13, [3, 1, 3])
    elif v == "over":
        n = rng.randint(1, 4); c[n - 1] = (1 << n) + 1 if n < 4 else 17
        if sum(c) > 12: c = [3] + [0] * 15
        p = raw_dht(sl, c, range(sum(c)))
    elif v == "full":
        n = rng.randint(1, 3); c[n - 1] = 1 << n; p = raw_dht(sl, c, range(1 << n))
    elif v == "full16":
        c = [1] * 15 + [2]; p = raw_dht(sl | 16, c, range(17))
    elif v == "almost":
        n = rng.randint(2, 3); c[n - 1] = (1 << n) - 1; p = raw_dht(sl, c, range((1 << n) - 1))
    elif v == "dc12": p = raw_dht(sl & 3, [0, 1, 1, 2] + [0] * 12, rng.sample(range(11), 3) + [rng.choice([11, 12, 255])])
    elif v == "dc13": p = raw_dht(sl & 3, [0, 0, 0, 13] + [0] * 12, range(13))
    elif v == "none": p = raw_dht(sl, c, [])
    elif v == "empty": p = b""
    elif v == "long": p, fix = raw_dht(sl, [0, 2] + [0] * 14, [0, 1]), rng.choice([1, 2, 17])
    elif v == "short": p, fix = raw_dht(sl, [0, 2] + [0] * 14, [0, 1]), rng.choice([-1, -2, -3, -19])
    elif v == "256": p = raw_dht(sl | 16, [0] * 9 + [255, 1] + [0] * 5, range(256))
    elif v == "257": p = raw_dht(sl | 16, [0] * 9 + [255, 2] + [0] * 5, [i & 255 for i in range(257)])
    elif v == "two": p = raw_dht(0, [0, 2, 1] + [0] * 13, [0, 1, 2]) + raw_dht(16, [1, 1, 1] + [0] * 13, [0, 1, 0xf0])
    elif v == "many": p = raw_dht(sl, [1] + [0] * 15, [0]) * rng.choice([3, 100, 511 // 3, 511, 600])
    if v == "two":
        x.tables[(0, 0)] = G.codes_of(([0, 2, 1] + [0] * 13, [0, 1, 2]))
        x.tables[(1, 0)] = G.codes_of(([1, 1, 1] + [0] * 13, [0, 1, 0xf0]))
    return G.seg(0xc4, p, fix)


def sos(x, name):
    rng = x.rng
    v = name.partition(":")[2]
    n = len(x.j.comps) if x.j is not None else 1
    comps = [(i, 0, 0) for i in range(n)]
    if n == 2: comps[1] = (1, 1, 1) if (0, 1) in x.tables else (1, 0, 0)
    prog = x.j is not None and x.j.prog
    Ss, Se, Ah, Al = (0, 63, 0, 0) if not prog else (0, 63, 0, 0)
    one = lambda: [comps[rng.randrange(n)]]
    P = {"sosdc": (0, 0, 0, 0), "sosac": (1, 63, 0, 0), "sos:r10": (1, 63, 1, 0), "sos:r21": (1, 63, 2, 1), "sos:dc10": (0, 0, 1, 0), "sos:ac1_5": (1, 5, 0, 0), "sos:ac6_63": (6, 63, 0, 0),
         "sos:ac1_63al2": (1, 63, 0, 2), "sos:dcal1": (0, 0, 0, 1), "sos:dc0_63": (0, 63, 0, 0), "sos:acr63": (63, 63, 1, 0), "sos:ac5_9": (5, 9, 0, 0)}
    if name in P:
        Ss, Se, Ah, Al = P[name]
        if Ss > 0 or Se > 0 or rng.random() < .2:
            comps = one() if rng.random() < .9 else comps
    elif prog and n > 1:
        comps = one()
    if v == "ss": Ss, Se = 5, 4
    elif v == "se64": Se = rng.choice([64, 255])
    elif v == "ss64": Ss, Se = rng.choice([(64, 64), (64, 63)])
    elif v == "al11": Al = 11
    elif v == "al13": Al = rng.choice([12, 13, 15])
    elif v == "al10": Al = 10; Ss, Se = rng.choice([(0, 0), (1, 63)]) if prog else (0, 63)
    elif v == "ah": Ah, Al = rng.choice([(3, 1), (1, 1), (2, 3), (5, 0)])
    elif v == "se0": Se = 0
    elif v == "ss1": Ss = 1
    sc = {"comps": comps, "Ss": Ss, "Se": min(63, Se), "Ah": Ah, "Al": Al, "p_zr": rng.choice([0, 0, .5]), "p_reset": rng.choice([0, 0, .5])}
    ids = [(x.j.comps[c]["id"] if x.j is not None else 1 + c, d, a) for c, d, a in comps]
    hdr = list(ids)
    if v == "unknown": hdr[0] = (rng.choice([0, 9, 255]), hdr[0][1], hdr[0][2])
    elif v == "dup": hdr = [hdr[0], hdr[0]]
    elif v == "nc0": hdr = []
    elif v == "nc5": hdr = [hdr[0]] * 5
    elif v == "notab": hdr[0] = (hdr[0][0],) + rng.choice([(2, 0), (0, 2), (3, 3)])
    elif v == "tab4": hdr[0] = (hdr[0][0],) + rng.choice([(4, 0), (0, 4), (15, 15), (0, 5)])
    p = bytes([len(hdr)]) + b"".join(bytes([i, d << 4 | a]) for i, d, a in hdr) + bytes([Ss, Se, (Ah << 4 | Al) & 255])
    fix = 0
    if v == "long": fix, p = rng.choice([(1, p), (0, p + b"\x00"), (2, p), (0, p + b"\x01\x00")])
    elif v == "short": fix = rng.choice([-1, -2, -7])
    if v == "cut": return b"\xff\xda" + be(len(p) + 2) + p[:rng.randint(0, len(p) - 1)]
    d = b"" if v == "nodata" else x.data(sc)
    return G.seg(0xda, p, fix) + d


def token(x, name, c=0):
    rng = x.rng
    if name.startswith("sof"): return sof(x, name, c)
    if name.startswith("dqt"): return dqt(x, name)
    if name.startswith("dht"): return dht(x, name)
    if name.startswith("sos"): return sos(x, name)
    if name in ("dri1", "dri0", "dri:dup"):
        x.ri = {"dri1": 1, "dri0": 0}.get(name, rng.choice([0, 1, 2]))
        s = G.seg(0xdd, be(x.ri))
        return s + s if name == "dri:dup" else s
    if name == "dri:len5": return G.seg(0xdd, b"\x00\x01\x00")
    if name == "dri:len3": return G.seg(0xdd, b"\x00")
    if name == "app": return G.seg(0xe0 + rng.randrange(16), bytes(rng.choice(b"\x00ab\xff\xd9\xc4\xda") for _ in range(rng.choice([0, 1, 5, 20]))))
    if name == "com": return G.seg(0xfe, bytes(rng.choice(b"\x00ab\xff\xd9\xc0\xdb") for _ in range(rng.choice([0, 1, 5, 20]))))
    if name in ("app:len0", "app:len1", "app:len2", "com:len1"): return bytes([255, 0xfe if name[0] == "c" else 0xe0 + rng.randrange(16)]) + be(int(name[-1]))
    if name in ("app:past", "com:past"): return bytes([255, 0xfe if name[0] == "c" else 0xe1]) + be(rng.choice([65535, 3000])) + b"xy"
    if name == "eoi": return b"\xff\xd9"
    if name == "ffd9": return b"\xff\xff\xd9"
    if name == "rst3": return b"\xff" + bytes([0xd0 + rng.randrange(8)])
    if name == "junk": return bytes(rng.choice(b"\x00\x01abc") for _ in range(rng.randint(1, 9)))
    if name == "ff": return b"\xff" * rng.randint(1, 4)
    if name == "zeros": return bytes(rng.randint(1, 30))
    if name == "tail": return b"tail\xff\xd8\xff\xd9"[:rng.randint(1, 8)]
    if name.startswith("m:"): return b"\xff" + bytes([int(name[2:], 16)]) + (G.be16(4) + b"ab" if rng.random() < .5 else b"")
    raise KeyError(name)


def concretise(names, rng):
    x = Ctx(rng)
    # tables are often made after the frame; scan data needs the frame first
    return b"\xff\xd8" + b"".join(token(x, n) for n in names)
