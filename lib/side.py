"""Side information section bodies as editable records (internals and quant).

A reading of the format of its own: bit packed least significant bit first."""
DC_VALUES = 16
AC_VALUES = 256


class R:
    def __init__(self, b):
        self.b, self.p = b, 0

    def bits(self, n):
        v = 0
        for i in range(n):
            k = self.p >> 3
            if k >= len(self.b):
                raise ValueError("short")
            v |= ((self.b[k] >> (self.p & 7)) & 1) << i
            self.p += 1
        return v


class W:
    def __init__(self):
        self.v, self.n = 0, 0

    def bits(self, v, n):
        self.v |= (v & ((1 << n) - 1)) << self.n
        self.n += n

    def done(self):
        return self.v.to_bytes((self.n + 7) // 8, "little")


def varint(r, mx):
    v, i = 0, 0
    while i < mx:
        if i + 1 != mx and not r.bits(1):
            break
        v |= r.bits(1) << i
        i += 1
    return v


def put_varint(w, v, mx):
    i = 0
    while i < mx:
        if i + 1 != mx:
            if v == 0:
                w.bits(0, 1)
                return
            w.bits(1, 1)
        w.bits(v & 1, 1)
        v >>= 1
        i += 1


def limited(r, chunk, mx):
    v, i = 0, 0
    while i < mx and r.bits(1):
        v |= r.bits(chunk) << (i * chunk)
        i += 1
    return v


def put_limited(w, v, chunk, mx):
    i = 0
    while i < mx:
        if v == 0:
            w.bits(0, 1)
            return
        w.bits(1, 1)
        w.bits(v, chunk)
        v >>= chunk
        i += 1


def perm_bits(n):
    return (n - 1).bit_length() if n > 1 else 0


def internals(body, ncomp):
    r = R(body)
    d = {"markers": [], "dri": None, "huff": [], "scans": [], "quant": []}
    while True:
        m = 0xc0 + r.bits(6)
        d["markers"].append(m)
        if m == 0xd9:
            break
    if 0xdd in d["markers"]:
        d["dri"] = r.bits(16)
    while True:
        h = {"known": r.bits(1)}
        h["slot"] = r.bits(2); h["ac"] = r.bits(1)
        h["last"] = 1 if h["known"] else r.bits(1)
        h["match"] = r.bits(1)
        if h["match"]:
            h["stock"] = r.bits(1)
        else:
            mx = 256 if h["ac"] else 12
            ml = h["maxlen"] = r.bits(4) + 1
            total, space = 0, (1 << 16) - (1 << (16 - ml))
            h["counts"] = []
            for i in range(1, ml + 1):
                lim = min(mx - total, space >> (16 - i))
                c = r.bits(lim.bit_length()) if lim > 0 else 0
                h["counts"].append(c); total += c; space -= c << (16 - i)
            n = AC_VALUES if h["ac"] else DC_VALUES
            h["perm"] = []
            for i in range(total):
                h["perm"].append(limited(r, 2, (perm_bits(n - i) + 1) >> 1))
        d["huff"].append(h)
        if h["known"]:
            break
    for _ in range(d["markers"].count(0xda)):
        s = {"p": [r.bits(6), r.bits(6), r.bits(4), r.bits(4)]}
        s["comps"] = [None] * (r.bits(2) + 1)
        s["comps"] = [[r.bits(2), r.bits(2), r.bits(2)] for _ in s["comps"]]
        s["reset"], s["zruns"] = [], []
        while r.bits(1):
            s["reset"].append(varint(r, 28))
        while r.bits(1):
            s["zruns"].append(varint(r, 28))
        d["scans"].append(s)
    nq = r.bits(2) + 1
    for i in range(nq):
        d["quant"].append([r.bits(2), 1 if i == nq - 1 else r.bits(1), r.bits(4)])
    d["ids"] = r.bits(2)
    d["idv"] = [r.bits(8) for _ in range(ncomp)] if d["ids"] == 3 else []
    n = limited(r, 8, 4)
    d["pads"] = [r.bits(1) for _ in range(n)]
    d["npads"] = n
    d["rest"] = body[(r.p + 7) // 8:]
    return d


def put_internals(d):
    w = W()
    for m in d["markers"]:
        w.bits(m - 0xc0, 6)
    if d["dri"] is not None:
        w.bits(d["dri"], 16)
    for i, h in enumerate(d["huff"]):
        w.bits(h["known"], 1); w.bits(h["slot"], 2); w.bits(h["ac"], 1)
        if not h["known"]:
            w.bits(h["last"], 1)
        w.bits(h["match"], 1)
        if h["match"]:
            w.bits(h["stock"], 1)
        else:
            mx = 256 if h["ac"] else 12
            w.bits(h["maxlen"] - 1, 4)
            total, space = 0, (1 << 16) - (1 << (16 - h["maxlen"]))
            for k in range(1, h["maxlen"] + 1):
                lim = min(mx - total, space >> (16 - k))
                c = h["counts"][k - 1] if k <= len(h["counts"]) else 0
                if lim > 0:
                    w.bits(c, lim.bit_length())
                    total += c; space -= c << (16 - k)
            n = AC_VALUES if h["ac"] else DC_VALUES
            for k, v in enumerate(h["perm"][:n]):
                put_limited(w, v, 2, (perm_bits(n - k) + 1) >> 1)
    for s in d["scans"]:
        for v, n in zip(s["p"], (6, 6, 4, 4)):
            w.bits(v, n)
        w.bits(len(s["comps"]) - 1, 2)
        for c in s["comps"]:
            for v in c:
                w.bits(v, 2)
        for v in s["reset"]:
            w.bits(1, 1); put_varint(w, v, 28)
        w.bits(0, 1)
        for v in s["zruns"]:
            w.bits(1, 1); put_varint(w, v, 28)
        w.bits(0, 1)
    w.bits(len(d["quant"]) - 1, 2)
    for i, (x, l, p) in enumerate(d["quant"]):
        w.bits(x, 2)
        if i < len(d["quant"]) - 1:
            w.bits(l, 1)
        w.bits(p, 4)
    w.bits(d["ids"], 2)
    for v in d["idv"]:
        w.bits(v, 8)
    put_limited(w, d["npads"], 8, 4)
    for v in d["pads"]:
        w.bits(v, 1)
    return w.done() + d["rest"]


def quant(body, ncomp):
    r = R(body)
    d = {"tables": [None] * (r.bits(2) + 1)}
    for i in range(len(d["tables"])):
        if not r.bits(1):
            d["tables"][i] = {"stock": r.bits(3)}
            continue
        t = {"q": r.bits(6), "diff": []}
        for _ in range(64):
            if r.bits(1):
                s = r.bits(1)
                t["diff"].append((s, varint(r, 16)))
            else:
                t["diff"].append(None)
        d["tables"][i] = t
    d["idx"] = [r.bits(2) for _ in range(ncomp)]
    d["rest"] = body[(r.p + 7) // 8:]
    return d


def put_quant(d):
    w = W()
    w.bits(len(d["tables"]) - 1, 2)
    for t in d["tables"]:
        if "stock" in t:
            w.bits(0, 1); w.bits(t["stock"], 3)
            continue
        w.bits(1, 1); w.bits(t["q"], 6)
        for x in t["diff"]:
            if x is None:
                w.bits(0, 1)
            else:
                w.bits(1, 1); w.bits(x[0], 1); put_varint(w, x[1], 16)
    for v in d["idx"]:
        w.bits(v, 2)
    return w.done() + d["rest"]


def edit_internals(rng, d, ncomp):
    """One deviation; returns its name."""
    k = rng.choice(["marker", "marker", "dri", "hslot", "hstock", "hmax", "hcount", "hperm", "hlast", "hdrop", "hdup", "band", "band", "ah", "ncomp", "comp", "comp", "comp",
                    "reset", "zrun", "quantp", "quanti", "quantn", "ids", "pads", "npads", "rest", "scandup", "scandrop", "scanswap"])
    hs, ss = d["huff"], d["scans"]
    h = rng.choice(hs)
    s = rng.choice(ss) if ss else None
    big = lambda n: rng.choice([0, 1, (1 << n) - 1, (1 << n) // 2, rng.getrandbits(n)])
    if k == "marker":
        i = rng.randrange(len(d["markers"]))
        m = rng.choice([0xc0, 0xc1, 0xc2, 0xc4, 0xda, 0xdb, 0xdd, 0xd8, 0xe0, 0xe5, 0xfe, 0xff, 0xc9, 0xd0])
        if rng.random() < .3 and len(d["markers"]) > 1:
            x = d["markers"].pop(i if i < len(d["markers"]) - 1 else 0)
        elif rng.random() < .5:
            d["markers"].insert(i, m); x = None
            if m == 0xda and ss:
                ss.append({"p": list(s["p"]), "comps": [list(c) for c in s["comps"]], "reset": [], "zruns": []})
        else:
            x = d["markers"][i] if i < len(d["markers"]) - 1 else None
            if x is not None:
                d["markers"][i] = m
        d["dri"] = (d["dri"] or 0) if 0xdd in d["markers"] else None
    elif k == "dri" and d["dri"] is not None:
        d["dri"] = big(16)
    elif k == "hslot":
        h["slot"] = rng.randrange(4)
    elif k == "hstock":
        h["match"] = 1; h["stock"] = rng.randrange(2)
    elif k == "hmax" and not h["match"]:
        h["maxlen"] = rng.choice([1, 15, 16, rng.randint(1, 16)])
    elif k == "hcount" and not h["match"]:
        i = rng.randrange(len(h["counts"]))
        h["counts"][i] = max(0, h["counts"][i] + rng.choice([-1, 1, 2, 100]))
    elif k == "hperm" and not h["match"] and h["perm"]:
        i = rng.randrange(len(h["perm"]))
        h["perm"][i] = rng.choice([big(8), (AC_VALUES if h["ac"] else DC_VALUES) - i])      # just past the last one left
    elif k == "hlast":
        h["last"] ^= 1
    elif k == "hdrop" and len(hs) > 1:
        hs.pop(rng.randrange(len(hs) - 1))
    elif k == "hdup" and len(hs) > 1:
        x = dict(rng.choice(hs[:-1]))
        for _ in range(rng.choice([1, 1, 3, 300])):
            hs.insert(0, dict(x))
    elif k == "band" and s:
        s["p"][rng.randrange(2)] = rng.choice([0, 1, 63, 62, rng.randrange(64)])
    elif k == "ah" and s:
        s["p"][2 + rng.randrange(2)] = rng.choice([0, 1, 2, 13, 14, 15, rng.randrange(16)])
    elif k == "ncomp" and s:
        if rng.random() < .5 and len(s["comps"]) > 1:
            s["comps"].pop()
        elif len(s["comps"]) < 4:
            s["comps"].append([rng.randrange(4), rng.randrange(4), rng.randrange(4)])
    elif k == "comp" and s:
        c = rng.choice(s["comps"]); c[rng.randrange(3)] = rng.randrange(4)
    elif k == "reset" and s:
        for _ in range(rng.choice([1, 2, 40])):
            s["reset"].insert(rng.randrange(len(s["reset"]) + 1), rng.choice([0, 1, 2, 5, (1 << 28) - 1, rng.randrange(100)]))
    elif k == "zrun" and s:
        for _ in range(rng.choice([1, 2, 5, 60])):
            s["zruns"].insert(rng.randrange(len(s["zruns"]) + 1), rng.choice([0, 0, 0, 1, 3, (1 << 28) - 1, rng.randrange(100)]))
    elif k == "quantp":
        rng.choice(d["quant"])[2] = rng.choice([0, 1, 2, 15])
    elif k == "quanti":
        q = rng.choice(d["quant"]); q[0] = rng.randrange(4); q[1] = rng.randrange(2)
    elif k == "quantn":
        if rng.random() < .5 and len(d["quant"]) > 1:
            d["quant"].pop()
        elif len(d["quant"]) < 4:
            d["quant"].append(list(d["quant"][-1]))
    elif k == "ids":
        d["ids"] = rng.randrange(4); d["idv"] = [rng.getrandbits(8) for _ in range(ncomp)] if d["ids"] == 3 else []
    elif k == "pads":
        d["pads"] = [rng.randrange(2) for _ in range(rng.choice([0, 1, len(d["pads"]) // 2, len(d["pads"]) + 1, 255]))]; d["npads"] = len(d["pads"])
    elif k == "npads":
        d["npads"] = rng.choice([0, 1, 256, 1 << 16, (1 << 32) - 1, 1 << 31])
    elif k == "rest":
        d["rest"] = rng.choice([b"", b"\x00", b"\x80", d["rest"] + b"\x01a", b"\xff" * 9, b"\xff\xff\xff\xff\x0f"])
    elif k == "scandup" and ss:
        ss.insert(0, {"p": list(s["p"]), "comps": [list(c) for c in s["comps"]], "reset": [], "zruns": []}); d["markers"].insert(d["markers"].index(0xda), 0xda)
    elif k == "scandrop" and len(ss) > 1:
        ss.pop(rng.randrange(len(ss))); d["markers"].remove(0xda)
    elif k == "scanswap" and len(ss) > 1:
        i, j = rng.sample(range(len(ss)), 2); ss[i], ss[j] = ss[j], ss[i]
    else:
        return ""
    return k


def edit_quant(rng, d, ncomp):
    k = rng.choice(["n", "stock", "q", "diff", "idx", "zero", "rest"])
    t = rng.choice(d["tables"])
    if k == "n":
        if len(d["tables"]) > 1 and rng.random() < .5:
            d["tables"].pop()
        elif len(d["tables"]) < 4:
            d["tables"].append({"stock": rng.randrange(8)})
    elif k == "stock":
        t.clear(); t["stock"] = rng.randrange(8)
    elif k in ("q", "diff", "zero"):
        if "stock" in t:
            t.clear(); t.update({"q": rng.randrange(64), "diff": [None] * 64})
        if k == "q":
            t["q"] = rng.randrange(64)
        elif k == "zero":
            t["q"] = rng.choice([0, 63]); t["diff"] = [(1, 0)] + [None] * 63
        else:
            t["diff"][rng.randrange(64)] = (rng.randrange(2), rng.choice([0, 1, 254, 255, 256, 65534, 65535, rng.getrandbits(16)]))
    elif k == "idx":
        d["idx"][rng.randrange(ncomp)] = rng.randrange(4)
    elif k == "rest":
        d["rest"] = b"\x00"
    return k


def coef_order(rng, kind):
    """Bits of one coefficient order, as a list of (value, width)."""
    n = rng.choice([0, 1, 5, 30, 62, 63])
    leh = [0] * 64
    for i in range(1, n + 1):
        leh[i] = rng.choice([0, 0, 1, rng.randrange(64 - i)])
    i = rng.randint(1, 63)
    if kind == "over":
        leh[i] = 64 - i
    elif kind == "far":
        leh[i] = rng.choice([63, 62, 64 - i + 1])
    end = max([k for k in range(64) if leh[k]] + [0])
    code = [0] + [leh[k] + 1 if k <= end else 0 for k in range(1, 64)]
    if kind == "gap" and end > 1:
        code[rng.randint(1, end - 1)] = 0
    out = []
    for a in range(0, 64, 16):
        part = code[max(a, 1):a + 16]
        if not any(part) and rng.random() < .9:
            out.append((0, 1))
            continue
        out.append((1, 1))
        for v in part:
            while v >= 7:
                out.append((7, 3)); v -= 7
            out.append((v, 3))
    return out


def order_section(rng, body, ncomp):
    """An AC section body beginning with other coefficient orders.  The sub-decoders take their first
    words in the order ANS (2), bits (1), arithmetic (2); further words of bits follow."""
    w = W()
    for _ in range(ncomp):
        for v, n in coef_order(rng, rng.choice(["fine", "over", "far", "gap", "over"])):
            w.bits(v, n)
    b = w.done()
    b += bytes(rng.getrandbits(8) for _ in range(len(b) & 1 or (0 if len(b) else 2)))
    rest = b[2:]
    return body[:4] + b[:2] + body[6:10] + rest + body[10 + (len(rest) if rng.random() < .5 else 0):]
