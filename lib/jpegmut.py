"""Small JPEG files with faults or rarely used choices inside their entropy
coded data, and byte level edits of whole files."""
import random
import jpeggen as G
import corpus


def small(rng, **fix):
    f = {"maxb": rng.choice([1, 1, 2]), "metas": rng.choice([[], [], ["com"], ["jfif"], ["thumb"]]), "tail": rng.choice([b"", b"", b"x", b"\xff\xd9"])}
    nc = rng.choice([1, 1, 2, 3])
    f["nc"] = nc
    f["samp"] = rng.choice([s for s in corpus.SAMPLINGS[nc] if sum(a * b for a, b in s) <= 6])
    f.update(fix)
    while True:
        d, facts, s = corpus.make(rng, **f)
        if len(d) < 1800 and sum(c["wb"] * c["hb"] for c in facts["comps"]) <= 16:
            return d, s


def mutator(rng, kind):
    def m(n, sc, segl):
        segl = [list(q) for q in segl]
        if kind == "random":
            return [[("b", rng.getrandbits(1) if rng.random() < .9 else 0, 1) for _ in range(rng.choice([8, 30, 200, 600]))] for _ in segl]
        if not segl:
            return segl
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            q = rng.choice(segl)
            hs = [i for i, it in enumerate(q) if it[0] == "h"]
            k = rng.randrange(10)
            ac = [i for i in hs if q[i][1] == 1]
            if k == 0 and ac:        # another symbol, with its own bits left as they are
                i = rng.choice(ac); q[i] = q[i][:3] + (rng.choice([0, 0x10, 0x20, 0x70, 0xe0, 0xf0, 1, 0x11, 0xf1, 2, 0x0a, 0x0b, 0xff, rng.randrange(256)]),)
            elif k == 1 and ac:      # longer end-of-band run
                e = [i for i in ac if q[i][3] & 15 == 0 and q[i][3] != 0xf0]
                if e:
                    i = rng.choice(e); r = rng.choice([0, 1, 1, 2, 3, 14])
                    if q[i][3] >> 4 and i + 1 < len(q) and q[i + 1][0] == "b": del q[i + 1]
                    q[i] = q[i][:3] + (r << 4,)
                    if r: q.insert(i + 1, ("b", rng.choice([0, 1, (1 << r) - 1, rng.getrandbits(r)]), r))
            elif k == 2 and ac:      # an inserted run of zeros
                i = rng.choice(ac); q[i:i] = [q[i][:3] + (0xf0,)] * rng.choice([1, 1, 2, 3, 4])
            elif k == 3 and ac:
                i = rng.choice(ac); q[i:i] = [q[i][:3] + (0,)]
            elif k == 4 and q:
                del q[rng.randrange(len(q))]
            elif k == 5 and q:
                i = rng.randrange(len(q)); q.insert(i, q[rng.randrange(len(q))])
            elif k == 6:             # bits changed
                bs = [i for i, it in enumerate(q) if it[0] == "b" and it[2]]
                if bs:
                    i = rng.choice(bs); q[i] = ("b", rng.choice([0, (1 << q[i][2]) - 1, rng.getrandbits(q[i][2])]), q[i][2])
            elif k == 7:             # intervals
                i = rng.randrange(len(segl))
                if len(segl) > 1 and rng.random() < .5:
                    if rng.random() < .5: del segl[i]
                    else:
                        i = rng.randrange(len(segl) - 1); segl[i] = segl[i] + segl[i + 1]; del segl[i + 1]
                else:
                    c = rng.randrange(len(segl[i]) + 1); segl[i:i + 1] = [segl[i][:c], segl[i][c:]]
            elif k == 8:             # more than enough, or not enough
                if rng.random() < .5: q += [("b", rng.getrandbits(8), 8)] * rng.choice([1, 2, 5])
                else: del q[len(q) - rng.randint(0, min(3, len(q))):]
            elif k == 9:
                dc = [i for i in hs if q[i][1] == 0]
                if dc:
                    i = rng.choice(dc); s = rng.choice([0, 1, 11, 10, rng.randrange(12)])
                    if i + 1 < len(q) and q[i + 1][0] == "b" and q[i][3]: del q[i + 1]
                    q[i] = q[i][:3] + (s,)
                    if s: q.insert(i + 1, ("b", rng.choice([0, (1 << s) - 1, rng.getrandbits(s)]), s))
        return segl
    return m


def entropy(rng, **fix):
    """A file whose scans carry an edit at the level of coded symbols."""
    kind = rng.choice(["sym"] * 5 + ["random"])
    f = {"hk": "full" if kind == "sym" or rng.random() < .3 else rng.choice(["rnd", "std", "opt"]), "extra": None}
    f.update(fix)
    for _ in range(50):
        d, s = small(rng, **f)
        which = [n for n, g in enumerate(s["segs"]) if g[0] == "sos"]
        target = rng.choice(which)
        mu = mutator(rng, kind)
        s["mutate"] = lambda n, sc, segl: mu(n, sc, segl) if n == target else segl
        s["coef"] = corpus.coef_fn(rng, s["desc"]["kind"], s["comps"])
        try:
            d, _ = G.build(s)
        except KeyError:
            continue
        if len(d) < 2200:
            return d, s
    raise RuntimeError("no file")


def eobx(rng):
    """End-of-band runs that are too long or too short for their interval or scan."""
    style = rng.choice(["dc_ac", "dc_ac", "libjpeg", "bands", "random"])
    w, h = rng.choice([(8, 48), (48, 8), (24, 24), (16, 32), (64, 16), (24, 40)])
    _, s = small(rng, sof=0xc2, style=style, hk="full", nc=1, samp=[(1, 1)], w=w, h=h, ri=rng.choice([0, 1, 2, 2, 3, 4, 5]), extra=None, p_reset=0, p_zr=0,
                 kind=rng.choice(["zero", "dconly", "sparse", "sparse"]))
    acs = [n for n, g in enumerate(s["segs"]) if g[0] == "sos" and g[1]["Ss"] > 0]
    row = (w + 7) // 8
    if acs:
        t = rng.choice(acs)
        x = rng.choice([-1, 1, 1, 1, 2, row - 1, row, row, row + 1, rng.randint(1, 40), 32766])
        def mu(n, sc, segl):
            if n != t:
                return segl
            segl = [list(q) for q in segl]
            c = [q for q in range(len(segl)) if segl[q]]
            if not c:
                return segl
            q = rng.choice(c + [c[-1], c[0]])
            l = segl[q]
            e = [i for i, it in enumerate(l) if it[0] == "h" and it[1] == 1 and it[3] & 15 == 0 and it[3] != 0xf0]
            if e:
                i = e[-1]; r = l[i][3] >> 4
                run = (1 << r) + (l[i + 1][1] if r else 0)
                run = max(1, min(32767, run + x)); n = run.bit_length() - 1
                l[i:i + (2 if r else 1)] = [l[i][:3] + (n << 4,)] + ([("b", run - (1 << n), n)] if n else [])
            return segl
        s["mutate"] = mu
    return G.build(s)[0]


def rstx(rng):
    """Restart markers other than the expected ones."""
    d, s = small(rng, ri=rng.choice([1, 1, 2, 3]), w=rng.choice([8, 16, 40]), h=rng.choice([8, 24]), nc=1, samp=[(1, 1)], extra=None)
    a = d.find(b"\xff\xda")
    m = [i for i in range(a, len(d) - 1) if d[i] == 255 and 0xd0 <= d[i + 1] <= 0xd7]
    if not m:
        return d
    i = rng.choice(m); k = rng.randrange(8)
    if k == 0: return d[:i + 1] + bytes([0xd0 + rng.randrange(8)]) + d[i + 2:]
    if k == 1: return d[:i] + d[i + 2:]
    if k == 2: return d[:i] + d[i:i + 2] + d[i:]
    if k == 3: return d[:i] + b"\xff" * rng.choice([1, 1, 2, 5]) + d[i:]
    if k == 4: return d[:i + 1] + bytes([rng.choice([0, 0xd8, 0xd9, 0xda, 0xc4, 0xfe, 0xcf, 1])]) + d[i + 2:]
    if k == 5: return d[:i] + bytes([rng.randrange(256)]) + d[i:]
    if k == 6: return d[:i] + d[i + 2:i + 3] + d[i:i + 2] + d[i + 3:]
    e = d.rfind(b"\xff\xd9")
    return d[:e] + bytes([255, 0xd0 + (len(m) + rng.choice([0, 0, 1])) % 8]) + d[e:]


def bytewise(rng, d):
    """A byte level edit of d."""
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = len(d)
        k = rng.randrange(8)
        i = rng.randrange(n)
        if rng.random() < .4:       # near a marker
            ms = [p for p in range(n - 1) if d[p] == 255 and d[p + 1] > 0xbf]
            if ms: i = min(n - 1, rng.choice(ms) + rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]))
        if k == 0: d[i] ^= 1 << rng.randrange(8)
        elif k == 1: d[i] = rng.choice([0, 1, 2, 3, 0x10, 0x11, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xc4, 0xd8, 0xd9, 0xda, 0xdd, 0xff])
        elif k == 2: d[i] = (d[i] + rng.choice([1, -1])) & 255
        elif k == 3: del d[i]
        elif k == 4: d.insert(i, rng.choice([0, 0xff, 0xd9, rng.randrange(256)]))
        elif k == 5: del d[i + 1:n if rng.random() < .7 else i + rng.randint(2, 40)]
        elif k == 6:
            a = rng.randrange(n); b = min(n, a + rng.randint(1, 60)); d[i:i] = d[a:b]
        else:
            d[i:i + 1] = bytes([0xff, rng.choice([0xd0, 0xd1, 0xd7, 0xd9, 0xc4, 0xda, 0xe0, 0xfe, 0x01, 0x00])])
        if len(d) < 3: break
    return bytes(d)


def field(rng, d):
    """One field of one marker segment set to a value at or past its limit."""
    d = bytearray(d)
    segs, p = [], 2
    while p + 4 <= len(d):
        if d[p] != 0xff or d[p + 1] in (0, 0xff) or 0xd0 <= d[p + 1] <= 0xd9:
            p += 1
            continue
        n = d[p + 2] << 8 | d[p + 3]
        segs.append((d[p + 1], p + 4, p + 2 + n))
        p += 2 + n
    segs = [s for s in segs if s[0] in (0xc0, 0xc1, 0xc2, 0xc4, 0xdb, 0xdd, 0xda) and s[2] <= len(d)]
    if not segs:
        return bytes(d)
    m, a, e = rng.choice(segs)
    put = lambda i, v: d.__setitem__(i, v & 255) if a <= i < e else None
    if m in (0xc0, 0xc1, 0xc2):
        k = rng.randrange(5)
        c = a + 6 + 3 * rng.randrange(max(1, d[a + 5]))
        if k == 0: put(a, rng.choice([7, 9, 12]))
        elif k == 1: put(a + 5, rng.choice([0, 1, 2, 3, 4, 5, 255]))
        elif k == 2: put(c, rng.choice([0, 255, d[a + 6]]))
        elif k == 3: put(c + 1, rng.choice([0, 0x10, 0x01, 0x11, 0x22, 0x44, 0xf1, 0x1f, 0xff, 0x31]))
        else: put(c + 2, rng.choice([0, 1, 2, 3, 4, 255]))
    elif m == 0xc4:
        k = rng.randrange(4)
        n = sum(d[a + 1:a + 17])
        if k == 0: put(a, rng.choice([0, 3, 4, 0x10, 0x13, 0x14, 0x20, 255]))
        elif k == 1:
            i = a + 1 + rng.randrange(16); put(i, rng.choice([0, d[i] + 1, d[i] - 1, 255, 1]))
        elif n: put(a + 17 + rng.randrange(n), rng.choice([11, 12, 13, 15, 16, 17, 255, 0, 0xf0, 0x0f, rng.randrange(256)]))
    elif m == 0xdb:
        if rng.random() < .5: put(a, rng.choice([0, 3, 4, 0x10, 0x13, 0x20, 255]))
        else: put(a + 1 + rng.randrange(64), rng.choice([0, 1, 255]))
    elif m == 0xdd:
        put(a + rng.randrange(2), rng.choice([0, 1, 255]))
    else:
        n = d[a]
        k = rng.randrange(5)
        if k == 0: put(a, rng.choice([0, 1, 2, 3, 4, 5]))
        elif k == 1: put(a + 1 + 2 * rng.randrange(max(n, 1)), rng.choice([0, 1, 2, 3, 4, 255]))
        elif k == 2: put(a + 2 + 2 * rng.randrange(max(n, 1)), rng.choice([0x00, 0x11, 0x33, 0x34, 0x43, 0x40, 0x04, 0xff]))
        else:
            s = a + 1 + 2 * n
            j = rng.randrange(3)
            put(s + j, [rng.choice([0, 1, 2, 63, 64, 65, 255]), rng.choice([0, 1, 5, 62, 63, 64, 65, 79, 80, 255]), rng.choice([0, 1, 0x10, 0x0d, 0xd0, 0x21, 0x32, 0xed, 0xfe, 0xff, 0x0e, 0x0f])][j])
    return bytes(d)
