"""Independent JPEG writer used to concretise abstract scripts.

Nothing here is shared with /repo: it follows ITU T.81 directly.  A script is
a dict (see build()); the result is (bytes, facts) where facts describe what a
faithful reader has to report about the file.
"""
import array
import random
import zlib

ZZ = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33,
      40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50,
      43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46,
      53, 60, 61, 54, 47, 55, 62, 63]

STD_DC_L = ([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], list(range(12)))
STD_DC_C = ([0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], list(range(12)))
STD_AC_L = ([0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d], [
    0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07,
    0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xa1, 0x08, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52, 0xd1, 0xf0,
    0x24, 0x33, 0x62, 0x72, 0x82, 0x09, 0x0a, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25, 0x26, 0x27, 0x28,
    0x29, 0x2a, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49,
    0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69,
    0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89,
    0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7,
    0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5,
    0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2,
    0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
    0xf9, 0xfa])
STD_AC_C = ([0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77], [
    0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71,
    0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xa1, 0xb1, 0xc1, 0x09, 0x23, 0x33, 0x52, 0xf0,
    0x15, 0x62, 0x72, 0xd1, 0x0a, 0x16, 0x24, 0x34, 0xe1, 0x25, 0xf1, 0x17, 0x18, 0x19, 0x1a, 0x26,
    0x27, 0x28, 0x29, 0x2a, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48,
    0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68,
    0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87,
    0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5,
    0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3,
    0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda,
    0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8, 0xe9, 0xea, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8,
    0xf9, 0xfa])
STD = {"dcl": STD_DC_L, "dcc": STD_DC_C, "acl": STD_AC_L, "acc": STD_AC_C}

# 9-symbol extended variant: some encoders' DC tables cover 0..11
QL = [16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56,
      14, 17, 22, 29, 51, 87, 80, 62, 18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92,
      49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99]
QC = [17, 18, 24, 47] + [99] * 4 + [18, 21, 26, 66] + [99] * 4 + [24, 26, 56] + [99] * 5 + [47, 66] + [99] * 38


def scaled_quant(tbl, q):
    s = 5000 // q if q < 50 else 200 - 2 * q
    return [max(1, min(255, (v * s + 50) // 100)) for v in tbl]


def nbits(v):
    return abs(v).bit_length()


def ident(data):
    return "%08x%08x" % (zlib.crc32(data) & 0xffffffff, zlib.adler32(data) & 0xffffffff)


def file_id(data):
    return "%s_%d" % (ident(data), len(data))


def vec_hash(vals):
    return ident(array.array("q", vals).tobytes())


def nested_hash(chunks):
    d = b""
    for x in chunks:
        d += len(x).to_bytes(8, "little") + bytes(x)
    return ident(d)


class BitW:
    def __init__(self):
        self.out = bytearray()
        self.acc = 0
        self.n = 0
        self.pad = []

    def put(self, v, n):
        if n == 0:
            return
        self.acc = (self.acc << n) | (v & ((1 << n) - 1))
        self.n += n
        while self.n >= 8:
            b = (self.acc >> (self.n - 8)) & 255
            self.out.append(b)
            if b == 255:
                self.out.append(0)
            self.n -= 8
        self.acc &= (1 << self.n) - 1

    def flush(self, padfn):
        if self.n:
            k = 8 - self.n
            for _ in range(k):
                b = padfn()
                self.pad.append(b)
                self.put(b, 1)


def codes_of(table):
    counts, vals = table
    code = 0
    k = 0
    res = {}
    for ln in range(1, 17):
        for _ in range(counts[ln - 1]):
            res[vals[k]] = (code, ln)
            code += 1
            k += 1
        code <<= 1
    return res


def optimal_table(freq, rng=None, spare=True):
    """Length-limited (16) prefix code leaving the all-ones code unused."""
    syms = [s for s in freq if freq[s] > 0]
    if not syms:
        syms = [0]
        freq = {0: 1}
    # package-merge-free approach: Huffman then limit as in T.81 K.2/K.3
    f = dict((s, freq[s]) for s in syms)
    f[256] = 0.5 if spare else 0.5
    nodes = [(c, [s]) for s, c in f.items()]
    length = {s: 0 for s in f}
    import heapq
    cnt = 0
    heap = []
    for c, l in nodes:
        heapq.heappush(heap, (c, cnt, l))
        cnt += 1
    if len(heap) == 1:
        length[heap[0][2][0]] = 1
    while len(heap) > 1:
        a = heapq.heappop(heap)
        b = heapq.heappop(heap)
        for s in a[2] + b[2]:
            length[s] += 1
        heapq.heappush(heap, (a[0] + b[0], cnt, a[2] + b[2]))
        cnt += 1
    bits = [0] * (max(max(length.values()), 16) + 2)
    for s in length:
        bits[length[s]] += 1
    i = len(bits) - 1
    while i > 16:
        while bits[i] > 0:
            j = i - 2
            while bits[j] == 0:
                j -= 1
            bits[i] -= 2
            bits[i - 1] += 1
            bits[j + 1] += 2
            bits[j] -= 1
        i -= 1
    # remove reserved code point
    i = 16
    while bits[i] == 0:
        i -= 1
    bits[i] -= 1
    order = sorted(syms, key=lambda s: (length[s], s))
    return (bits[1:17], order)


def random_table(rng, symbols, maxlen=16):
    """A valid (possibly sparse) random code for the given symbols."""
    symbols = list(symbols)
    rng.shuffle(symbols)
    n = len(symbols)
    while True:
        counts = [0] * 16
        left = n
        space = 1 << 16
        need_min = max(1, (n).bit_length())
        ok = True
        for ln in range(1, 17):
            if left == 0:
                break
            unit = 1 << (16 - ln)
            avail = space // unit
            if avail <= 1:
                c = 0
            else:
                # keep enough room for the rest at length 16 plus all-ones
                c = rng.randint(0, min(left, max(0, avail - 1)))
                while c > 0 and (space - c * unit) < (left - c + 1):
                    c -= 1
                if ln < need_min - 1:
                    c = min(c, rng.randint(0, 1))
            if ln == 16 or ln == maxlen:
                c = left
            counts[ln - 1] = c
            space -= c * unit
            left -= c
            if space < 1:
                ok = False
                break
            if ln == maxlen:
                break
        if ok and left == 0:
            # all-ones code at max depth must be free
            md = max(i for i in range(16) if counts[i]) + 1
            if space >= (1 << (16 - md)):
                return (counts, symbols)


class Jpeg:
    """Geometry + coefficients; encodes scans to symbol streams."""

    def __init__(self, w, h, comps, progressive):
        self.w, self.h = w, h
        self.comps = comps          # dicts: id,h,v,tq
        self.prog = progressive
        self.mh = max(c["h"] for c in comps)
        self.mv = max(c["v"] for c in comps)
        self.mcuc = -(-w // (8 * self.mh))
        self.mcur = -(-h // (8 * self.mv))
        for c in comps:
            c["wb"] = self.mcuc * c["h"]
            c["hb"] = self.mcur * c["v"]
            c["sw"] = -(-(w * c["h"]) // (8 * self.mh))
            c["sh"] = -(-(h * c["v"]) // (8 * self.mv))
            # what the decoder will have reconstructed so far, zigzag order
            c["rec"] = [[0] * 64 for _ in range(c["wb"] * c["hb"])]
        self.coef = None            # per comp list of blocks in zigzag order

    def scan_blocks(self, idxs):
        """Yields lists (per MCU) of (comp index, block index)."""
        if len(idxs) > 1:
            for my in range(self.mcur):
                for mx in range(self.mcuc):
                    l = []
                    for ci in idxs:
                        c = self.comps[ci]
                        for iy in range(c["v"]):
                            for ix in range(c["h"]):
                                l.append((ci, (my * c["v"] + iy) * c["wb"] + mx * c["h"] + ix))
                    yield l
        else:
            ci = idxs[0]
            c = self.comps[ci]
            for y in range(c["sh"]):
                for x in range(c["sw"]):
                    yield [(ci, y * c["wb"] + x)]

    def scan_symbols(self, sc, ri, rng):
        """Produces a list of segments (one per restart interval); a segment is
        a list of ('h', class, slot, sym) and ('b', value, nbits) items.
        Also returns (reset_points, extra_zero_runs)."""
        idxs = [x[0] for x in sc["comps"]]
        dct = {x[0]: x[1] for x in sc["comps"]}
        act = {x[0]: x[2] for x in sc["comps"]}
        if self.prog:
            Ss, Se, Ah, Al = sc["Ss"], sc["Se"], sc["Ah"], sc["Al"]
        else:
            Ss, Se, Ah, Al = 0, 63, 0, 0
        p_reset = sc.get("p_reset", 0.0)
        p_zr = sc.get("p_zr", 0.0)
        maxrun = sc.get("maxrun", 0x7fff)
        segs, cur = [], []
        resets, zruns = [], []
        last_dc = {}
        state = {"run": 0, "pend": [], "ac": None}
        bi = 0
        prev_was_eobrun = False   # the immediately preceding item was an emitted EOB run

        def flush_run():
            r = state["run"]
            if r:
                nb = r.bit_length() - 1
                cur.append(("h", 1, state["ac"], nb << 4))
                if nb:
                    cur.append(("b", r - (1 << nb), nb))
                state["run"] = 0
                for b in state["pend"]:
                    cur.append(("b", b, 1))
                state["pend"] = []
                return True
            return False

        n_in_ri = 0
        mcu_i = 0
        for mcu in self.scan_blocks(idxs):
            if ri and mcu_i and mcu_i % ri == 0:
                flush_run()
                prev_was_eobrun = False
                segs.append(cur)
                cur = []
                last_dc = {}
            mcu_i += 1
            for ci, b in mcu:
                blk = self.coef[ci][b]
                rec = self.comps[ci]["rec"][b]
                if Ah == 0:
                    k0 = Ss
                    if Ss == 0:
                        v = blk[0] >> Al
                        d = v - last_dc.get(ci, 0)
                        last_dc[ci] = v
                        n = nbits(d)
                        cur.append(("h", 0, dct[ci], n))
                        if n:
                            cur.append(("b", d if d > 0 else d + (1 << n) - 1, n))
                        rec[0] = v << Al
                        k0 = 1
                    if k0 <= Se:
                        run = 0
                        emitted = False
                        ac = act[ci]
                        items = []
                        for k in range(k0, Se + 1):
                            v = blk[k]
                            a = abs(v) >> Al
                            if a == 0:
                                run += 1
                                continue
                            while run > 15:
                                items.append(("h", 1, ac, 0xf0))
                                run -= 16
                            n = a.bit_length()
                            items.append(("h", 1, ac, (run << 4) | n))
                            items.append(("b", a if v > 0 else ((1 << n) - 1) - a, n))
                            rec[k] = (a << Al) * (1 if v > 0 else -1)
                            run = 0
                        zr = 0
                        if run > 15 and rng.random() < p_zr:
                            zr = rng.randint(1, run // 16)
                            # k must remain <= Se after the runs for an EOB;
                            # if the run exactly fills the band no EOB follows
                        had = bool(items) or zr > 0
                        if had:
                            if state["run"]:
                                flush_run()
                            cur.extend(items)
                            for _ in range(zr):
                                cur.append(("h", 1, ac, 0xf0))
                            prev_was_eobrun = False
                        if zr:
                            zruns.append((bi, zr))
                        run -= 16 * zr
                        if run > 0:
                            if Ss == 0:      # sequential or DC+AC: EOB0 only
                                cur.append(("h", 1, ac, 0))
                            else:
                                if not had and state["run"] and rng.random() < p_reset:
                                    flush_run()
                                    resets.append(bi)
                                elif not had and state["run"] >= maxrun:
                                    flush_run()
                                    resets.append(bi)
                                state["ac"] = ac
                                state["run"] += 1
                        # run == 0: band complete, no EOB needed
                else:
                    if Ss == 0:
                        cur.append(("b", (blk[0] >> Al) & 1, 1))
                        rec[0] |= ((blk[0] >> Al) & 1) << Al
                        k0 = 1
                    else:
                        k0 = Ss
                    if k0 <= Se:
                        ac = act[ci]
                        absv = [0] * 64
                        eob = 0
                        for k in range(k0, Se + 1):
                            absv[k] = abs(blk[k]) >> Al
                            if absv[k] == 1 and rec[k] == 0:
                                eob = k
                        run = 0
                        corr = []
                        emitted = False
                        for k in range(k0, Se + 1):
                            if rec[k] == 0 and absv[k] != 1:
                                # (a coefficient that was not significant but has
                                # a larger magnitude cannot be coded: keep zero)
                                run += 1
                                continue
                            while run > 15 and k <= eob:
                                flush_run()
                                cur.append(("h", 1, ac, 0xf0))
                                run -= 16
                                for x in corr:
                                    cur.append(("b", x, 1))
                                corr = []
                                emitted = True
                            if rec[k] != 0:
                                bit = absv[k] & 1
                                corr.append(bit)
                                if bit:
                                    rec[k] += (1 << Al) * (1 if rec[k] > 0 else -1)
                                continue
                            flush_run()
                            emitted = True
                            cur.append(("h", 1, ac, (run << 4) | 1))
                            cur.append(("b", 1 if blk[k] > 0 else 0, 1))
                            for x in corr:
                                cur.append(("b", x, 1))
                            corr = []
                            rec[k] = (1 << Al) * (1 if blk[k] > 0 else -1)
                            run = 0
                        if run > 0 or corr:
                            if Ss == 0:
                                cur.append(("h", 1, ac, 0))
                                for x in corr:
                                    cur.append(("b", x, 1))
                            else:
                                if not emitted and state["run"] and rng.random() < p_reset:
                                    flush_run()
                                    resets.append(bi)
                                if state["run"] == 0x7fff:      # two runs in sequence are kept as such, even if forced
                                    flush_run()
                                    resets.append(bi)
                                # libjpeg flushes when too many correction bits pend
                                if len(state["pend"]) + len(corr) > sc.get("maxcorr", 937) and not emitted and state["run"]:
                                    flush_run()
                                    resets.append(bi)
                                state["ac"] = ac
                                state["run"] += 1
                                state["pend"].extend(corr)
                bi += 1
        flush_run()
        segs.append(cur)
        return segs, resets, zruns


def be16(v):
    return bytes([v >> 8 & 255, v & 255])


def seg(marker, payload, lenfix=0):
    return bytes([0xff, marker]) + be16(len(payload) + 2 + lenfix) + bytes(payload)


def dht_payload(tables):
    p = b""
    for cls, slot, (counts, vals) in tables:
        p += bytes([cls << 4 | slot]) + bytes(counts) + bytes(vals)
    return p


def dqt_payload(tables):
    p = b""
    for idx, prec, vals in tables:
        p += bytes([prec << 4 | idx])
        for k in range(64):
            v = vals[ZZ[k]]
            p += be16(v) if prec else bytes([v & 255])
    return p


def build(s):
    """s: dict with keys
      w,h, sof (0xc0..0xc2), comps [{id,h,v,tq}], coef (callable ci,by,bx -> zigzag list)
      seed, pad ('1','0','r'), segs: list of tuples
    """
    rng = random.Random(s.get("seed", 0))
    j = Jpeg(s["w"], s["h"], [dict(c) for c in s["comps"]], s["sof"] == 0xc2)
    j.coef = []
    for ci, c in enumerate(j.comps):
        blocks = []
        for by in range(c["hb"]):
            for bx in range(c["wb"]):
                blocks.append(s["coef"](ci, by, bx))
        j.coef.append(blocks)
    pad = s.get("pad", "1")
    padfn = {"1": lambda: 1, "0": lambda: 0, "r": lambda: rng.getrandbits(1)}[pad]
    out = bytearray(b"\xff\xd8")
    tables = {}       # (class,slot) -> code map
    ri = 0
    pads = []
    scans = []
    markers = []
    dhts = []
    segs = s["segs"]
    i = 0
    # optimal tables need the symbols of the scans they serve: do a symbol pass
    # lazily: 'dht' entries may name table 'opt' and are resolved by looking at
    # the scans up to the next dht that redefines the slot.
    sym_cache = {}
    # simulate scans in order to obtain symbols (does not depend on tables)
    ri_now = 0
    for n, g in enumerate(segs):
        if g[0] == "dri":
            ri_now = g[1]
        if g[0] == "sos":
            sym_cache[n] = j.scan_symbols(g[1], ri_now, rng)
    def freq_for(n, cls, slot):
        f = {}
        for m in range(n + 1, len(segs)):
            g = segs[m]
            if g[0] == "dht" and any(t[0] == cls and t[1] == slot for t in g[1]):
                break
            if g[0] == "sos":
                for sg in sym_cache[m][0]:
                    for it in sg:
                        if it[0] == "h" and it[1] == cls and it[2] == slot:
                            f[it[3]] = f.get(it[3], 0) + 1
        return f
    for n, g in enumerate(segs):
        k = g[0]
        if k == "app":
            out += seg(0xe0 + g[1], g[2]); markers.append(0xe0 + g[1])
        elif k == "com":
            out += seg(0xfe, g[1]); markers.append(0xfe)
        elif k == "junk":
            out += g[1]; markers.append(0xff)
        elif k == "rst":
            out += bytes([0xff, 0xd0 + g[1]]); markers.append(0xd0 + g[1])
        elif k == "dqt":
            out += seg(0xdb, dqt_payload(g[1])); markers.append(0xdb)
        elif k == "dri":
            out += seg(0xdd, be16(g[1])); ri = g[1]; markers.append(0xdd)
        elif k == "sof":
            p = bytes([8]) + be16(s["h"]) + be16(s["w"]) + bytes([len(j.comps)])
            for c in j.comps:
                p += bytes([c["id"], c["h"] << 4 | c["v"], c["tq"]])
            out += seg(s["sof"], p); markers.append(s["sof"])
        elif k == "dht":
            res = []
            for cls, slot, t in g[1]:
                if isinstance(t, str):
                    if t in STD:
                        t = STD[t]
                    else:
                        f = freq_for(n, cls, slot)
                        if t == "opt":
                            t = optimal_table(f)
                        elif t == "rnd":
                            syms = set(f) or {0}
                            lim = 12 if cls == 0 else 256
                            extra = rng.randint(0, 3)
                            while extra and len(syms) < lim:
                                syms.add(rng.randrange(lim)); extra -= 1
                            t = random_table(rng, sorted(syms))
                        elif t == "full":
                            t = random_table(rng, range(12 if cls == 0 else 256))
                        elif t == "seqdep":   # values in default order, odd counts
                            t = optimal_table({q: 1 for q in (f or {0: 1})})
                res.append((cls, slot, t))
                tables[(cls, slot)] = codes_of(t)
            dhts += [(c_, s_, t_, n_ == len(res) - 1) for n_, (c_, s_, t_) in enumerate(res)]
            out += seg(0xc4, dht_payload(res)); markers.append(0xc4)
        elif k == "sos":
            sc = g[1]
            segl, resets, zruns = sym_cache[n]
            if s.get("mutate"):
                segl = s["mutate"](n, sc, segl)
            p = bytes([len(sc["comps"])])
            for ci, d, a in sc["comps"]:
                p += bytes([j.comps[ci]["id"], d << 4 | a])
            p += bytes([sc["Ss"], sc["Se"], sc["Ah"] << 4 | sc["Al"]])
            out += seg(0xda, p); markers.append(0xda)
            for q, sg in enumerate(segl):
                if q:
                    out += bytes([0xff, 0xd0 + (q - 1) % 8])
                bw = BitW()
                for it in sg:
                    if it[0] == "h":
                        code, ln = tables[(it[1], it[2])][it[3]]
                        bw.put(code, ln)
                    else:
                        bw.put(it[1], it[2])
                bw.flush(padfn)
                pads += bw.pad
                out += bw.out
            scans.append({"p": [sc["Ss"], sc["Se"], sc["Ah"], sc["Al"]],
                          "c": [x for c in sc["comps"] for x in c],
                          "rp": resets, "zr": zruns})
        elif k == "eoi":
            out += b"\xff\xd9"; markers.append(0xd9)
        elif k == "tail":
            out += g[1]
        elif k == "raw":
            out += g[1]
    quant, huff, apps, coms, inter = [], [], [], [], []
    for g in segs:
        if g[0] == "dqt":
            for n, (qi, prec, vals) in enumerate(g[1]):
                quant.append({"idx": qi, "prec": prec, "last": n == len(g[1]) - 1, "vals": vec_hash(vals)})
        elif g[0] == "app":
            apps.append(bytes([0xe0 + g[1]]) + be16(len(g[2]) + 2) + g[2])
        elif g[0] == "com":
            coms.append(b"\xfe" + be16(len(g[1]) + 2) + g[1])
        elif g[0] == "junk":
            inter.append(g[1])
    for n, (cls, slot, (counts, vals), last) in enumerate(dhts):
        c17 = [0] + list(counts)
        md = max([i for i in range(17) if c17[i]] or [1])
        c17[md] += 1
        huff.append({"slot": cls << 4 | slot, "last": last, "n": len(vals) + 1,
                     "h": vec_hash(c17) + vec_hash(list(vals) + [256])})
    tail = b"".join(g[1] for g in segs if g[0] == "tail")
    zpad = 0 in pads
    facts = {
        "w": s["w"], "h": s["h"], "ri": ri, "markers": markers,
        "comps": [{"id": c["id"], "h": c["h"], "v": c["v"], "wb": c["wb"], "hb": c["hb"],
                   "coef": natural_coef_hash(c)} for c in j.comps],
        "quant": quant, "huff": huff,
        "scans": [{"p": x["p"], "c": x["c"], "nrp": len(x["rp"]), "rp": vec_hash(x["rp"]),
                   "nzr": len(x["zr"]), "zr": vec_hash([q for z in x["zr"] for q in z])} for x in scans],
        "napp": len(apps), "app": nested_hash(apps), "ncom": len(coms), "com": nested_hash(coms),
        "inter": nested_hash(inter), "ntail": len(tail), "tail": ident(tail),
        "zpad": zpad, "npad": len(pads) if zpad else 0, "pad": vec_hash(pads) if zpad else "",
        "valid": True,
    }
    # limit on recorded padding bits (part of the format's documented limits)
    limit = 7 * ((s["w"] + 15) >> 3) * ((s["h"] + 15) >> 3) * len(j.comps) + 256
    facts["rep"] = (not zpad) or len(pads) <= limit
    facts["npadall"] = len(pads)
    facts["_j"] = j
    return bytes(out), facts


def natural_coef_hash(c):
    """Identity of all coefficients in natural order (what bdrv logs)."""
    a = array.array("q")
    inv = NAT
    for blk in c["rec"]:
        a.extend([blk[k] for k in inv])
    return ident(a.tobytes())


NAT = [0] * 64
for _k in range(64):
    NAT[ZZ[_k]] = _k
