"""C09: the stream format has a reading of its own (Brunsli.tla); the streams the
encoder makes now, streams derived from them, and streams made long ago are
read by it and by the real decoder (FormatTrace.tla)."""
import json
import brn
import jpegmut
import side
from common import *

NF = 1500 if V.THOROUGH else 150
FRESH = 900 if V.THOROUGH else 70
EDITS = 2600 if V.THOROUGH else 300
RICH = 300 if V.THOROUGH else 144
BLOCKS = 40
E2 = "golden " + os.path.join(V.VERIF, "golden", "e2.bin")


def small(rng, i):
    r = i % 8
    fx = {"maxb": rng.choice([1, 2, 3]), "metas": rng.choice([[], [], ["com"], ["adobe"], ["jfif", "stockicc"], ["adobe_std", "ducky", "jfif"]])}
    if r == 0:
        fx.update(nc=1, samp=[(1, 1)], w=rng.randint(1, 40), h=rng.randint(1, 40))
    elif r == 1:
        fx.update(nc=3, samp=[(1, 1)] * 3, w=rng.randint(1, 24), h=rng.randint(1, 16), kind=rng.choice(["dense", "large", "mixed"]))
    elif r == 2:
        fx.update(sof=0xc2)
    elif r == 3:
        fx.update(nc=1, samp=[(1, 1)], w=rng.randint(9, 30), h=rng.randint(9, 30), kind=rng.choice(["dense", "large", "smooth", "grad"]))
    elif r == 4:
        fx.update(nc=4, maxb=1)
    elif r == 5:
        fx.update(metas=["exif", "icc", "com"][:rng.randint(1, 3)], tail=b"tail", maxb=1)
    elif r == 6:
        fx.update(ri=rng.choice([1, 2]))
    return fx


def rich(rng, i):
    """Files with many coefficients, to be given contexts of all kinds."""
    fx = {"metas": [], "sof": 0xc0, "extra": None}
    if i % 16 == 0:      # enough blocks for the adaptive probabilities to be halved
        fx.update(nc=1, samp=[(1, 1)], w=rng.randint(129, 150), h=rng.randint(129, 150), kind=rng.choice(["sparse", "dconly", "smooth"]))
        return fx
    if i % 16 in (4, 12):   # blocks with any number of coefficients after any other
        fx.update(nc=1, samp=[(1, 1)], w=rng.randint(1900, 2400) if i % 16 == 4 else rng.randint(800, 1000), h=rng.randint(1, 8) if i % 16 == 4 else rng.randint(9, 16), kind="sparse")
        return fx
    if i % 4 == 3:
        fx.update(nc=3, samp=rng.choice([[(1, 1)] * 3, [(2, 1), (1, 1), (1, 1)]]), w=rng.randint(20, 32), h=rng.randint(17, 32))
    elif i % 4 == 2:
        fx.update(nc=2, samp=[(1, 1)] * 2, w=rng.randint(20, 40), h=rng.randint(17, 40))
    else:
        fx.update(nc=1, samp=[(1, 1)], w=rng.randint(33, 72), h=rng.randint(33, 64))
    fx["kind"] = rng.choice(["dense", "large", "smooth", "mixed"])
    return fx


def forged(exe, fs):
    """Streams with contexts as fine as the format has them, used contexts told apart."""
    cases, outs, rng = [], [], random.Random("C09f-%d" % V.SEED)
    for i, (cid, path, data, facts, desc) in enumerate(fs):
        if not facts["rep"] or not facts["valid"]:
            continue
        q = os.path.join(V.workdir(), "files", cid + ".brn")
        fill = i % 3 != 0 and i % 16 != 0
        ops = ["fill j %d %d %d %d" % (rng.choice([1, 2, 3, 10, 40, 300, 2000]), rng.choice([1, 5, 40, 300, 1000]), rng.randrange(1 << 30), rng.choice([5, 20, 40, 60, 80, 95, 100]))] if fill else []
        k = [(i + j * 3) % 7 for j in range(3)]
        if i % 16 in (4, 12):
            fill, ops = True, ["spread j %d %d" % (rng.choice([1, 10, 60, 500]), rng.randrange(1 << 30))]
        cases.append((cid, ["load s " + path, "read s j A"] + ops + ["setver j %d" % (0 if i % 5 == 2 else 2), "forge j b 1 %d %d %d" % tuple(k), "save b " + q]))
        outs.append((cid, q, None if fill else path, "rich"))
    V.drive(exe, cases)
    return [o for o in outs if os.path.exists(o[1]) and 0 < os.path.getsize(o[1]) < 60000]


def blocks(b):
    """Upper estimate of the number of blocks of a stream (0: a file kept as it is)."""
    try:
        body = next(x[2] for x in brn.split(b) if x[0] == 2)
        v = {t: x for t, w, x, _ in brn.split(body)}
        if v[3] >> 2 == 1:
            return 0
        n = (v[3] & 3) + 1
        s = [((v[4] >> (8 * k) & 15) + 1, (v[4] >> (8 * k + 4) & 15) + 1) for k in range(n)]
        mv, mh = max(x[0] for x in s), max(x[1] for x in s)
        m = -(-v[1] // (8 * mh)) * -(-v[2] // (8 * mv))
        if v[1] > 65535 or v[2] > 65535 or max(mv, mh) > 15 or any(m * a * c > 1 << 21 for a, c in s):
            return 0                # too large to be read
        return m * sum(a * c for a, c in s)
    except Exception:
        return 0


def streams(exe, rng, fs, forge):
    """[(id, stream path, file path or None, how)] of streams the encoder makes."""
    cases, outs = [], []
    for i, (cid, path, data, facts, desc) in enumerate(fs):
        if not facts["rep"] or not facts["valid"]:
            continue
        q = os.path.join(V.workdir(), "files", cid + ".brn")
        how = ("enc", "fine", "enc", "any", "old", "fine", "enc", "fine")[i % 8] if i % 24 else "bypass"
        if how == "fine" and not forge:
            how = "enc"
        if how == "enc":
            ops = [rng.choice(["cenc s b", "enc j b"])]
        elif how == "fine":         # contexts finer than small files get
            k = rng.choice([[1], [2], [3], [4], [5], [6], [0, 6, 3], [2, 5, 1], [1, 4, 6, 0]])
            ops = ["fill j %d %d %d %d" % (rng.choice([2, 3, 40, 300, 2000]), rng.choice([5, 1000]), rng.randrange(1 << 30), rng.choice([10, 30, 60, 100]))] if i % 16 == 1 else []
            ops += ["setver j %d" % rng.choice([0, 2, 2]), "forge j b %d " % (i % 4 != 3) + " ".join(map(str, k))]
        elif how == "old":
            ops = ["setver j 0", "enc j b"]
        elif how == "any":          # coefficients of any size, as a caller may hand them over
            ops = ["fill j %d %d %d %d" % (rng.choice([1, 3, 100, 1023, 32767]), rng.choice([0, 5, 1000, 2047]), rng.randrange(1 << 30), rng.choice([1, 5, 30, 100])),
                   "setver j %d" % rng.choice([0, 2]), "enc j b"]
        else:
            ops = ["bypass s b"]
        cases.append((cid, ["load s " + path, "read s j A"] + ops + ["save b " + q]))
        outs.append((cid, q, None if how == "any" or any(o.startswith("fill") for o in ops) else path, how))
    V.drive(exe, cases)
    return [o for o in outs if os.path.exists(o[1]) and os.path.getsize(o[1])]


def edit(rng, b):
    """One deviation of a stream: (bytes, name)."""
    try:
        parts = brn.split(b)
    except Exception:
        parts = []
    k = rng.choice(["int", "int", "int", "quant", "hist", "hist", "order", "dc", "ac", "dc", "ac", "head", "head", "head", "sec", "flip", "trunc", "ext", "meta"])
    hv = {}
    try:
        hv = {t: x for t, w, x, _ in brn.split(next(x[2] for x in parts if x[0] == 2))}
    except Exception:
        pass
    n = (hv.get(3, 0) & 3) + 1
    p = [list(x) for x in parts]
    at = {x[0]: i for i, x in enumerate(p)}

    def join(width=None):
        return b"".join(x[3] for x in p)

    def repl(tag, body):
        p[at[tag]][3] = bytes([tag << 3 | 2]) + brn.base128(len(body)) + bytes(body)
    try:
        if k == "int":
            d = side.internals(p[at[4]][2], n); name = side.edit_internals(rng, d, n)
            if rng.random() < .2:
                name += "+" + side.edit_internals(rng, d, n)
            repl(4, side.put_internals(d)); return join(), "int/" + name
        if k == "quant":
            d = side.quant(p[at[5]][2], n); name = side.edit_quant(rng, d, n); repl(5, side.put_quant(d)); return join(), "quant/" + name
        if k in ("hist", "dc", "ac", "meta"):
            t = {"hist": 6, "dc": 7, "ac": 8, "meta": 3}[k]
            x = bytearray(p[at[t]][2]); r = rng.random()
            if r < .6 and x:
                for _ in range(rng.choice([1, 1, 2])):
                    x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            elif r < .8:
                x = x[:len(x) - rng.choice([1, 2, 2, 4])]
            else:
                x += bytes([0] * rng.choice([1, 2, 2, 4]))
            repl(t, x); return join(), k
        if k == "order":
            repl(8, side.order_section(rng, p[at[8]][2], n)); return join(), k
        if k == "head":
            which = rng.choice(["w", "h", "ver", "ss", "drop", "dup", "unk", "wire", "big"])
            it = [(1, hv[1]), (2, hv[2]), (3, hv[3]), (4, hv[4])]
            extra = b""
            if which == "w":
                it[0] = (1, rng.choice([0, 1, hv[1] + 1, hv[1] + 8, max(1, hv[1] - 1), 65535, 65536, 1 << 40]))
            elif which == "h":
                it[1] = (2, rng.choice([0, 1, hv[2] + 1, hv[2] + 8, max(1, hv[2] - 1), 65535, 65536, 1 << 40]))
            elif which == "ver":
                it[2] = (3, rng.choice([hv[3] ^ 8, hv[3] ^ 16, hv[3] ^ 4, hv[3] ^ 1, hv[3] ^ 2, hv[3] + 32, 1 << 50]))
            elif which == "ss":
                it[3] = (4, rng.choice([hv[4] ^ 1, hv[4] ^ 0x10, hv[4] ^ 0x100, hv[4] | 15, hv[4] | 0xf0, hv[4] | 1 << 33, hv[4] | 1 << 62, 0]))
            elif which == "drop":
                it.pop(rng.randrange(4))
            elif which == "dup":
                it.append(rng.choice(it))
            elif which == "unk":
                extra = rng.choice([brn.var(rng.randint(5, 15), rng.getrandbits(20)), brn.sec(rng.randint(5, 15), b"abc"), brn.var(0, 3), bytes([5 << 3 | 2, 200, 1]), bytes([0x80 | 5 << 3, 1])])
            elif which == "wire":
                extra = brn.sec(rng.randint(1, 4), b"ab")
            else:
                extra = bytes([5 << 3]) + rng.choice([b"\xff" * 8 + b"\x01", b"\xff" * 9 + b"\x01", b"\x80" * 8 + b"\x00", b"\x80"])
            rng.shuffle(it) if rng.random() < .3 else None
            repl(2, b"".join(brn.var(t, v) for t, v in it) + extra); return join(), "head/" + which
        if k == "sec":
            which = rng.choice(["swap", "drop", "dup", "unk", "unkvar", "wide", "long", "novar"])
            i = rng.randrange(2, len(p))
            if which == "swap":
                j = rng.randrange(2, len(p)); p[i], p[j] = p[j], p[i]
            elif which == "drop":
                p.pop(i)
            elif which == "dup":
                p.insert(rng.randrange(2, len(p)), list(p[i]))
            elif which == "unk":
                p.insert(rng.randrange(2, len(p) + 1), [0, 2, b"", brn.sec(rng.choice([1, 2, 9, 10, 11, 15]), bytes(rng.randrange(6)))])
            elif which == "unkvar":
                p.insert(rng.randrange(2, len(p) + 1), [0, 0, 0, brn.var(rng.choice([9, 10, 12, 15]), rng.getrandbits(30))])
            elif which == "wide":
                for y in p[1:]:
                    y[3] = bytes([y[0] << 3 | 2]) + brn.base128(len(y[2]), rng.choice([2, 3, 5, 9])) + bytes(y[2])
            elif which == "long":
                y = p[i]; y[3] = bytes([y[0] << 3 | 2]) + brn.base128(len(y[2]) + rng.choice([-1, 1, 2]), 4) + bytes(y[2])
            else:
                y = p[i]; y[3] = bytes([y[0] << 3]) + brn.base128(7)
            return join(), "sec/" + which
    except (KeyError, IndexError, StopIteration, ValueError):
        pass
    if k == "trunc":
        return b[:rng.randrange(len(b))], "trunc"
    if k == "ext":
        return b + bytes([rng.choice([0, 0x82, 0x72])]), "ext"
    x = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4])):
        x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
    return bytes(x), "flip"


def numbers(cand):
    """Every fixed table and rule of the side information, in the smallest stream there is: [(name, bytes)]."""
    for b in sorted((open(q, "rb").read() for c, q, p, how in cand), key=len):
        try:
            p = [list(x) for x in brn.split(b)]
            at = {x[0]: i for i, x in enumerate(p)}
            v = {t: x for t, w, x, _ in brn.split(p[at[2]][2])}
            n = (v[3] & 3) + 1
            d, t = side.internals(p[at[4]][2], n), side.quant(p[at[5]][2], n)
        except Exception:
            continue
        if v[3] >> 2 & 1 or len(t["tables"]) < 2 or blocks(b) > 12:
            continue

        def with_(tag, body):
            return b"".join(x[3] if x[0] != tag else bytes([tag << 3 | 2]) + brn.base128(len(body)) + body for x in p)
        out, nq = [], len(t["tables"])
        for s in range(8):
            t["tables"] = [{"stock": (s + i) % 8} for i in range(nq)]
            out.append(("stock%d" % s, with_(5, side.put_quant(t))))
        for q in range(64):
            t["tables"] = [{"q": (q + 32 * i) % 64, "diff": [None] * 64} for i in range(nq)]
            out.append(("scale%d" % q, with_(5, side.put_quant(t))))
        old = [dict(h) for h in d["huff"]]
        for ac in range(2):
            for k in range(2):
                d["huff"] = [dict(h) for h in old]
                for h in d["huff"]:
                    if h["ac"] == ac:
                        h["match"], h["stock"] = 1, k
                out.append(("code%d%d" % (ac, k), with_(4, side.put_internals(d))))
        return out
    return []


def golden():
    """Streams made before any change to the library (lib/mkgolden.py), with the files they are of."""
    g = os.path.join(V.VERIF, "golden")
    return [(x[:-4], os.path.join(g, x), os.path.join(g, x[:-4] + ".jpg")) for x in sorted(os.listdir(g)) if x.endswith(".brn")]


def main():
    rep = V.Report("C09")
    defs, forge = ['-DBDRV_EXTRA="%s/harness/format.h"' % V.VERIF], True
    try:
        exe = V.build("asan", name="fmt", defs=defs + ["-DFORGE"])
    except V.CheckError as x:
        V.log("without forging", str(x)[:300]); forge = False
        rep.assumptions.append("the encoder's stages could not be driven one by one; context schemes 1 to 6 are read from large files only")
        exe = V.build("asan", name="fmt", defs=defs)
    rng = random.Random("C09-%d" % V.SEED)
    fs = files(NF, "C09-%d" % V.SEED, small)
    made = [(c, q, p, how) for c, q, p, how in streams(exe, rng, fs, forge) if blocks(open(q, "rb").read()) <= BLOCKS and os.path.getsize(q) < 3000]
    cases, names = [], {}
    big = forged(exe, files(RICH, "C09r-%d" % V.SEED, rich, "r")) if forge else []
    fresh = made[:FRESH] + big
    for c, q, p, how in fresh:
        cases.append((c, [E2, "load b " + q] + (["load s " + p, "fmt b s"] if p else ["fmt b"]))); names[c] = how
    old = [o for o in made if os.path.getsize(o[1]) < 1200]
    base = [(c, q, p, how) for c, q, p, how in streams(exe, rng, files(24, "C09n-%d" % V.SEED, {"nc": 3, "samp": [(1, 1)] * 3, "w": 8, "h": 8, "metas": [], "extra": None, "sof": 0xc0}, "n"), False) if how == "enc"]
    fixed = numbers(base)
    rep.count("fixed_numbers", len(fixed))
    for n, b in fixed:
        cases.append(("n" + n, [E2, "load b " + put("n" + n + ".brn", b), "fmt b"])); names["n" + n] = "number"
    i = 0
    while i < EDITS and old:
        c, q, p, how = rng.choice(old)
        b, name = edit(rng, open(q, "rb").read())
        i += 1
        if blocks(b) > 4 * BLOCKS:
            continue
        x = put("e%d.brn" % i, b)
        cases.append(("e%d" % i, [E2, "load b " + x, "fmt b"])); names["e%d" % i] = name
    for c, q, p in golden():
        cases.append((c, [E2, "load b " + q, "load s " + p, "fmt b s"])); names[c] = "golden"
    res = V.drive(exe, cases, timeout=60)
    recs = []
    for cid, ops in cases:
        e = next((x for x in res[cid] if x.get("op") == "fmt"), None)
        if e is None:
            rep.violation("case %s (%s): the decoder did not return: %s" % (cid, names[cid], [x for x in res[cid]][-1:]), {"ops": ops}, [ops[1].split()[1]])
            continue
        recs.append(dict({k: e[k] for k in ("d", "meta", "st", "img", "raw", "file", "ver", "orig", "same", "diff")}, id=cid, ev=[]))
    if os.environ.get("C09_DUMP"):
        json.dump([recs, names], open(os.environ["C09_DUMP"], "w"))
    for cid, ops in cases:
        rep.count("cases_" + names[cid].split("/")[0], 1)
    rep.count("accepted", sum(r["st"] == 0 for r in recs))
    rep.count("refused", sum(r["st"] != 0 for r in recs))
    rep.count("blocks", sum(sum(len(c) for c in r["img"].get("cf", [])) for r in recs))
    for r in recs[:3]:
        rep.sample({"id": r["id"], "how": names[r["id"]], "bytes": len(r["d"]), "status": r["st"]})
    recs.sort(key=lambda r: -len(r["d"]))
    for a in range(0, len(recs), 600):
        stats, bad = V.validate("FormatTrace", recs[a:a + 600], rep.prop, timeout=800, max_bad=2)
        rep.add(stats)
        for r, l, why in bad:
            n = names[r["id"]]
            rep.violation("stream %s (%s), step %d: the decoder (status %d) and the format disagree%s" % (
                r["id"], n, l, r["st"], "; it decodes to another image than was encoded: " + r["diff"] if not r["same"] else ""),
                {x: (v if len(str(v)) < 20000 else str(v)[:20000]) for x, v in r.items()}, [])
        if bad:
            break
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
