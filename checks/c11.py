"""C11: the size bound and the output buffers."""
from common import *


def shapes(rng, i):
    r = i % 6
    if r == 0:
        return {"kind": "large", "maxb": 6}
    if r == 1:
        return {"kind": "dense", "hk": "full"}
    if r == 2:
        return {"pad": "0", "ri": 1, "nc": 1, "maxb": 10}
    if r == 3:
        return {"metas": ["any"] * rng.randint(5, 60)}
    if r == 4:
        return {"metas": ["bigapp"] * rng.randint(1, 4), "tail": corpus.rand_bytes(rng, 50000)}
    return {"sof": 0xc2, "p_zr": 1.0, "p_reset": 1.0}


def canvas(rng, i):
    """Zero images whose coefficients the driver overwrites."""
    nc = [1, 3, 4, 3][i % 4]
    n = rng.choice([256, 512, 800]) if i % 3 == 0 else rng.choice([8, 16, 64, 128])
    return {"nc": nc, "samp": rng.choice([[(1, 1)] * nc, [(2, 2)] + [(1, 1)] * (nc - 1)]), "sof": 0xc0, "kind": "zero", "w": n, "h": n + rng.randint(0, 8),
            "metas": [], "extra": None, "tail": b"", "ri": 0, "pad": "1", "qkind": rng.choice(["ones", "std", "big16"])}


def main():
    rep = V.Report("C11")
    exe = V.build("asan")
    rng = random.Random("C11-%d" % V.SEED)
    n, m = (260, 60) if not V.THOROUGH else (2600, 500)
    cases = []
    for i, (cid, path, data, facts, desc) in enumerate(files(n, "C11-%d" % V.SEED, shapes)):
        ops = ["load s " + path, "read s j A", "enc j b", "dec b k", "write k o", "caps j %d %d" % (60 if not V.THOROUGH else 300, i)]
        if i % 3 == 0:
            ops += ["setver j 0", "enc j b", "dec b k", "write k o", "caps j 40 %d" % i]
        if not facts["rep"]:
            ops = ops[:3]
        cases.append((cid, ops, {"facts": {G.file_id(data): facts}, "desc": desc}))
    for i, (cid, path, data, facts, desc) in enumerate(files(m, "C11c-%d" % V.SEED, canvas, "c")):
        ops = ["load s " + path, "read s j A"]
        fills = [(2047, 1023, 100), (1023, 1023, 100), (2047, 0, 3), (1, 1, 50), (0, 1023, 0), (255, 500, 60), (2047, 1023, 50), (15, 1000, 100)]
        for q in ([rng.choice(fills)] + [fills[0]] if desc["w"] > 200 else rng.sample(fills, 4)):
            ops += ["fill j %d %d %d %d" % (q[0], q[1], rng.getrandbits(20), q[2]), "enc j b", "dec b k"]
            if desc["w"] <= 128:
                ops += ["caps j 34 %d" % i]
        cases.append((cid, ops, {"facts": {G.file_id(data): facts}, "desc": desc}))
    # one image beyond the size where slack hides a wrong per-block bound
    d, f, s = corpus.make(random.Random(5), nc=1, samp=[(1, 1)], sof=0xc0, kind="zero", w=2600, h=2600, metas=[], extra=None, tail=b"", ri=0, pad="1", hk="full")
    cases.append(("huge", ["load s " + put("huge.jpg", d), "read s j A", "fill j 2047 1023 7 100", "enc j b", "fill j 1023 1023 7 100", "enc j b"], {"facts": {}, "desc": "2600x2600 incompressible"}))
    rep.sample({"ops": cases[0][1], "desc": str(cases[0][2]["desc"])}); rep.sample({"ops": cases[-1][1]})
    V.log("generated")
    for i in range(0, len(cases), 500):
        V.judge(rep, exe, "CodecTrace", cases[i:i + 500], rec, timeout=150)
        if len(rep.violations) >= 3:
            break
    return rep.finish()
