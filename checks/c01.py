"""C01: lossless round trip of whole files, every route, both context models."""
from common import *


def shapes(rng, i):
    """Corpus plan: mostly unconstrained, with steered corners."""
    r = i % 10
    if r == 0:
        return {"nc": 3, "maxb": 16, "w": rng.randint(90, 200), "h": rng.randint(90, 200), "samp": rng.choice([[(1, 1)] * 3, [(2, 2), (1, 1), (1, 1)]])}
    if r == 1:
        return {"sof": 0xc2, "p_zr": rng.choice([0.2, 1.0]), "p_reset": rng.choice([0.2, 1.0])}
    if r == 2:
        return {"kind": rng.choice(["large", "dense"])}
    return {}


def big(rng, i):
    """>= 1024 blocks per component: the sampled context selection path."""
    k = rng.choice(["smooth", "sparse", "hfzero", "grad", "dense", "zero"])
    nc = rng.choice([1, 3])
    n = rng.choice([256, 264, 320]) if k != "dense" else 256
    return {"nc": nc, "samp": [(1, 1)] * nc if rng.random() < .6 or nc == 1 else [(2, 2), (1, 1), (1, 1)], "w": n + rng.randint(0, 9), "h": n + rng.randint(0, 20),
            "kind": k, "sof": rng.choice([0xc0, 0xc2]), "style": "libjpeg", "ri": rng.choice([0, 0, 40])}


def main():
    rep = V.Report("C01")
    exe = V.build("asan")
    n, nb = (2500, 16) if not V.THOROUGH else (25000, 150)
    fs = files(n, "C01-%d" % V.SEED, shapes) + files(nb, "C01b-%d" % V.SEED, big, "big") + files(28 if not V.THOROUGH else 196, "C01x-%d" % V.SEED, corpus.extremes, "ext")
    cases = []
    for cid, path, data, facts, desc in fs:
        fid = G.file_id(data)
        ops = ["load s " + path, "read s j A x", "write j o", "enc j b", "dec b k x", "write k o2",
               "cenc s b2", "cdec b2 o3", "read s j2 A", "setver j2 0", "enc j2 b3", "dec b3 k3", "write k3 o4", "cdec b3 o5",
               "stream b o6 a,a"]
        if not facts["rep"]:
            ops = ["load s " + path, "read s j A x", "write j o", "enc j b", "cenc s b2"]
        cases.append((cid, ops, {"facts": {fid: facts}, "desc": desc}))
    rep.sample({"script": fs[0][4], "bytes": len(fs[0][2])})
    rep.sample({"script": fs[1][4], "bytes": len(fs[1][2])})
    rep.count("files", len(fs)); rep.count("bytes", sum(len(x[2]) for x in fs))
    rep.count("progressive", sum(1 for x in fs if x[4]["sof"] == 0xc2))
    V.log("generated")
    step = 1500
    for i in range(0, len(cases), step):
        V.judge(rep, exe, "CodecTrace", cases[i:i + step], rec)
        if len(rep.violations) >= 3:
            break
    return rep.finish()
