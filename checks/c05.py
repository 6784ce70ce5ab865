"""C05: truncated, extended, mis-sized and damaged streams."""
from common import *


def shapes(rng, i):
    r = i % 8
    if r == 0:
        return {"nc": 1, "samp": [(1, 1)], "w": rng.randint(1, 24), "h": rng.randint(1, 24)}
    if r == 1:
        return {"metas": ["exif", "com", "icc"], "tail": corpus.rand_bytes(rng, rng.choice([0, 200]))}
    if r == 2:
        return {"sof": 0xc2, "style": rng.choice(["libjpeg", "random", "deep"]), "maxb": 2}
    if r == 3:
        return {"metas": [], "tail": b"", "extra": None, "maxb": 4}
    if r == 4:
        return {"kind": rng.choice(["zero", "dconly", "smooth"]), "maxb": 6}
    return {"maxb": 3}


def main():
    rep = V.Report("C05")
    exe = V.build("asan")
    rng = random.Random("C05-%d" % V.SEED)
    n = 130 if not V.THOROUGH else 2500
    fs = files(n, "C05-%d" % V.SEED, shapes)
    cases = []
    for i, (cid, path, data, facts, desc) in enumerate(fs):
        if not facts["rep"]:
            continue
        sd = rng.randrange(1 << 30)
        ops = ["load s " + path] + (["read s j A", "setver j 0", "enc j b"] if i % 3 == 0 else ["cenc s b"]) + ["cdec b o"]
        if i % 2 == 0:
            ops += ["probe b trunc %d %d 2" % (sd, 2500 if i % 4 == 0 else 150), "probe b ext %d 12 2" % sd, "probe b len %d 26 2" % sd]
        else:
            ops += ["probe b flip %d 90 2" % sd, "probe b body %d 12 2" % sd, "probe b trunc %d 60 2" % sd]
        cases.append((cid, ops, {"facts": {G.file_id(data): facts}, "desc": desc}))
    for i in range(16 if not V.THOROUGH else 100):
        k = rng.choice([0, 1, 5, 127, 128, 700, 3000])
        p = put("r%d" % i, corpus.rand_bytes(rng, k))
        ops = ["load s " + p, "bypass s b", "cdec b o", "probe b trunc 1 300 3", "probe b ext 2 12 3", "probe b len 3 26 3", "probe b flip 4 20 3"]
        cases.append(("raw%d" % i, ops, {"facts": {}, "desc": "bypass %d" % k}))
    rep.sample({"ops": cases[0][1], "desc": str(cases[0][2]["desc"])})
    V.log("generated")
    for i in range(0, len(cases), 400):
        V.judge(rep, exe, "CodecTrace", cases[i:i + 400], rec, timeout=120)
        if len(rep.violations) >= 3:
            break
    return rep.finish()
