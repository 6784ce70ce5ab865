"""C06: bypass mode, any bytes."""
from common import *


def content(rng, i, jpegs):
    k = i % 12
    if k == 0:
        return b""
    if k == 1:
        return corpus.rand_bytes(rng, rng.choice([1, 2, 3, 4, 5, 6, 7]))
    if k == 2:
        n = rng.choice([126, 127, 128, 129, 16383 - 18, 16383, 16384, 16385, 16366])
        return corpus.rand_bytes(rng, n)
    if k == 3:
        return rng.choice(jpegs)
    if k == 4:
        d = rng.choice(jpegs)
        return d[:rng.randint(0, len(d))]
    if k == 5:
        return bytes([0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E]) + corpus.rand_bytes(rng, rng.randint(0, 60))
    if k == 6:
        return bytes([rng.choice([0, 0xff, 0x4a])]) * rng.choice([1, 600, 601, 1199, 1200, 65536, 70000])
    if k == 7:
        return corpus.rand_bytes(rng, rng.choice([599, 600, 601, 1200, 65535, 65536, 65537]))
    return corpus.rand_bytes(rng, rng.randint(0, 3000))


def main():
    rep = V.Report("C06")
    exe = V.build("asan")
    rng = random.Random("C06-%d" % V.SEED)
    jp = [x[2] for x in files(20, "C06-%d" % V.SEED)]
    n = 900 if not V.THOROUGH else 9000
    cases = []
    for i in range(n):
        d = content(rng, i, jp)
        if i == 8 or (V.THOROUGH and i % 500 == 8):
            d = bytes(rng.getrandbits(8) for _ in range(1000)) * 2098 + b"xyz"[:rng.randint(0, 3)]     # 2^21 boundary of the length field
        L = len(d)
        ops = ["load s " + put("r%d" % i, d), "bypass s b", "isbrn b", "cdec b o", "dec b k", "write k o2", "cdec b o9 " + rng.choice(["full", "cap:%d" % L, "fail:0:0", "cap:0"]),
               "est b"]
        for c in ["max-%d" % rng.randint(1, 40), "%d" % (L + rng.randint(0, 40)), "%d" % rng.randint(0, L + 1), "%d" % (L + 18), "%d" % (L + 17), "%d" % rng.choice([0, 1, 6, 12, 17])]:
            ops += ["bypass s c " + c, "isbrn c", "cdec c o3"]
        if L < 100000:
            sc = rng.choice(["1,1", "1,a", "a,1", "7,5", "h,1;3,3", "a,0;a,0;a,1", "599,a", "600,a", "601,a", "h,0;600,1", "i,a;1,a", "s,a", "13,a;0,0;a,3"])
            if L > 5000:
                sc = rng.choice(["599,a", "600,600", "601,a", "a,1000", "3000,1", "h,a;4000,4001", "i,a;30000,1", "a,0;a,0;9999,9998"])
            ops += ["stream b o4 %s nolog s" % sc]
        ops += ["stream b o5 a,a nolog s", "stream b o6 %d,%d nolog s" % (rng.randint(1, L + 40), rng.randint(1, L + 40)),
                "cut b x %d" % rng.randint(1, 4), "cdec x o7", "stream x o8 a,a", "append b y 00", "cdec y o8", "stream y o8 a,a"]
        cases.append(("b%d" % i, ops, {"facts": {}}))
    rep.sample({"ops": cases[3][1]})
    for i in range(0, len(cases), 1000):
        V.judge(rep, exe, "CodecTrace", cases[i:i + 1000], rec)
        if len(rep.violations) >= 3:
            break
    return rep.finish()
