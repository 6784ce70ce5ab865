"""C07: which files the reader accepts, decided by the JpegReader machine."""
from jpeglib import *


def main():
    rep = V.Report("C07")
    exe = V.build("asan")
    rng = random.Random("C07-%d" % V.SEED)
    seqs, r = sequences()
    rep.count("enumerated_sequences", len(seqs))
    rep.add({"states": r.distinct, "transitions": r.states})
    if V.THOROUGH:
        pick = seqs * 4
    else:
        singles = [s for s in seqs if len(s) <= 2]
        pick = singles + rng.sample(seqs, 4500)
    inst = [(" ".join(s), jpegtok.concretise(s, rng), rng.choice("AAAAAAAHT")) for s in pick]
    k = 1500 if not V.THOROUGH else 40000
    kinds = [rng.choice(["ent", "entp", "entp", "byte", "byteent", "small", "field", "field"]) for _ in range(k)]
    kinds += ["eobx", "eobx", "rstx"] * (k // 12)
    inst += [(a, d, rng.choice("AAAAAAAAHT")) for a, d in mutants("C07-%d" % V.SEED, kinds)]
    # every prefix and every single byte replaced, for a few files
    for q in range(2 if not V.THOROUGH else 30):
        while True:
            d, s = jpegmut.small(rng, w=8, h=8, metas=[], tail=b"", hk=rng.choice(["opt", "rnd"]), qkind=rng.choice(["rnd", "big16"]))
            if len(d) < 700:
                break
        inst += [("prefix %d of %d" % (n, len(d)), d[:n], "A") for n in range(0, len(d), 1 if V.THOROUGH else 2)]
        inst += [("byte %d" % n, d[:n] + bytes([rng.choice([0, 255, 0x11, d[n] ^ (1 << rng.randrange(8))])]) + d[n + 1:], "A") for n in range(len(d))]
    V.log("files ready", len(inst))
    rep.sample({"sequence": inst[100][0], "bytes": inst[100][1].hex()[:200]})
    check(rep, exe, inst, "verdict")
    return rep.finish()
