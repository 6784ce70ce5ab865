"""C02: incremental decoding equals one-shot decoding (results)."""
from streamlib import *


def main():
    rep = V.Report("C02")
    exe = V.build("asan")
    sch = schedules()
    rng = random.Random("C02-%d" % V.SEED)
    n, k, m = (420, 9, 6) if not V.THOROUGH else (4000, 20, 15)
    fs = files(n, "C02-%d" % V.SEED, shapes)
    r = V.tlc("Stream"); rep.add({"states": r.distinct, "transitions": r.states})
    cases = []
    for cid, ops, desc in sources(fs, rng, 60):
        ops = list(ops)
        for _ in range(k):
            ops.append("stream b - %s nolog o" % rng.choice(sch))
        for _ in range(m):
            ops += damaged(rng, rng.choice(sch), "nolog")
        cases.append((cid, ops, desc))
    rep.sample({"ops": cases[0][1], "source": cases[0][2]})
    run(rep, exe, cases)
    return rep.finish()
