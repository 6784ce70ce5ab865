"""C03: call protocol of the incremental decoder (every call)."""
from streamlib import *


def main():
    rep = V.Report("C03")
    exe = V.build("asan")
    sch = schedules()
    rng = random.Random("C03-%d" % V.SEED)
    n, k, m = (300, 7, 3) if not V.THOROUGH else (3000, 14, 8)
    fs = files(n, "C03-%d" % V.SEED, shapes)
    r = V.tlc("Stream"); rep.add({"states": r.distinct, "transitions": r.states})
    cases = []
    rng.shuffle(sch)
    it = iter(sch * 10)
    for cid, ops, desc in sources(fs, rng, 40):
        ops = list(ops)
        for _ in range(k):
            ops.append("stream b - %s log o" % next(it))
        for _ in range(m):
            ops += damaged(rng, next(it), "log")
        cases.append((cid, ops, desc))
    rep.sample({"ops": cases[0][1], "source": cases[0][2]})
    run(rep, exe, cases)
    return rep.finish()
