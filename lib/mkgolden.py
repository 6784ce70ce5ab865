"""Made golden/g*.brn once, from the library as it was found:
  git -C /repo worktree add /tmp/seed/orig 6744c59; BRUNSLI_REPO=/tmp/seed/orig python3 lib/mkgolden.py"""
import os, shutil, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(here, "checks"), os.path.join(here, "lib")]
from common import *
import c09


def shape(rng, i):
    fx = {"maxb": rng.choice([4, 6, 8]), "sof": rng.choice([0xc0, 0xc2]), "metas": [["com"], ["exif"], ["icc", "adobe"], []][i % 4]}
    if i % 2:
        fx["kind"] = ("smooth", "dense", "large", "grad", "sparse", "mixed")[i // 2 % 6]
    return fx


def main():
    exe = V.build("plain", name="fmt", defs=['-DBDRV_EXTRA="%s/harness/format.h"' % V.VERIF])
    fs = [f for f in files(200, "golden", shape) if f[3]["rep"] and f[3]["valid"] and len(f[2]) < 9000]
    cases = []
    for i, (cid, path, data, facts, desc) in enumerate(fs):
        cases.append((cid, ["load s " + path, "read s j A"] + (["setver j 0", "enc j b"] if i % 2 else ["cenc s b"]) + ["save b " + path + ".brn"]))
    V.drive(exe, cases)
    g, k = os.path.join(here, "golden"), 0
    for cid, path, data, facts, desc in fs:
        if not os.path.exists(path + ".brn"):
            continue
        b = open(path + ".brn", "rb").read()
        if 40 <= c09.blocks(b) <= 150 and 300 < len(b) < 7000 and k < 20:
            shutil.copy(path, os.path.join(g, "g%02d.jpg" % k)); shutil.copy(path + ".brn", os.path.join(g, "g%02d.brn" % k)); k += 1
            print(cid, desc, c09.blocks(b), len(b), len(data))


main()
