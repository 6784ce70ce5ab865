import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib as V          # noqa
import corpus             # noqa
import jpeggen as G       # noqa


def put(name, data):
    d = os.path.join(V.workdir(), "files")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "wb") as f:
        f.write(data)
    return p


def pub(facts):
    return {k: v for k, v in facts.items() if not k.startswith("_")}


def rec(cid, meta, ev):
    return {"id": cid, "ev": ev, "facts": meta["facts"]}


def _mk(args):
    seed, i, fix = args
    rng = random.Random("%s/%d" % (seed, i))
    fx = fix(rng, i) if callable(fix) else (fix or {})
    d, f, s = corpus.make(rng, **fx)
    return d, pub(f), s["desc"]


def files(n, seed, fix=None, prefix="f"):
    """n random files: list of (id, path, data, facts, desc)."""
    from concurrent.futures import ProcessPoolExecutor
    res = []
    with ProcessPoolExecutor(8) as ex:
        for i, (d, f, desc) in enumerate(ex.map(_mk, [(seed, i, fix) for i in range(n)], chunksize=16 if n > 200 else 1)):
            cid = "%s%d" % (prefix, i)
            res.append((cid, put(cid + ".jpg", d), d, f, desc))
    return res
