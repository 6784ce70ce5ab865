"""C17: every coding layer's decoder inverts its encoder (Bits.tla, Arith.tla,
LayerTrace.tla).  One harness per layer; what an encoder wrote is read by the
specification and by the real decoder."""
import json
import subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

N = {"bits": (300, 6000), "huff": (420, 6000), "cmap": (150, 2500), "hist": (700, 20000), "perm": (400, 3000), "prob": (350, 3000), "mix": (220, 2500), "pred": (400, 3000)}


def run_layer(exe, layer, seed, n, timeout):
    out = os.path.join(V.workdir(), "layer-%s-%d.nd" % (layer, seed))
    env = dict(os.environ); env.update(V.SAN_ENV)
    try:
        r = subprocess.run([exe, str(seed), str(n), out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        why = None if r.returncode == 0 else "stopped with status %d: %s" % (r.returncode, r.stdout[-600:])
    except subprocess.TimeoutExpired:
        why = "did not finish"
    recs, last = [], None
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if list(e) == ["start"]:
                last = e["start"]
            else:
                recs.append(e)
    return recs, why, last


def main():
    rep = V.Report("C17")
    r = V.tlc("MuxMC", cfg="MuxMC5.cfg" if V.THOROUGH else "MuxMC.cfg", timeout=800)
    rep.add({"states": r.distinct, "transitions": r.states})
    if not r.ok:
        raise V.CheckError("the small multiplexed coder does not invert itself")
    if V.tlc("MuxMC", cfg="MuxBad.cfg", keep_out=True).ok:
        raise V.CheckError("the small model does not notice a misplaced word")
    exes, missing = V.build_parts("asan", ["harness/layers/%s.cc" % k for k in N], name="layers")
    for m, t in missing.items():
        V.log("left out", m, t[:300])
        rep.assumptions.append("the layer harness %s does not compile against this tree and was left out" % m)
    live = {k: exes["harness/layers/%s.cc" % k] for k in N if exes["harness/layers/%s.cc" % k]}
    n = {k: N[k][1 if V.THOROUGH else 0] for k in N}
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(live, ex.map(lambda k: run_layer(live[k], k, V.SEED, n[k], 120 if not V.THOROUGH else 1200), live)))
    for k, (recs, why, last) in res.items():
        rep.count("cases_" + k, len(recs))
        if why:
            again = run_layer(live[k], k, V.SEED, n[k], 240)
            if again[1]:
                rep.violation("layer %s, case %s: %s" % (k, again[2], again[1]), {"layer": k, "case": again[2], "seed": V.SEED, "output": again[1]})
        if recs:
            rep.sample({x: (v if len(str(v)) < 200 else str(v)[:200]) for x, v in recs[0].items()})
    # large cases first, so that the workers finish together
    recs = sorted((dict(r, ev=[]) for x in res.values() for r in x[0]), key=lambda r: -len(r.get("d", ())) - len(r.get("map", ())))
    chunk = 4000
    for a in range(0, len(recs), chunk):
        stats, bad = V.validate("LayerTrace", recs[a:a + chunk], rep.prop, timeout=800 if V.THOROUGH else 400, max_bad=6)
        rep.add(stats)
        for r, idx, why in bad:
            rep.violation("layer %s, case %s, step %d: what was written is not what was given, or was read back differently" % (r["kind"], r["id"], idx + 1),
                          {x: (v if len(str(v)) < 20000 else str(v)[:20000]) for x, v in r.items()})
        if bad:
            break
    return rep.finish()
