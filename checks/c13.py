"""C13: the thread pool under controlled schedules, and groups mode."""
import json
import subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *


def build_pool():
    out = os.path.join(V.workdir(), "pool")
    os.makedirs(out, exist_ok=True)
    inc = ["-std=c++11", "-w", "-O1", "-DNDEBUG", "-I" + os.path.join(V.REPO, "c/include"), "-I" + V.REPO]
    jobs = [(s, os.path.join(out, "%d.o" % i), []) for i, s in enumerate(V.lib_sources())]
    jobs.append((os.path.join(V.REPO, "c/experimental/groups.cc"), os.path.join(out, "groups.o"), ["-fsanitize=thread"]))
    jobs.append((os.path.join(V.VERIF, "harness/pool.cc"), os.path.join(out, "pool.o"), []))

    def one(j):
        return subprocess.run(["g++"] + inc + j[2] + ["-c", j[0], "-o", j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(9) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode:
                raise V.CheckError("compilation failed: %s\n%s" % (j[0], r.stdout[-3000:]))
    exe = os.path.join(out, "pool")
    # -fsanitize=thread is left out on purpose: pool.cc provides the callbacks
    r = subprocess.run(["g++"] + [j[1] for j in jobs] + ["-o", exe] + V.LIBS + ["-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise V.CheckError("link failed: " + r.stdout[-3000:])
    return exe


def schedules(exe, runs):
    """Runs the pool; returns [(argument list, history)], number of schedules."""
    def one(a):
        p = subprocess.run([exe] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)
        return a, p
    hist, n, complete = [], 0, 0
    with ThreadPoolExecutor(8) as ex:
        for a, p in ex.map(one, runs):
            for line in p.stdout.splitlines():
                d = json.loads(line)
                if "ev" in d:
                    if d["ev"] and d["ev"][-1][0] == "timeout" and a[0] != "real":
                        V.log("schedule gave no answer", a)      # blocked outside the primitives the scheduler knows
                        continue
                    hist.append((a, d["ev"]))
                else:
                    n += d["runs"]; complete += d["complete"]
            if p.returncode:
                hist.append((a, [["crash", p.returncode]]))
    return hist, n, complete


def pool(rep):
    exe = build_pool()
    V.log("pool built")
    S = V.SEED
    runs = []
    if not V.THOROUGH:
        for w, b in [(1, "2,1"), (2, "2,1"), (2, "0,3"), (3, "1,1"), (3, "2"), (2, "1,0,2")]:
            runs.append(("dfs", S, 60000, w, b, 1))
        runs.append(("dfs", S, 60000, 2, "1,1", 2))
        for i, (w, b) in enumerate([(1, "3"), (2, "4,0,2"), (3, "5,1,3"), (4, "7,2"), (4, "1,1,1,1"), (8, "9,0,8"), (3, ""), (2, "2,2,2,2,2"), (6, "2,12")]):
            runs.append(("rnd", S * 100 + i, 2500, w, b))
            runs.append(("pct", S * 100 + i, 2500, w, b, 1 + i % 4))
        for i, (w, b) in enumerate([(4, "9,0,1,30"), (8, "40,1,1,1"), (1, "5,0,5"), (16, "3,3")]):
            runs.append(("real", S * 100 + i, 400, w, b))
    else:
        for w in (1, 2, 3):
            for b in ("2,1", "0,3", "1,0,2", "1,1", "3"):
                runs.append(("dfs", S, 1500000, w, b, 2 if w < 3 else 1))
        for i in range(200):
            rng = random.Random("%d/%d" % (S, i))
            b = ",".join(str(rng.choice([0, 1, 1, 2, 3, 5, 9])) for _ in range(rng.randint(0, 4)))
            runs.append((rng.choice(["rnd", "pct"]), S * 1000 + i, 20000, rng.randint(1, 8), b, rng.randint(1, 5)))
        for i in range(24):
            runs.append(("real", S * 100 + i, 6000, 1 + i % 16, "9,0,1,30"))
    hist, n, complete = schedules(exe, runs)
    rep.count("schedules_executed", n)
    rep.count("distinct_histories", len(hist))
    rep.count("configurations_exhausted_within_preemption_bound", complete)
    rep.sample({"pool": list(hist[0][0]), "history": hist[0][1]})
    recs = [{"id": "h%d" % i, "ev": h} for i, (a, h) in enumerate(hist)]
    if not V.THOROUGH and len(recs) > 9000:
        odd = [r for r in recs if r["ev"][-1][0] != "gone"]
        recs = odd[:50] + random.Random(S).sample(recs, 9000)
    stats, bad = V.validate("PoolTrace", recs, "C13")
    rep.add(stats)
    for r, idx, why in bad:
        a = hist[int(r["id"][1:])][0]
        rep.violation("thread pool with %s workers, batches %s (%s schedule, seed %s): step %d of the history is not allowed: %s" % (
            a[3], a[4], a[0], a[1], idx + 1, json.dumps(r["ev"][max(0, idx - 6):idx + 1])), {"run": list(a), "history": r["ev"], "rejected": idx})


def design(rep):
    r = V.tlc("PoolMC")
    if not r.ok:
        raise V.CheckError("PoolImpl does not refine Pool: " + r.out[-2000:])
    rep.add({"states": r.distinct, "transitions": r.states})
    for v in ("latebusy", "nobusy", "oldclose"):
        r = V.tlc("PoolMC", cfg="PoolBad_%s.cfg" % v, keep_out=True)
        if r.ok:
            raise V.CheckError("the broken variant %s passes" % v)


EX = ["seq", "rev", "rnd3", "par4", "jit3", "par1", "thr"]


def shapes(rng, i):
    f = {"maxb": rng.choice([4, 10])}
    if i % 4 == 0:
        f.update({"nc": 3, "w": rng.randint(60, 170), "h": rng.randint(60, 170), "samp": rng.choice([[(1, 1)] * 3, [(2, 2), (1, 1), (1, 1)], [(2, 1), (1, 1), (1, 1)]])})
    if i % 9 == 5:
        f.update({"kind": rng.choice(["dense", "large"]), "samp": [(1, 1)], "nc": 1, "w": rng.randint(50, 100), "h": rng.randint(50, 100), "sof": 0xc0})
    return f


def groups_cases(rng, n, tsan=False):
    fs = files(n, "C13%s-%d" % ("t" if tsan else "", V.SEED), shapes, "t" if tsan else "g")
    cases = []
    for cid, path, data, facts, desc in fs:
        mh, mv = max(c["h"] for c in facts["comps"]), max(c["v"] for c in facts["comps"])
        blocks = facts["comps"][0]["wb"] * facts["comps"][0]["hb"]
        ac = rng.choice([a for a in (1, 2, 4, 8, 32) if blocks / a / a < 120] or [32])
        dc = ac * rng.choice([1, 2, 4, 1])
        dims = (ac & (ac - 1)) == 0 and ac % mh == 0 and ac % mv == 0
        good = "ok" if dims and facts["rep"] else "fail"
        a = "%d %d" % (ac, dc)
        ex = (EX if not tsan else ["par4", "jit3", "thr", "par2"])[:]
        ops = ["load s " + path, "read s j A"]
        ops.append("genc j b %s seq max %s" % (a, good))
        for x in (rng.sample(ex, 3) if not V.THOROUGH else ex):
            ops.append("genc j b2 %s %s max %s" % (a, x, good))
        if good == "ok":
            for x in ["seq"] + rng.sample(ex, 3):
                ops.append("gdec b k %s %s ok" % (a, x))
            if not tsan:
                ops.append("genc j b2 %s seq %s fail" % (a, "0"))
                ops.append("genc j b %s %s len-1 fail" % (a, rng.choice(ex)))
                ops.append("genc j b %s %s len+0 ok" % (a, rng.choice(ex)))
            ngrp = rng.randint(0, 400)
            for d in range(5 if not tsan else 2):
                kind = rng.choice(["short", "long", "drop", "dup", "tag", "cut", "tail", "flip", "zero"])
                arg = {"short": 2, "long": 2, "cut": rng.choice([1, 2, 5]), "tail": rng.choice([1, 3])}.get(kind, rng.randrange(5000))
                ops.append("gdmg b x %s %d %d" % (kind, rng.randint(0, 400), arg))
                exp = "any" if kind in ("flip", "zero") else "fail"
                for e in ["seq"] + rng.sample(ex, 2):
                    ops.append("gdec x y %s %s %s" % (a, e, exp))
            # a failing task somewhere: one DC value outside of what can be coded
            if not tsan or rng.random() < .3:
                for _ in range(2):
                    c = rng.randrange(len(facts["comps"]))
                    nb = facts["comps"][c]["wb"] * facts["comps"][c]["hb"]
                    ops.append("read s m A")
                    ops.append("poke m %d %d 0 %d" % (c, rng.randrange(nb), rng.choice([-30000, 30000, 9000, -7000])))
                    for e in ["seq"] + rng.sample(ex, 2):
                        ops.append("genc m z %s %s max fail" % (a, e))
            ops.append("genc j b2 %d %d seq max fail" % rng.choice([(3, 3), (ac, ac * 3), (ac * 2, ac), (6, 12)]))
        cases.append((cid, ops, {"desc": desc}))
    return cases


def mk(cid, meta, ev):
    return {"id": cid, "ev": ev}


def main():
    rep = V.Report("C13")
    rng = random.Random("C13-%d" % V.SEED)
    design(rep)
    pool(rep)
    if rep.violations:
        return rep.finish()
    V.log("pool done")
    gsrc = [os.path.join(V.REPO, "c/experimental/groups.cc")]
    defs = ['-DBDRV_EXTRA="harness/gops.h"', "-DBRUNSLI_EXPERIMENTAL_GROUPS"]
    exe = V.build("asan", name="gdrv", extra_src=gsrc, defs=defs)
    cases = groups_cases(rng, 260 if not V.THOROUGH else 4000)
    rep.count("groups_files", len(cases)); rep.sample({"ops": cases[0][1][1:6]})
    V.judge(rep, exe, "GroupsTrace", cases, mk, tries=4)
    V.log("groups done")
    if not rep.violations:
        tex = V.build("tsan", name="tdrv", extra_src=gsrc, defs=defs)
        cases = groups_cases(rng, 40 if not V.THOROUGH else 500, tsan=True)
        rep.count("groups_files_race_checked", len(cases))
        V.judge(rep, tex, "GroupsTrace", cases, mk, timeout=120, tries=4)
    return rep.finish()
