"""C19: the bindings (web assembly exports, Java native methods, Java class)."""
import concurrent.futures
import glob
import json
import shutil
import subprocess
import brn
from common import *

N = 900 if V.THOROUGH else 90
V.KINDS["low"] = ["-O1", "-DNDEBUG", "-g1", "-fno-pie", "-no-pie", "-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-fpermissive"]
V.KINDS["so"] = ["-O1", "-DNDEBUG", "-fPIC", "-shared"]
JAVA = os.path.join(V.REPO, "java/dev/brunsli/wrapper/")


def jni_dirs():
    j = os.path.realpath(shutil.which("javac"))
    for d in [os.path.dirname(os.path.dirname(j))] + sorted(glob.glob("/usr/lib/jvm/*")):
        if os.path.exists(d + "/include/jni.h"):
            return ["-I" + d + "/include", "-I" + d + "/include/linux"]
    raise V.CheckError("no jni.h")


def shapes(rng, i):
    fx = {"maxb": rng.choice([1, 2, 6])}
    if i % 9 == 0:           # larger than one buffer of an instance
        fx["tail"] = corpus.rand_bytes(rng, rng.choice([65000, 65536, 70000, 131072, 150000]))
    elif i % 9 == 1:
        fx.update(maxb=16, w=rng.randint(100, 160), h=rng.randint(100, 200), nc=3, samp=[(1, 1)] * 3, kind=rng.choice(["large", "dense"]))
    elif i % 9 == 2:
        fx.update(metas=["bigapp", "com"])
    return fx


def inputs(rng):
    """[(id, ops which load a file s and make streams)]"""
    res = []
    for i, (cid, path, data, facts, desc) in enumerate(files(N, "C19-%d" % V.SEED, shapes)):
        if i % 11 == 10:
            data = data[:rng.randrange(len(data))]; path = put(cid + "x.jpg", data)
        res.append((cid, path, ["load s " + path, "api enc s b"]))
    for i in range(max(12, N // 6)):
        n = (0, 1, 6, 17, 100, 600, 65499, 65500, 65501, 65536, 131072, 200000)[i % 12]
        d = corpus.rand_bytes(rng, n) if i % 3 else bytes(n)
        p = put("raw%d" % i, d)
        res.append(("raw%d" % i, p, ["load s " + p, "api enc s t", "bypass s b"]))
    return res


def derived(rng, i):
    ops = ["trunc b c %d" % rng.choice([0, 1, 5, 6, 30, 100, 1000, 65536]), "cut b e %d" % rng.choice([1, 1, 2, 5, 50]), "append b g " + rng.choice(["00", "82", "0a04"]), "flip b h %d 0x%x" % (rng.randrange(1 << 20), 1 << rng.randrange(8)),
           "flip b i %d 0x%x" % (6 + rng.randrange(60), 1 << rng.randrange(8)),
           "drop b j 2", "drop b m %d" % rng.randint(2, 7)]
    return ops, "ceghijm"


def keep(ev):
    return [e for e in ev if e["op"] in ("api", "conv", "init", "proc", "free", "null", "crash", "end")]


def java_events(rep, so, jobs, threads):
    """jobs: [(case, dir, form, path)]; {case: [events]} and the fate of the machine."""
    w = os.path.join(V.workdir(), "java"); os.makedirs(w + "/cls", exist_ok=True)
    if not os.path.exists(w + "/cls/GlueDriver.class"):
        r = subprocess.run(["javac", "-nowarn", "-d", w + "/cls", JAVA + "Codec.java", JAVA + "CodecJNI.java", V.VERIF + "/harness/GlueDriver.java"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise V.CheckError("javac: " + r.stdout[-2000:])
    with open(w + "/jobs", "w") as f:
        f.write("".join("%s %s %s %s\n" % j for j in jobs))
    try:
        r = subprocess.run(["java", "-Xmx2g", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-cp", w + "/cls", "GlueDriver", so, w + "/jobs", w + "/out", str(threads)], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200 if V.THOROUGH else 240)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = "timeout", str(x.stdout or "")
    ev = {}
    for l in open(w + "/out", errors="replace") if os.path.exists(w + "/out") else []:
        if l.endswith("\n"):
            e = json.loads(l); ev.setdefault(e["case"], []).append(e)
    lost = rc != 0 or sum(map(len, ev.values())) != len(jobs)
    return ev, ("%s %s" % (rc, " ".join(x for x in out.split("\n") if x.strip() and not x.startswith("\tat"))[:300]) if lost else "")


def main():
    rep = V.Report("C19")
    rng = random.Random("C19-%d" % V.SEED)
    r = V.tlc("GlueMC"); rep.add({"states": r.distinct, "transitions": r.states})
    if not r.ok:
        raise V.CheckError("GlueMC fails")
    if V.tlc("GlueMC", cfg="GlueBad.cfg").ok:
        raise V.CheckError("GlueMC does not notice a decoder which leaves input")
    x = lambda h: ['-DBDRV_EXTRA="%s/harness/glue.h"' % V.VERIF, h]
    jd = jni_dirs()
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(V.build, "low", "wasm", ("harness/bdrv.cc",), (os.path.join(V.REPO, "wasm/codec.cc"),), x("-DGLUE_WASM"))
        f2 = ex.submit(V.build, "asan", "jni", ("harness/bdrv.cc",), (JAVA + "codec_jni.cc",), x("-DGLUE_JNI") + jd)
        f3 = ex.submit(V.build, "so", "libglue.so", (), (JAVA + "codec_jni.cc", JAVA + "codec_jni_onload.cc"), jd)
        low, jni, so = f1.result(), f2.result(), f3.result()
    cases, jcases, jobs = [], [], []
    fd = os.path.join(V.workdir(), "files")
    for i, (cid, path, pre) in enumerate(inputs(rng)):
        if "api enc s b" in pre:
            pre = ["load s " + path, "api enc s b b"]
        dv, names = derived(rng, i)
        ops = pre + dv + ["api dec b"] + ["api dec " + n for n in names] + ["null", "api dec s"]
        cases.append((cid, ops + ["wasm enc s", "wasm dec b", "wasm dec s"] + ["wasm dec " + n for n in names] + ["proto %d %d %d b b b %s s" % (rng.randrange(1 << 30), rng.choice([1, 2, 4]), 10 if V.THOROUGH else 6, " ".join(names)),
                                                                                              "proto %d 2 3 b" % rng.randrange(1 << 30)]))
        hows = ["noaddr", "nocap", "nomem"]
        jcases.append((cid, pre + dv + ["api dec b", "api dec s"] + ["api dec " + n for n in names] + ["jni enc s", "jni dec b", "jni dec s"] + ["jni dec " + n for n in names] + ["jni enc s " + h for h in hows] + ["jni dec b " + h for h in hows]
                       + ["save %s %s/%s.%s" % (n, fd, cid, n) for n in "b" + names]))
        for form in ["bytes", "direct", "slice", "ro", "heap"]:
            jobs.append((cid, "enc", form, path)); jobs.append((cid, "dec", form, "%s/%s.b" % (fd, cid)))
        for n in names:
            jobs.append((cid, "dec", rng.choice(["bytes", "direct", "slice"]), "%s/%s.%s" % (fd, cid, n)))
        if i < 3:
            jobs += [(cid, d, "null", path) for d in ("enc", "dec")]
    ops0 = dict(cases)
    lowenv = V.drive(low, cases, timeout=60)
    jenv = V.drive(jni, jcases, timeout=60)
    jev, fate = java_events(rep, so, jobs, 6)
    if fate:
        fate2 = fate if fate.startswith("timeout") else java_events(rep, so, jobs, 1)[1]
        if fate2:
            rep.violation("the Java virtual machine with the library did not get to the end: " + fate2, {"jobs": jobs[:5]})
    recs = [{"id": "w" + c, "ev": keep(lowenv[c])} for c, o in cases] + [{"id": "j" + c, "ev": keep(jenv[c])[:-1] + jev.get(c, []) + keep(jenv[c])[-1:]} for c, o in jcases]
    # pointers handed over to the wrong releaser, results never released: a sample under memcheck
    mem = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--leak-check=full", "--errors-for-leak-kinds=definite", "--child-silent-after-fork=no"]
    small = [(c, o) for c, o in cases if os.path.getsize(o[0].split()[2]) < 3000][:64 if V.THOROUGH else 12]
    small += [next(x for x in cases if 140000 < os.path.getsize(x[1][0].split()[2]))]      # more than an instance's buffers hold
    menv = V.drive(low, small, timeout=400, wrapper=mem)
    recs += [{"id": "m" + c, "ev": keep(menv[c])} for c, o in small]
    for r in recs:
        for e in r["ev"]:
            rep.count("ev_" + e["op"] + ("_" + e["route"] if e["op"] == "conv" else ""), 1)
    rep.count("conversions_ok", sum(e.get("res") == "ok" for r in recs for e in r["ev"]))
    rep.count("instances_done", sum(e.get("code") == 1 for r in recs for e in r["ev"]))
    rep.sample({"id": recs[0]["id"], "ev": recs[0]["ev"][:6]})
    stats, bad = V.validate("GlueTrace", recs, rep.prop)
    rep.add(stats)
    for r, l, why in bad:
        e = r["ev"][l] if l < len(r["ev"]) else {"op": "nothing"}
        rep.violation("case %s: event #%d not allowed by Glue: %s" % (r["id"], l + 1, json.dumps(e)[:500]), {"ops": ops0.get(r["id"][1:]), "events": r["ev"][max(0, l - 30):l + 1]}, [ops0[r["id"][1:]][0].split()[2]])
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
