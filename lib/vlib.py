"""Shared machinery: building the driver from /repo's tree, running scripted
histories, and having TLC decide whether they are behaviours of the spec."""
import atexit
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BRUNSLI_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()

_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="bverif.", dir=os.environ.get("TMPDIR", "/tmp"))
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


# --------------------------------------------------------------------- build
KINDS = {
    # -fno-sanitize=... : see DESIGN.md (sanitizer scope)
    "asan": ["-O1", "-DNDEBUG", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "plain": ["-O2", "-DNDEBUG"],
    "tsan": ["-O1", "-DNDEBUG", "-g1", "-fsanitize=thread"],
}
LIBS = ["-lbrotlienc", "-lbrotlidec", "-lbrotlicommon", "-lm", "-lpthread"]


def lib_sources(extra=()):
    r = []
    for d in ("c/common", "c/dec", "c/enc"):
        r += sorted(glob.glob(os.path.join(REPO, d, "*.cc")))
    return r + list(extra)


def build(kind, name="bdrv", mains=("harness/bdrv.cc",), extra_src=(), defs=(), std="c++11"):
    """Compiles /repo's library sources together with a harness."""
    out = os.path.join(workdir(), "%s-%s" % (name, kind))
    os.makedirs(out, exist_ok=True)
    flags = ["-std=" + std, "-w", "-I" + os.path.join(REPO, "c/include"), "-I" + REPO, "-I" + VERIF] + KINDS[kind] + list(defs)
    srcs = lib_sources(extra_src) + [os.path.join(VERIF, m) for m in mains]

    def one(i_s):
        i, s = i_s
        o = os.path.join(out, "%d.o" % i)
        r = subprocess.run(["g++"] + flags + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, s, r
    order = sorted(enumerate(srcs), key=lambda x: -os.path.getsize(x[1]))
    with ThreadPoolExecutor(9) as ex:
        res = list(ex.map(one, order))
    bad = [(s, r) for o, s, r in res if r.returncode]
    if bad:
        raise CheckError("compilation failed: %s\n%s" % (bad[0][0], bad[0][1].stdout[-3000:]))
    exe = os.path.join(out, name)
    r = subprocess.run(["g++"] + KINDS[kind] + [o for o, s, q in res] + ["-o", exe] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-3000:])
    log("built", name, kind)
    return exe


def build_parts(kind, mains, name="part", defs=(), std="c++11"):
    """The library once, then one executable per harness file.  Harnesses use
    internals, so one that no longer compiles or links is left out: returns
    {main: executable or None} and the compiler's words."""
    out = os.path.join(workdir(), "%s-%s" % (name, kind))
    os.makedirs(out, exist_ok=True)
    flags = ["-std=" + std, "-w", "-I" + os.path.join(REPO, "c/include"), "-I" + REPO, "-I" + VERIF] + KINDS[kind] + list(defs)

    def one(i_s):
        i, s = i_s
        o = os.path.join(out, "%d.o" % i)
        return o, s, subprocess.run(["g++"] + flags + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    srcs = lib_sources() + [os.path.join(VERIF, m) for m in mains]
    with ThreadPoolExecutor(9) as ex:
        res = list(ex.map(one, sorted(enumerate(srcs), key=lambda x: -os.path.getsize(x[1]))))
    byname = {s: (o, r) for o, s, r in res}
    bad = [(s, r) for o, s, r in res if r.returncode and s in lib_sources()]
    if bad:
        raise CheckError("compilation failed: %s\n%s" % (bad[0][0], bad[0][1].stdout[-3000:]))
    lib = [byname[s][0] for s in lib_sources()]

    def link(m):
        o, r = byname[os.path.join(VERIF, m)]
        if r.returncode:
            return m, None, r.stdout[:500]
        exe = os.path.join(out, os.path.basename(m).rsplit(".", 1)[0])
        r = subprocess.run(["g++"] + KINDS[kind] + [o] + lib + ["-o", exe] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return m, (exe if r.returncode == 0 else None), r.stdout[:500]
    with ThreadPoolExecutor(9) as ex:
        ls = list(ex.map(link, mains))
    log("built", name, kind)
    return {m: e for m, e, t in ls}, {m: t for m, e, t in ls if not e}


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=6000:detect_odr_violation=0",
           "UBSAN_OPTIONS": "halt_on_error=1:exitcode=67:print_stacktrace=0",
           "TSAN_OPTIONS": "halt_on_error=1:exitcode=68:report_signal_unsafe=0"}


def drive(exe, cases, timeout=60, jobs=8, wrapper=()):
    """cases: list of (id, [op lines]).  Returns {id: [events]}."""
    w = workdir()
    n = len(os.listdir(w))
    sp, op = os.path.join(w, "s%d.txt" % n), os.path.join(w, "s%d.out" % n)
    with open(sp, "w") as f:
        for cid, ops in cases:
            f.write("case %s\n%s\nend\n" % (cid, "\n".join(ops)))
    env = dict(os.environ); env.update(SAN_ENV)
    r = subprocess.run(list(wrapper) + [exe, sp, op, str(timeout), str(jobs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("driver failed rc=%d %s" % (r.returncode, r.stdout[-2000:]))
    res = {cid: [] for cid, _ in cases}
    with open(op, errors="replace") as f:
        for line in f:
            e = json.loads(line)
            res[e["case"]].append(e)
    os.unlink(op); os.unlink(sp)
    return res


# ----------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg=None, env=None, timeout=600, workers=8, extra=(), heap="6g", keep_out=False, deadlock=None):
    """Runs TLC; returns a result with .ok, .states, .distinct, .out, .trace"""
    w = workdir()
    meta = tempfile.mkdtemp(prefix="tlc.", dir=w)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=%d" % timeout,
           "-cp", TLA_JAR + ":" + ":".join(glob.glob(os.path.join(os.path.dirname(TLA_JAR), "*.jar"))),
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg"] + list(extra) + [module]
    e = dict(os.environ); e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", p.stdout)
    r.states, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.deadlock = "Deadlock reached" in p.stdout
    r.violated = re.findall(r"(?:Invariant|Action property|Temporal properties|property) (\w+)? ?(?:is|was|were) violated", p.stdout)
    r.ok = p.returncode == 0 and "No error has been found" in p.stdout
    if r.ok and r.wall >= timeout:
        raise CheckError("TLC ran out of time on " + module)
    if not r.ok and not r.deadlock and not ("is violated" in p.stdout or "was violated" in p.stdout or "were violated" in p.stdout):
        if not keep_out:
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, p.stdout[-4000:]))
    return r


def last_state(out):
    """The last state of a TLC error trace as {var: text}."""
    i = out.rfind("\nState ")
    if i < 0:
        return {}
    blk = out[i:].split("\n\n")[0]
    d = {}
    for m in re.finditer(r"/\\ (\w+) = (.*?)(?=\n/\\ |\Z)", blk, re.S):
        d[m.group(1)] = m.group(2).strip()
    return d


def validate(module, cases, prop, timeout=600, max_bad=3, cfg=None, chunk=None, env=None):
    """cases: list of dicts with 'id', 'ev', and whatever the trace module wants.
    Returns (stats, bad) where bad = list of (case, index of rejected event)."""
    stats = {"states": 0, "transitions": 0, "validated": 0, "wall": 0.0}
    bad = []
    todo = list(cases)
    w = workdir()
    n = 0
    while todo:
        n += 1
        path = os.path.join(w, "trace-%s-%d-%d.ndjson" % (module, os.getpid(), n))
        with open(path, "w") as f:
            for c in todo:
                f.write(json.dumps(c) + "\n")
        e = dict(env or {}); e["TRACE"] = path
        r = tlc(module, cfg=cfg, env=e, timeout=timeout)
        os.unlink(path)
        stats["wall"] += r.wall
        if r.ok:
            stats["states"] += r.distinct
            stats["transitions"] += r.states
            stats["validated"] += len(todo)
            break
        st = last_state(r.out)
        try:
            ci = int(st["c"]); l = int(st["l"])
        except (KeyError, ValueError):
            raise CheckError("cannot locate the rejected case:\n" + r.out[-3000:])
        case = todo[ci - 1]
        why = "deadlock" if r.deadlock else "invariant"
        bad.append((case, l - 1, why))
        todo = todo[:ci - 1] + todo[ci:]
        if len(bad) >= max_bad:
            break
    return stats, bad


# ----------------------------------------------------------------- reporting
def known_findings():
    """Entries of known_findings.json: list of dicts with property, match."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Report:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.known = []

    def add(self, stats):
        self.cov["states"] += stats.get("states", 0)
        self.cov["transitions"] += stats.get("transitions", 0)
        self.cov["traces_validated_against_impl"] += stats.get("validated", 0)

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def count(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, desc, payload, files=()):
        n = len(self.violations) + 1
        d = os.path.join(VERIF, "evidence", "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%d.json" % n)
        copies = []
        for f in files:
            if os.path.exists(f):
                q = os.path.join(d, "%d-%s" % (n, os.path.basename(f)))
                shutil.copy(f, q); copies.append(q)
        json.dump({"property": self.prop, "description": desc, "files": copies, "detail": payload}, open(path, "w"), indent=1, default=str)
        self.violations.append((desc, path))

    def finish(self):
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for desc, path in self.violations:
            print("  " + desc.replace("\n", " ")[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0


def judge(rep, exe, module, cases, mk, timeout=60, tlc_timeout=600, describe=None, max_bad=3, cfg=None, env=None, tries=1):
    """cases: list of (id, ops, meta).  mk(id, meta, events) -> record for the
    trace module (must contain id, ev).  Executes, validates, re-executes what
    was rejected, and reports only rejections that repeat."""
    ev = drive(exe, [(c[0], c[1]) for c in cases], timeout=timeout)
    by = {c[0]: c for c in cases}
    recs = [mk(c[0], c[2], ev[c[0]]) for c in cases]
    stats, bad = validate(module, recs, rep.prop, timeout=tlc_timeout, max_bad=max_bad, cfg=cfg, env=env)
    rep.add(stats)
    rep.count("events", sum(len(v) for v in ev.values()))
    for rec, idx, why in bad:
        c = by[rec["id"]]
        for _ in range(tries):
            ev2 = drive(exe, [(c[0], c[1])], timeout=timeout * 2)
            s2, bad2 = validate(module, [mk(c[0], c[2], ev2[c[0]])], rep.prop, timeout=tlc_timeout, max_bad=1, cfg=cfg, env=env)
            if bad2:
                break
        if not bad2 and tries > 1 and not any(e.get("why") == "timeout" for e in rec["ev"]):
            bad2 = [(rec, idx, why)]       # depends on the schedule: the recorded history stands
        if not bad2:
            log("rejection of", c[0], "did not repeat; ignored")
            continue
        rec, idx, why = bad2[0]
        e = rec["ev"][idx] if idx < len(rec["ev"]) else {"op": "<truncated history>"}
        files = [t.split()[2] for t in c[1] if t.startswith("load ")]
        rep.violation("case %s: call #%d not allowed by %s: %s" % (c[0], idx + 1, module, json.dumps(e)[:600]),
                      {"ops": c[1], "events": rec["ev"][:60], "rejected": e, "meta": str(c[2])[:4000]}, files)
    return stats
