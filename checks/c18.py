"""C18: the command line tools, run for real in scratch directories."""
import hashlib
import json
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from common import *

TOOLS = ["cbrunsli", "dbrunsli"]
WRAP = ["-Wl,--wrap=" + f for f in ("fopen", "fseek", "ftell", "fread", "fwrite", "fclose")]


def build_tools():
    """The four tools, each with the fault layer linked in."""
    out = os.path.join(V.workdir(), "tools")
    os.makedirs(out, exist_ok=True)
    flags = ["-std=c++11", "-w", "-I" + os.path.join(V.REPO, "c/include"), "-I" + V.REPO] + V.KINDS["asan"]
    jobs = [(s, "lib%d" % i, []) for i, s in enumerate(V.lib_sources())] + [(os.path.join(V.VERIF, "harness/toolio.cc"), "io", [])]
    g = ["-DBRUNSLI_EXPERIMENTAL_GROUPS"]
    jobs.append((os.path.join(V.REPO, "c/experimental/groups.cc"), "groups", g))
    for t in TOOLS:
        p = os.path.join(V.REPO, "c/tools/%s.cc" % t)
        jobs += [(p, t, []), (p, t + "-groups", g)]

    def one(j):
        return subprocess.run(["g++"] + flags + j[2] + ["-c", j[0], "-o", os.path.join(out, j[1] + ".o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def link(t):
        objs = [j[1] for j in jobs if j[1].startswith("lib") or j[1] == "io"] + [t] + (["groups"] if t.endswith("groups") else [])
        return subprocess.run(["g++"] + V.KINDS["asan"] + [os.path.join(out, o + ".o") for o in objs] + WRAP + ["-o", os.path.join(out, t)] + V.LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(9) as ex:
        res = list(zip([j[0] for j in jobs], ex.map(one, jobs)))
        bad = [(a, r) for a, r in res if r.returncode]
        if not bad:
            names = [t + s for t in TOOLS for s in ("", "-groups")]
            bad = [(a, r) for a, r in zip(names, ex.map(link, names)) if r.returncode]
    if bad:
        raise V.CheckError("building the tools failed: %s\n%s" % (bad[0][0], bad[0][1].stdout[-3000:]))
    os.chmod(V.workdir(), 0o755)
    os.chmod(out, 0o755)
    return out


def cid(data):
    return hashlib.sha1(data).hexdigest()[:12] if len(data) else "empty"


class Stuff:
    """Everything seen in a file, by identity."""
    def __init__(self):
        self.data = {}

    def add(self, data):
        i = cid(data)
        self.data.setdefault(i, data)
        return i


def inputs(exe, rng, n):
    """n sets of named input files."""
    def pick(i, fx):
        while True:
            f = {k: v for k, v in fx.items() if k != "rep"}
            d, facts, s = corpus.make(random.Random("C18-%d-%d-%r-%d" % (V.SEED, i, sorted(fx.items()), rng.randrange(1 << 30))), **f)
            if facts["rep"] == fx.get("rep", True):
                return d
    sets = []
    for i in range(n):
        f = {}
        f["jpg"] = pick(i, rng.choice([{"maxb": 6}, {"nc": 1, "w": 290, "h": 270, "samp": [(1, 1)]}, {"nc": 3, "w": 270, "h": 300, "samp": [(2, 2), (1, 1), (1, 1)], "kind": "sparse"}]))
        f["prog"] = pick(i, {"sof": 0xc2, "maxb": 6})
        f["tail"] = pick(i, {"tail": corpus.rand_bytes(rng, rng.choice([1, 5, 1000])), "maxb": 4})
        f["link"] = pick(i, {"maxb": 3})
        for k in ("noperm", "na me", "d/in", "-x"):
            f[k] = f["prog"]
        f["odd"] = rng.choice([b"\xff\xd8\xff\xd9", b"\xff\xd8", pick(i, {"maxb": 3})[:-3] + b"\x00\xff\xcf"])
        f["bad"] = corpus.rand_bytes(rng, rng.choice([3, 100, 5000]))
        f["cutjpg"] = f["prog"][:rng.randrange(2, len(f["prog"]) - 2)]
        f["one"] = rng.choice([b"\xff", b"\n", b"\0"])
        f["empty"] = b""
        f["long"] = corpus.rand_bytes(rng, 300000)
        f["ro"] = b"read only"
        sets.append(f)
    cases = []
    for i, f in enumerate(sets):
        j, r = put("t%d.jpg" % i, f["jpg"]), put("t%d.raw" % i, f["bad"])
        w = [put("t%d.%s" % (i, k), b"") for k in ("brn", "grp", "rbrn")]
        cases.append(("t%d" % i, ["load s " + j, "read s j A", "enc j b", "save b " + w[0], "genc j g 32 128 seq max any", "save g " + w[1], "load r " + r, "bypass r q", "save q " + w[2]]))
    V.drive(exe, cases)
    for i, f in enumerate(sets):
        p = os.path.join(V.workdir(), "files", "t%d." % i)
        b, g, q = [open(p + k, "rb").read() for k in ("brn", "grp", "rbrn")]
        f["brn"], f["grp"], f["raw"] = b, g, q
        f["cutbrn"] = b[:rng.randrange(1, len(b))]
        f["longbrn"] = b + b"x"
        x = bytearray(b); x[rng.randrange(6, len(x))] ^= 1 << rng.randrange(8)
        f["dmgbrn"] = bytes(x)
        f["nometa"] = rng.choice([g[:-1], q[:-1], b"\x0a\x04B\xd2\xd5N"])
    return sets


def prepare(d, f):
    os.mkdir(os.path.join(d, "d")); os.mkdir(os.path.join(d, "dir"))
    for k, v in f.items():
        with open(os.path.join(d, k), "wb") as h:
            h.write(v)
    os.rename(os.path.join(d, "link"), os.path.join(d, "target"))
    os.symlink("target", os.path.join(d, "link"))
    os.symlink("nothing", os.path.join(d, "dangle"))
    os.symlink("/dev/full", os.path.join(d, "full"))
    os.symlink("/dev/null", os.path.join(d, "nul"))
    with open(os.path.join(d, "huge"), "wb") as h:
        h.truncate(0x80000000)
    os.chmod(os.path.join(d, "noperm"), 0)
    os.chmod(os.path.join(d, "ro"), 0o444)
    for r, ds, fs in os.walk(d):
        os.chmod(r, 0o755); os.chown(r, 65534, 65534)
        for x in fs:
            if not os.path.islink(os.path.join(r, x)):
                os.chown(os.path.join(r, x), 65534, 65534)


def snap(d, stuff, asroot):
    """The nodes of the directory (special targets of links included)."""
    fs = {}
    for r, ds, files in os.walk(d):
        for x in ds:
            fs[os.path.relpath(os.path.join(r, x), d)] = {"k": "dir", "c": "", "r": False, "w": False}
        for x in files:
            p = os.path.join(r, x); n = os.path.relpath(p, d)
            if os.path.islink(p):
                t = os.readlink(p)
                if t.startswith("/dev/"):
                    fs[t] = {"k": "other", "c": "", "r": False, "w": False}
                continue
            st = os.stat(p)
            if st.st_size > 1 << 28:
                fs[n] = {"k": "other", "c": "huge%d" % st.st_size, "r": False, "w": True}
                continue
            m = st.st_mode
            fs[n] = {"k": "file", "c": stuff.add(open(p, "rb").read()), "r": asroot or bool(m & 0o400), "w": asroot or bool(m & 0o200)}
    return fs


def node(d, name):
    """Where opening a name for writing leads; "" when nothing can be there."""
    if name == "" or len(name) > 255 or name.startswith("nodir/"):
        return ""
    p = os.path.join(d, name)
    if os.path.islink(p):
        return os.readlink(p)
    return name


def history(tools, case, f, stuff, asroot):
    d = tempfile.mkdtemp(prefix="tool.", dir=V.workdir())
    try:
        prepare(d, f)
        ev = []
        for run in case:
            args = ["o" * 300 if a == "TOOLONG" else a for a in run["args"]]
            before = snap(d, stuff, asroot) if not ev else ev[-1]["after"]
            env = dict(os.environ); env.update(V.SAN_ENV)
            env["ASAN_OPTIONS"] += ":max_allocation_size_mb=3000"
            hard = 0
            rd, wr = os.pipe()
            fl = run["f"]
            if fl.startswith("fsize:"):
                k = fl[6:]
                ref = len(f["jpg"] if run["t"].startswith("d") else f["brn"])
                lim = {"HALF": ref // 2, "LAST": ref - 1, "ALL": ref}.get(k)
                env["TOOL_FSIZE"] = str(int(k) if lim is None else lim)
            elif fl:
                env["TOOL_FAULT"] = fl
            env["TOOL_LOG"] = str(wr)
            if not asroot:
                env["TOOL_NOBODY"] = "1"
            try:
                p = subprocess.run([os.path.join(tools, run["t"])] + args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=[wr], timeout=60)
                rc, err = p.returncode, p.stdout + p.stderr
            except subprocess.TimeoutExpired:
                rc, err = -99, b"timeout"
            os.close(wr)
            hard = len(os.read(rd, 10)) if fl and not fl.startswith("fsize") else 0
            os.close(rd)
            if rc == 97:
                return None
            out = node(d, args[1] if len(args) > 1 else (args[0] if args else "") + (".brn" if run["t"].startswith("c") else ".jpg"))
            after = snap(d, stuff, asroot)
            if fl.startswith("fsize"):
                # the limit was hit unless the result is within it
                lim = int(env["TOOL_FSIZE"])
                hard = 0 if out in after and after[out]["k"] == "file" and rc == 0 else 1
                if lim > 200000:
                    hard = 0
            names = {a: node(d, a) for a in args}
            o = args[0] + (".brn" if run["t"].startswith("c") else ".jpg") if len(args) == 1 else None
            if o is not None:
                names[o] = node(d, o)
            ev.append({"tool": run["t"], "args": args, "alias": names or {"": ""}, "sealed": False, "before": before, "after": after, "faults": hard,
                       "crash": rc < 0 or rc in (66, 67, 68, 98), "exit": rc, "msg": len(err.strip()) > 0, "err": err.decode("latin1")[-300:], "f": fl})
        return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def classify(exe, stuff, rng):
    """What each content is, by the library's own account."""
    todo = [i for i in stuff.data if i not in CONTS]
    path = {i: put("c-" + i, stuff.data[i]) for i in todo}
    ok = {i: {} for i in todo}

    def step(cases):
        for k, ev in V.drive(exe, cases).items():
            for x in ev:
                ok[k[2:]][k[0] + x["op"]] = x.get("ok", False)
    f = lambda i, k: os.path.join(V.workdir(), "files", "c-%s.%s" % (i, k))
    step([("R-" + i, ["load s " + path[i], "read s j A"]) for i in todo] +
         [("D-" + i, ["load s " + path[i], "dec s k", "write k o", "save o " + f(i, "d")]) for i in todo] +
         [("G-" + i, ["load s " + path[i], "gdec s k 32 128 seq any", "write k o", "save o " + f(i, "g")]) for i in todo])
    step([(k + "-" + i, ["load s " + path[i], "read s j A", o]) for i in todo if ok[i].get("Rread") for k, o in (("E", "enc j b"), ("F", "genc j g 32 128 seq max any"))])
    for i in todo:
        c = {"size": len(stuff.data[i]), "rep": ok[i].get("Eenc", False), "grep": ok[i].get("Fgenc", False), "dec": "", "gdec": ""}
        if ok[i].get("Ddec") and ok[i].get("Dwrite"):
            c["dec"] = cid(open(f(i, "d"), "rb").read())
        if ok[i].get("Ggdec") and ok[i].get("Gwrite"):
            c["gdec"] = cid(open(f(i, "g"), "rb").read())
        CONTS[i] = c
    return CONTS


CONTS = {}


def main():
    rep = V.Report("C18")
    rng = random.Random("C18-%d" % V.SEED)
    r = V.tlc("ToolsMC"); rep.add({"states": r.distinct, "transitions": r.states})
    if not r.ok:
        raise V.CheckError("the tool design fails: " + r.out[-2000:])
    for v in ("short", "close"):
        if V.tlc("ToolsMC", cfg="ToolsBad_%s.cfg" % v, keep_out=True).ok:
            raise V.CheckError("broken variant %s passes" % v)
    gen = os.path.join(V.workdir(), "tools.ndjson")
    r = V.tlc("ToolsGen", env={"OUT": gen})
    allc = [json.loads(l)["s"] for l in open(gen)]
    rep.count("enumerated_histories", len(allc))
    tools = build_tools()
    exe = V.build("plain", name="gdrv", extra_src=[os.path.join(V.REPO, "c/experimental/groups.cc")], defs=['-DBDRV_EXTRA="harness/gops.h"', "-DBRUNSLI_EXPERIMENTAL_GROUPS"])
    allc.sort(key=json.dumps)
    if not V.THOROUGH:
        one = [c for c in allc if len(c) == 1 and not c[0]["f"]]
        fl = [c for c in allc if len(c) == 1 and c[0]["f"]]
        rest = [c for c in allc if len(c) > 1]
        pick = rng.sample(one, min(len(one), 1100)) + rng.sample(fl, min(len(fl), 900)) + rng.sample(rest, 500)
    else:
        pick = allc * 3
    sets = inputs(exe, rng, 12 if not V.THOROUGH else 150)
    V.log("ready", len(pick))
    stuff = Stuff()
    jobs = []
    for q, c in enumerate(pick):
        asroot = rng.random() < .3
        jobs.append((c, sets[q % len(sets)], asroot))

    def go(j):
        return history(tools, j[0], j[1], stuff, j[2])
    with ThreadPoolExecutor(8) as ex:
        evs = list(ex.map(go, jobs))
    V.log("executed")
    conts = classify(exe, stuff, rng)
    recs, skipped = [], 0
    for q, (j, ev) in enumerate(zip(jobs, evs)):
        if ev is None:
            skipped += 1; continue
        used = {n["c"] for e in ev for fs in (e["before"], e["after"]) for n in fs.values() if n["c"] in conts}
        c = {i: conts[i] for i in used}
        for i in list(c):
            for k in ("dec", "gdec"):
                if c[i][k] and c[i][k] not in c:
                    c.setdefault(c[i][k], {"size": 1, "rep": False, "grep": False, "dec": "", "gdec": ""})
        recs.append({"id": str(q), "conts": c, "ev": ev})
    rep.count("tool_runs", sum(len(r["ev"]) for r in recs)); rep.count("unprivileged_runs_skipped", skipped)
    rep.count("faults_delivered", sum(e["faults"] for r in recs for e in r["ev"]))
    rep.count("successful_runs", sum(e["exit"] == 0 for r in recs for e in r["ev"]))
    e0 = recs[0]["ev"][0]
    rep.sample({k: e0[k] for k in ("tool", "args", "f", "exit", "err", "before", "after")})
    if not recs:
        raise V.CheckError("no tool run was possible")
    stats, bad = V.validate("ToolsTrace", recs, "C18")
    rep.add(stats)
    for r0, idx, why in bad:
        q = int(r0["id"])
        ev2 = history(tools, jobs[q][0], jobs[q][1], stuff, jobs[q][2])
        conts = classify(exe, stuff, rng)
        s2, b2 = V.validate("ToolsTrace", [{"id": "again", "conts": conts, "ev": ev2}], "C18", max_bad=1)
        if not b2:
            V.log("rejection of", q, "did not repeat; ignored"); continue
        e = r0["ev"][min(idx, len(r0["ev"]) - 1)]
        d = os.path.join(V.workdir(), "replay%d" % q); os.makedirs(d, exist_ok=True)
        names = []
        for a in e["args"]:
            n = e["before"].get(e["alias"].get(a, a))
            if n and n["c"] in stuff.data:
                names.append(os.path.join(d, "arg-" + n["c"])); open(names[-1], "wb").write(stuff.data[n["c"]])
        rep.violation("%s %s (fault %r): exit %d, message %r: not allowed by Tools" % (e["tool"], e["args"], e["f"], e["exit"], e["err"][-200:]),
                      {"case": jobs[q][0], "asroot": jobs[q][2], "run": e, "conts": {k: v for k, v in r0["conts"].items()}}, names)
    return rep.finish()
