"""C20: the integrations (web server modules, Python library patches)."""
import json
import subprocess
from common import *

WEB = os.path.join(V.VERIF, "harness/web")
MODS = {"apache": "contrib/mod_brunsli/mod_brunsli.c", "nginx": "contrib/ngx_brunsli/src/ngx_http_brunsli_static_module.c"}
PY = os.path.join(V.REPO, "contrib/py")
TEXTS = {"brn": ["image/x-j"], "longer": ["image/x-jng", "image/x-j2", "image/x-jg", "image/x-j+xml", "image/x-j/a", "image/x-j.x"], "shorter": ["image/x-", "image/x", "image/", "i", "mage/x-j", "x-j", "j"],
         "pre": ["ximage/x-j", "application/image/x-j", "-image/x-j", "iimage/x-j", "image/image/x-j"], "other": ["image/webp", "text/html", "image/jpeg", "image/jxl", "image/*", "image/x-k", "image/y-j"], "star": ["*/*"], "none": [""],
         "upper": ["Image/X-J", "IMAGE/X-J", "image/X-j"]}
PTEXTS = {"": [""], "q1": [";q=1", ";q=0.8", ";q=1.000"], "odd": [";v=1", ";level=2;q=0.3", ";q=0.001"], "bare": [";", ";;"], "q0": [";q=0", ";q=0.0", ";q=0.000"], "names": [";p=image/x-j", ";image/x-j"]}


def header(rng, acc):
    s = ""
    for i, a in enumerate(acc):
        p = rng.choice(PTEXTS[a["p"]])
        if rng.random() < .3:
            p = p.replace(";", rng.choice(["; ", " ;", " ; "]))
        s += ("," + rng.choice(["", " "]) if i else "") + rng.choice(TEXTS[a["t"]]) + p
    return s


def compile_module(which):
    """(executable or None, the compiler's words)"""
    exe = os.path.join(V.workdir(), which)
    r = subprocess.run(["gcc", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + WEB, os.path.join(V.REPO, MODS[which]), os.path.join(WEB, which + "_driver.c"), "-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (exe, "") if r.returncode == 0 else (None, r.stdout[:500])


def serve(exe, root, lines):
    """One answer per line; a dead or stuck server answers crash and is started anew, six times at most."""
    res, at, deaths = [], 0, 0
    env = dict(os.environ); env.update(V.SAN_ENV)
    while at < len(lines) and deaths < 6:
        try:
            r = subprocess.run([exe, root], input="".join(lines[at:]), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120)
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, err, rc = (x.stdout or b"").decode(errors="replace"), "timeout", -1
        if rc in (8, 9):
            raise V.CheckError("server stand-in refuses: %d" % rc)
        got = []
        for l in out.split("\n"):
            if l.startswith("{\"begin"):
                got.append(None)
            elif l.startswith("{") and got:
                try:
                    got[-1] = json.loads(l)
                except ValueError:
                    got[-1] = {"garbled": 1}
        if got and got[-1] is None:
            deaths += 1
            why = [x for x in err.split("\n") if "ERROR" in x or "runtime error" in x]
            got[-1] = {"crash": (why or ["rc %d %s" % (rc, err[-100:])])[0][:200]}
        elif len(got) < len(lines) - at:
            raise V.CheckError("server stand-in stopped: rc=%d %s" % (rc, err[-500:]))
        res += got; at += len(got)
    return res


def docroot(rng):
    """root, {kind: content}"""
    root = os.path.join(V.workdir(), "root"); cont = {}
    kinds = ["reg", "empty", "link", "dir", "absent", "dangling", "fifo"]
    for k in kinds:
        os.makedirs(root + "/d_" + k)
        cont[k] = corpus.rand_bytes(rng, rng.randint(1, 300)) if k in ("reg", "link") else b""
        for base in (root + "/%s.jpg" % k, root + "/d_%s/" % k):
            p = base + ".j"
            if not base.endswith("/"):
                open(base, "wb").write(b"plain")
            if k in ("reg", "empty"):
                open(p, "wb").write(cont[k])
            elif k == "link":
                open(base + "t", "wb").write(cont[k]); os.symlink(base + "t", p)
            elif k == "dir":
                os.mkdir(p)
            elif k == "dangling":
                os.symlink(root + "/nothing", p)
            elif k == "fifo":
                os.mkfifo(p)
    return root, cont


def web(rep, rng, reqs):
    root, cont = docroot(rng)
    recs, words = [], {}
    for which in ("apache", "nginx"):
        exe, why = compile_module(which)
        if not exe:
            words[which] = why; continue
        rq = [r for r in reqs if r["kind"] == which]
        plain = [r for r in rq if r["acc"]]
        for _ in range(1500 if V.THOROUGH else 150):      # long headers
            r = dict(rng.choice(plain)); r["acc"] = [{"t": rng.choice(list(TEXTS)), "p": rng.choice(list(PTEXTS))} for _ in range(rng.randint(4, 60))]
            if rng.random() < .6:
                r["acc"] = [a for a in r["acc"] if a["t"] != "brn"] + ([{"t": "brn", "p": rng.choice(["", "q1", "bare"])}] if rng.random() < .5 else [])
            rq.append(r)
        if V.THOROUGH:
            rq = rq * 5
        lines, heads = [], []
        for r in rq:
            h = header(rng, r["acc"]); heads.append(h)
            x = "-" if not r["acc"] and rng.random() < .5 else "x" + h.encode().hex()
            if which == "apache":
                lines.append("/%s.jpg %d %s\n" % (r["file"], r["tr"], x))
            else:
                r.update(size=len(cont[r["file"]]), cont=cont[r["file"]].hex())
                uri = "/d_%s/" % r["file"] if r["slash"] else "/%s.jpg" % r["file"]
                fails = ["none", "map", "links", "open", "body", "etag", "send", "notmod", "out"]
                lines.append("%s %s %s %s %d %d %d %d %d %s\n" % (uri, r["outer"], r["inner"], r["meth"], r["sub"], r["vary"], fails.index(r["fail"]), r["oerr"], r["nomem"], x))
        out = serve(exe, root, lines)
        for i, e in enumerate(out):
            q = {k: v for k, v in rq[i].items() if k != "kind"}
            if which == "apache" and "file" in e:
                f = e["file"]; e["name"] = "j" if f == root + "/%s.jpg.j" % q["file"] else "plain" if f in ("", root + "/%s.jpg" % q["file"]) else "odd"
            ok = "rc" in e and "kept" in e
            ev = {"op": which if ok else "crash", "q": q, "e": e, "header": heads[i]}
            if i % 100 == 0:
                recs.append({"id": "%s%d" % (which, i), "ev": []})
            recs[-1]["ev"].append(ev)
            if ok:
                served = e["rc"] == 0 and e["type"] == "image/x-j"
                rep.count(which + ("_served" if served else "_not_served"), 1)
        rep.count(which + "_requests", len(out))
    return recs, words


def brns(rng, tools):
    """[(content class, path, content, jpeg)]"""
    res = []
    for i in range(24 if V.THOROUGH else 5):
        data, facts, s = corpus.make(rng, maxb=rng.choice([1, 4]))
        j = put("p%d.jpg" % i, data); b = os.path.join(V.workdir(), "p%d.%s" % (i, ["brn", "jxl", "jpg2"][i % 3]))
        if subprocess.run([tools["c"], j, b], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            raise V.CheckError("cbrunsli fails")
        brn = open(b, "rb").read()
        res.append(("good", b, brn, data)); res.append(("own", j, data, b""))
        for k, x in enumerate([brn[:len(brn) // 2], brn[:6], brn[:6] + b"\x00" * 20, brn + b"\x82"]):
            res.append(("broken", put("q%d_%d.jxl" % (i, k), x), x, b""))
        res.append(("own", put("q%d.jxl" % i, brn[:5]), brn[:5], b""))
        res.append(("own", put("r%d.jxl" % i, b"\x0a\x04\x42\xd2\xd5\x4f" + brn[6:]), b"\x0a\x04\x42\xd2\xd5\x4f" + brn[6:], b""))
        res.append(("own", put("t%d.txt" % i, b"text" + brn[:60]), b"text" + brn[:60], b""))
    res.append(("own", put("empty", b""), b"", b"")); res.append(("own", "/nonexistent/a.jpg", b"", b""))
    return res


def load(rep, rng):
    parts = [os.path.join(V.REPO, "c/tools/%s.cc" % t) for t in ("cbrunsli", "dbrunsli")]
    exes, missing = V.build_parts("plain", parts, name="tools")
    if missing:
        return [], {"python": str(missing)[:500]}
    w = os.path.join(V.workdir(), "py"); os.makedirs(w + "/tmp")
    conv = w + "/conv"
    with open(conv, "w") as f:
        f.write("#!/bin/sh\nprintf x >> %s/log\nexec %s \"$@\" > /dev/null 2>&1\n" % (w, exes[parts[1]]))
    os.chmod(conv, 0o755)
    fs = brns(rng, {"c": exes[parts[0]]})
    libs = ["cv2", "imageio", "PIL.Image", "PythonMagick"]
    recs, words = [], {}
    # (libraries imported before, how often patched again, converter there, debugging)
    runs = [(libs, 0, True, "0"), (libs, 2, True, "1"), ([], 0, False, "0"), (libs, 0, False, "0")] + [([x], 1, True, "0") for x in libs]
    for n, (ls, again, there, debug) in enumerate(runs):
        jobs, q = [], {}
        for lib in ls if there else []:
            for cls, path, cont, jpeg in fs if n < 2 else fs[:9]:
                text = cont or b"(none)" if path.startswith("/nonexistent") else cont
                if lib == "cv2":
                    forms = [("pos", []), ("pos", ["0"]), ("kw", ["0"]), ("kw", ["-1"])]
                elif lib == "imageio":
                    forms = [("", [])] + ([("", ["pilmode=L"])] if cls == "own" else [])
                elif lib == "PythonMagick":
                    forms = [("", []), ("", ["red"])]
                else:
                    forms = [("name", []), ("mem", []), ("file", [])]
                    if path.startswith("/nonexistent") or cont[:3] == b"\x0a\x04\x42" and cls == "own":
                        continue             # the library itself refuses
                for how, extra in forms:
                    for fails in [False, True]:
                        cid = "py%d_%d" % (n, len(jobs))
                        jobs.append([cid, lib, how, path, extra, fails])
                        q[cid] = {"lib": lib, "file": cls, "extra": extra, "fails": fails, "content": text.hex(), "jpeg": jpeg.hex(), "form": how}
        if n >= 4:
            jobs = jobs[:60]
        jf = w + "/jobs%d" % n
        json.dump({"libs": ls, "again": again, "jobs": jobs}, open(jf, "w"))
        env = dict(os.environ, BIN_JPEG_FROM_JXL=conv if there else w + "/no-such-converter", JXL_DEBUG=debug, PYTHONDONTWRITEBYTECODE="1")
        try:
            r = subprocess.run(["python3", WEB + "/load_driver.py", PY, WEB + "/standins", jf, w + "/tmp", w + "/log"], env=env, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
            out, err, rc = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, err, rc = (x.stdout or b"").decode(errors="replace"), "timeout", -1
        evs = []
        for l in out.split("\n"):
            if l.startswith("{\"op"):
                e = json.loads(l)
                evs.append(dict(e, converter=there) if e["op"] == "import" else {"op": "load", "q": q[e["id"]], "e": {k: e[k] for k in ("res", "left", "conv", "calls")}, "id": e["id"]})
        if rc or len(evs) != 1 + len(jobs):
            last = [x for x in err.split("\n") if x.strip()][-1:] or [""]
            if any(x in last[0] for x in ("ImportError", "ModuleNotFoundError", "AttributeError")) and any(x in last[0] for x in libs + ["PIL", "imageio.core"]):
                words["python"] = last[0][:300]; continue       # the stand-ins lack something
            evs.append({"op": "crash", "e": "%s %s" % (rc, last[0][:300])})
        for e in evs:
            if e["op"] == "load":
                rep.count("loads_" + e["q"]["file"], 1)
        for k in range(0, len(evs), 60):
            recs.append({"id": "py%d.%d" % (n, k), "ev": evs[k:k + 60]})
    return recs, words


def main():
    rep = V.Report("C20")
    rng = random.Random("C20-%d" % V.SEED)
    for cfg, good in (("ServeMC", 1), ("ServeOff", 1), ("ServeAlways", 1), ("ServeBad_none", 0), ("ServeBad_served", 0)):
        r = V.tlc("ServeMC", cfg=cfg + ".cfg"); rep.add({"states": r.distinct, "transitions": r.states})
        if bool(r.ok) != bool(good):
            raise V.CheckError("ServeMC with " + cfg)
    gen = os.path.join(V.workdir(), "requests.ndjson")
    V.tlc("ServeGen", env={"OUT": gen})
    reqs = sorted((json.loads(l) for l in open(gen)), key=lambda x: json.dumps(x, sort_keys=True))
    rep.count("requests_enumerated", len(reqs))
    recs, words = web(rep, rng, reqs)
    recs2, words2 = load(rep, rng)
    words.update(words2); recs += recs2
    if words:
        rep.cov["parts_left_out"] = words
    rep.sample(recs[0] and {"id": recs[0]["id"], "ev": recs[0]["ev"][:3]} if recs else {})
    if recs:
        stats, bad = V.validate("ServeTrace", recs, rep.prop)
        rep.add(stats)
        for r, l, why in bad:
            e = r["ev"][l] if l < len(r["ev"]) else {"op": "nothing"}
            rep.violation("%s: event #%d not allowed by Serve: %s" % (r["id"], l + 1, json.dumps(e)[:500]), {"event": e})
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
