"""load_driver.py REPO_PY STANDINS JOBS TEMP LOG: imports the patches after stand-ins for the libraries and reads files.
A job: [id, library, how, path, extra arguments, reader raises]; prints a JSON line each."""
import binascii
import importlib
import io
import json
import os
import sys
import tempfile

sys.dont_write_bytecode = True
repo, standins, jobs, tmp, log = sys.argv[1:6]
sys.path[:0] = [standins, repo]
tempfile.tempdir = tmp
import standin_log
jobs = json.load(open(jobs))
libs = jobs["libs"]
sys.modules["blocked_by_none"] = None       # the usual way of blocking an import
for l in libs:
    __import__(l)


def emit(x):
    sys.stdout.write(json.dumps(x) + "\n"); sys.stdout.flush()


try:
    import jxl_library_patches
    for _ in range(jobs.get("again", 0)):
        importlib.reload(jxl_library_patches)
    emit({"op": "import", "res": "ok"})
except SystemExit:
    emit({"op": "import", "res": "exit"}); sys.exit(0)


def size(p):
    return os.path.getsize(p) if os.path.exists(p) else 0


def raw(p):
    with open(p, "rb") as f:
        return binascii.hexlify(f.read()).decode()


for cid, lib, how, path, extra, fails in jobs["jobs"]:
    standin_log.calls[:] = []; standin_log.fails = fails
    before = size(log)
    emit({"begin": cid})
    m = sys.modules[lib]
    try:
        if lib == "cv2":
            r = m.imread(path) if not extra else m.imread(path, int(extra[0])) if how == "pos" else m.imread(path, flags=int(extra[0]))
        elif lib == "imageio":
            r = m.imread(path, **dict(x.split("=") for x in extra))
        elif lib == "PythonMagick":
            r = m.Image(path, *extra)
        else:
            r = m.open(path) if how == "name" else m.open(io.BytesIO(open(path, "rb").read())) if how == "mem" else m.open(open(path, "rb"))
        res = "image" if r is not None else "nothing"
        if lib == "PIL.Image" and r.tile != [("jpeg", 0)]:
            res = "no tile"
        if lib == "PIL.Image":
            seen = r.fp; seen.seek(0); standin_log.calls[:] = [{"content": binascii.hexlify(seen.read()).decode(), "name": "mem", "extra": []}]
    except standin_log.Raised:
        res = "raised"
    except RuntimeError:
        res = "runtime"
    except Exception as x:
        res = "%s: %s" % (type(x).__name__, str(x)[:80])
    emit({"op": "load", "id": cid, "res": res, "left": len(os.listdir(tmp)), "conv": size(log) - before,
          "calls": [{"content": x["content"], "own": x["content"] == raw(path) if lib == "PIL.Image" else x["name"] == path, "extra": x["extra"]} for x in standin_log.calls]})
    for f in os.listdir(tmp):
        if os.path.isfile(os.path.join(tmp, f)):
            os.unlink(os.path.join(tmp, f))
