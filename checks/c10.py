"""C10: metadata, both directions, judged by Metadata.tla."""
import json
from common import *

GOLD = os.path.join(V.VERIF, "golden", "e2.bin")
E2 = open(GOLD, "rb").read()


def abstract(seg):
    if len(seg) == len(E2) and seg[:84] == E2[:84] and seg[85:] == E2[85:]:
        return [-1, seg[84]]
    return list(seg)


def concrete(a):
    return E2[:84] + bytes([a[1]]) + E2[85:] if a[0] == -1 else bytes(a)


def as_meta(seg):
    """Whole segment bytes -> script item."""
    return ("com", seg[3:]) if seg[0] == 0xfe else ("app", seg[0] & 15, seg[3:])


def file_with(rng, segs, tail, extra=None, spread=True):
    """A small file with the given segments (bytes from the code on)."""
    for _ in range(50):
        s = corpus.random_script(rng, nc=1, samp=[(1, 1)], w=8, h=8, sof=rng.choice([0xc0, 0xc2]), metas=[as_meta(x) for x in segs], tail=tail, extra=extra, ri=0)
        items = s["segs"]
        if spread and rng.random() < .6:       # scatter them between the other segments, order kept
            ms = [x for x in items if x[0] in ("app", "com")]
            rest = [x for x in items if x[0] not in ("app", "com")]
            for m in ms:
                pass
            pos = sorted(rng.randint(0, len([x for x in rest if x[0] != "tail"]) - 1) for _ in ms)
            out = []
            for i, x in enumerate(rest):
                while pos and pos[0] <= i:
                    out.append(ms.pop(0)); pos.pop(0)
                out.append(x)
            if not ms:
                s["segs"] = out
        try:
            data, facts = G.build(s)
        except KeyError:
            continue
        got = [x for x in s["segs"] if x[0] in ("app", "com")]
        app = [bytes([0xe0 | x[1]]) + G.be16(len(x[2]) + 2) + x[2] for x in got if x[0] == "app"]
        com = [b"\xfe" + G.be16(len(x[1]) + 2) + x[1] for x in got if x[0] == "com"]
        return data, app, com
    raise RuntimeError


def main():
    rep = V.Report("C10")
    exe = V.build("asan")
    rng = random.Random("C10-%d" % V.SEED)
    o1, o2 = os.path.join(V.workdir(), "raws"), os.path.join(V.workdir(), "segs")
    r = V.tlc("MetaGen", env={"OUT": o1, "OUT2": o2}); rep.add({"states": r.distinct, "transitions": r.states})
    raws = sorted(json.loads(x) for x in open(o1)); segs = sorted(json.loads(x) for x in open(o2))
    raws = [x if isinstance(x, list) else [] for x in raws]
    V.log("generated", len(raws), len(segs))
    # ---- reading crafted sections
    base, _, _ = file_with(random.Random(1), [], b"")
    pbase = put("base.jpg", base)
    probes = []
    if not V.THOROUGH:      # every pair of tokens, a third of the longer sections
        raws = [x for x in raws if len(x) <= 5 or rng.random() < .35]
    for i, raw in enumerate(raws):
        h = bytes(raw).hex()
        if not raw:
            probes += ["none 0 0 0 0", "brotli 0 0 0 0"]; continue
        if len(raw) == 1:
            probes.append("one 0 0 0 0 " + h)
        if len(raw) > 1 or True:
            probes.append("brotli 0 0 0 %d %s" % (rng.choice([0, 0, 1, 2, 3, 5]), h))
        if i % 40 == 0:
            for dd, ex, cut in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, 0, 1), (127, 0, 0), (0, 0, 3)):
                probes.append("brotli %d %d %d %d %s" % (dd, ex, cut, rng.choice([0, 2]), h))
    # limits
    sk = [b"\x00", b"\x80\x07", b"\x81\x63", b"\x82\x02"]
    lim = [(s, m, c) for s in (0, 1, 831, 832, 833) for m, c in ((0, 0), (1024, 0), (1025, 0), (0, 1024), (0, 1025), (1024, 1024), (1023, 1025))] + [(832, 1024, 1024), (833, 1024, 0), (2, 1023, 2)]
    for s, m, c in lim:
        it = [rng.choice(sk[:1] + sk[2:]) if rng.random() < .97 else sk[1] for _ in range(s)] + [bytes([0xe0 | rng.randrange(16), 0, 2]) if rng.random() < .8 else b"\xe5\x00\x03Z"] * m + [b"\xfe\x00\x02"] * c
        if rng.random() < .7:
            rng.shuffle(it)
        probes.append("brotli 0 0 0 %d %s" % (rng.choice([0, 100]), b"".join(it).hex()))
    B = 150
    cases = [("p%d" % i, ["golden " + GOLD, "load s " + pbase, "cenc s b"] + ["metaprobe b " + x for x in probes[i:i + B]], None) for i in range(0, len(probes), B)]
    # ---- writing files
    fcases = []

    def add(ss, tail, extra=None):
        d, app, com = file_with(rng, ss, tail, extra)
        n = "f%d" % len(fcases)
        fcases.append((n, ["golden " + GOLD, "load s " + put(n + ".jpg", d), "metafile s"], (app, com, tail)))
    tails = [b"", b"", b"\xd9", b"\x00\xff\xd9", b"Z" * 200]
    for a in segs:
        add([concrete(a)] + ([concrete(rng.choice(segs))] if rng.random() < .6 else []), rng.choice(tails))
    for k in (3, 50, 83, 84, 85, 86, 3159, 3160):      # around the profile template
        x = bytearray(E2); x[k] ^= 1
        add([bytes(x)], rng.choice(tails)); add([bytes(E2), bytes(x)], b"")
    add([E2[:1] + G.be16(3161) + E2[3:] + b"\x00"], b""); add([E2[:1] + G.be16(3159) + E2[3:-1]], b""); add([b"\xe1" + E2[1:]], b"")
    for i in range(200 if not V.THOROUGH else 3000):
        ss = []
        for _ in range(rng.choice([1, 2, 3, 5, 20, 60])):
            r0 = rng.random()
            if r0 < .4:
                ss.append(concrete(rng.choice(segs)))
            elif r0 < .7:
                m = corpus.metadata(rng, rng.choice(corpus.META))
                ss.append((b"\xfe" + G.be16(len(m[1]) + 2) + m[1]) if m[0] == "com" else bytes([0xe0 | m[1]]) + G.be16(len(m[2]) + 2) + m[2])
            else:
                n = rng.choice([0, 1, 2, 3, 126, 127, 128, 253, 254, 255, 256, 257, 511, 512])
                ss.append(bytes([rng.choice([0xe0, 0xe1, 0xe2, 0xec, 0xed, 0xee, 0xef, 0xfe])]) + G.be16(n + 2) + corpus.rand_bytes(rng, n))
        while sum(len(x) for x in ss) > 12000:
            ss.pop()
        add(ss, rng.choice(tails + [corpus.rand_bytes(rng, rng.randint(1, 300))]), rng.choice([None, None, "junk", "junkff", "junk2"]))
    e0 = bytes([0xe0, 0, 16]) + b"JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00"
    ec, ee = bytes(concrete([236, 0, 17, 68, 117, 99, 107, 121, 0, 1, 0, 4, 0, 0, 0, 7, 0, 0])), b"\xee\x00\x0eAdobe\x00\x64\x00\x00\x00\x00\x02"
    for s, m, c in lim:
        ss = [rng.choice([e0, ec, ee]) for _ in range(s)] + [bytes([0xe0 | rng.randrange(16), 0, 2])] * m + [b"\xfe\x00\x02"] * c
        rng.shuffle(ss)
        add(ss, rng.choice(tails[:3]))
    # big segments: their bytes are compared only through the round trip
    rt = []
    for i in range(12 if not V.THOROUGH else 100):
        ss = [bytes([rng.choice([0xe1, 0xed, 0xfe])]) + G.be16(n + 2) + (corpus.rand_bytes(rng, n) if rng.random() < .5 else bytes([65 + i]) * n) for n in rng.choices([65533, 65532, 30000, 65533 - 256, 1], k=rng.randint(1, 20))]
        d, app, com = file_with(rng, ss, corpus.rand_bytes(rng, rng.choice([0, 1, 100000])))
        rt.append(("big%d" % i, ["load s " + put("big%d.jpg" % i, d), "cenc s b", "cdec b o", "stream b o1 a,a", "stream b o2 M,M", "stream b o3 a,1000"], {"facts": {G.file_id(d): {"valid": True, "rep": True}}}))
    V.log("files", len(fcases))

    def records(c, ev):
        res = []
        for e in ev:
            if e["op"] == "metaprobe":
                e = dict(e, kind="probe", id="%s/%d" % (c[0], len(res)), crash=False); res.append(e)
            elif e["op"] == "metafile":
                app, com, tail = c[2]
                res.append({"kind": "file", "id": "%s/%d" % (c[0], len(res)), "crash": False, "app": [abstract(x) for x in app], "com": [list(x) for x in com], "tail": list(tail), "shorts": 0,
                            "ok": e["ok"], "intact": e["intact"], "raw": e["raw"], "same": e["same"], "ss": e["ss"]})
            elif e["op"] == "crash":
                res.append({"kind": "probe", "id": "%s/%d" % (c[0], len(res)), "crash": True, "raw": [], "intact": False, "what": e["what"]})
        return res
    allc = cases + fcases
    by = {c[0]: c for c in allc}
    ev = V.drive(exe, [(c[0], c[1]) for c in allc], timeout=120)
    V.log("ran")
    recs = [x for c in allc for x in records(c, ev[c[0]])]
    rep.count("sections_read", sum(1 for x in recs if x["kind"] == "probe")); rep.count("files_written", sum(1 for x in recs if x["kind"] == "file"))
    rep.count("sections_accepted", sum(1 for x in recs if x["kind"] == "probe" and not x["crash"] and x["st"] == 0)); rep.count("files_refused", sum(1 for x in recs if x["kind"] == "file" and not x["ok"]))
    rep.sample({k: recs[300][k] for k in ("raw", "form", "st", "app")})
    for i in range(0, len(recs), 6000):
        stats, bad = V.validate("MetaTrace", recs[i:i + 6000], "C10")
        rep.add(stats)
        for r0, idx, why in bad:
            c = by[r0["id"].split("/")[0]]
            again = [x for x in records(c, V.drive(exe, [(c[0], c[1])], timeout=200)[c[0]]) if x["id"] == r0["id"]]
            s2, b2 = V.validate("MetaTrace", again, "C10")
            if b2:
                x = b2[0][0]
                rep.violation("metadata %s %s: %s" % (x["kind"], x["id"], {k: x[k] for k in x if k not in ("app", "com", "tail")} if len(str(x)) < 4000 else {k: x[k] for k in ("ok", "same", "st", "rc", "ss", "intact") if k in x}), x, [q.split()[2] for q in c[1] if q.startswith("load ")])
        if len(rep.violations) >= 3:
            break
    V.log("judged")
    V.judge(rep, exe, "CodecTrace", rt, rec)
    return rep.finish()
