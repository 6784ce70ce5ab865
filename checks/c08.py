"""C08: what a successful read reports, in every mode, and that it rebuilds."""
from jpeglib import *


def main():
    rep = V.Report("C08")
    exe = V.build("asan")
    rng = random.Random("C08-%d" % V.SEED)
    seqs, r = sequences()
    rep.add({"states": r.distinct, "transitions": r.states})
    k = 900 if not V.THOROUGH else 20000
    kinds = [rng.choice(["ent", "entp", "entp", "small", "smallp", "smallp", "byteent", "byte"]) for _ in range(k)]
    inst = [(a, d, "A") for a, d in mutants("C08-%d" % V.SEED, kinds)]
    inst += [(a, d, m) for a, d, _ in inst[:k // 4] for m in "HT"]
    # the enumerated files the machine accepts
    for s in (seqs if V.THOROUGH else rng.sample(seqs, 3000)):
        inst.append((" ".join(s), jpegtok.concretise(s, rng), rng.choice("AAAAHT")))
    ok = execute(exe, inst, True)
    inst = [x for x, y in zip(inst, ok) if y["ok"] or y["crash"]]
    V.log("files ready", len(inst))
    rep.sample({"file": inst[0][0], "bytes": inst[0][1].hex()[:200]})
    check(rep, exe, inst, "content", step=1500)
    # larger files: report, rebuild, and the image a stream decodes to
    n = 500 if not V.THOROUGH else 8000
    fs = files(n, "C08-%d" % V.SEED)
    cases = []
    for cid, path, data, facts, desc in fs:
        fid = G.file_id(data)
        ops = ["load s " + path, "read s j A x", "write j o", "read s h H", "read s t T"]
        if facts["rep"]:
            ops += ["enc j b", "dec b k x", "write k o2", "setver j 0", "enc j b3", "dec b3 k3 x"]
        cases.append((cid, ops, {"facts": {fid: facts}, "desc": desc}))
    rep.count("corpus_files", n)
    if not rep.violations:
        V.judge(rep, exe, "CodecTrace", cases, rec)
    return rep.finish()
