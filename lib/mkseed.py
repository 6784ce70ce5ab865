"""Dev helper: mkseed.py ID PROPERTY FILE... ; the edit is already in /repo's working tree."""
import json, os, subprocess, sys
sid, prop, needs, breaks = sys.argv[1:5]
d = os.path.join("/verif/seeded", sid)
os.makedirs(d, exist_ok=True)
p = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
assert p.strip(), "no edit"
open(d + "/patch.diff", "wb").write(p)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
