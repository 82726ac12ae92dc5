#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE NEEDS BREAKS OLD NEW: writes seeded/ID/{patch.diff,meta.json} from a replacement in FILE."""
import sys, os, json, subprocess
id_, prop, f, needs, breaks, *reps = sys.argv[1:]
d = f"/verif/seeded/{id_}"; os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git","-C","/repo","status","--porcelain"]), "dirty"
p = f"/repo/{f}"; s = open(p).read(); o = s
for old, new in zip(reps[::2], reps[1::2]):
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, "w").write(s)
diff = subprocess.check_output(["git","-C","/repo","diff"])
open(p, "w").write(o)
open(f"{d}/patch.diff","wb").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json","w"), indent=1)
