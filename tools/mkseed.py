#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is a python script that defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (python source using lib.py).
Writes seeded/ID, checks that the change builds and passes the stable tests, that the demo fails with it and passes without it, and runs the property's quick check."""
import json, os, shutil, subprocess, sys
R = "/repo"; V = "/verif"; M = R + "/modules/nginx-rtmp-module/"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(): r = sh("bash /opt/vp/build.sh"); return r.returncode == 0 or print(r.stdout[-1500:])
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "repo not clean"
nocheck = "--nocheck" in sys.argv
for f in [a for a in sys.argv[1:] if a[0] != "-"]:
    g = {}; exec(open(f).read(), g); ID = g["ID"]; d = f"{V}/seeded/{ID}"; os.makedirs(d, exist_ok=True)
    res = {}
    try:
        for p, a, b in g["EDITS"]:
            p = p if p.startswith("/") else (M + p if os.path.exists(M + p) else R + "/modules/" + p)
            s = open(p).read(); assert s.count(a) == 1, (p, a, s.count(a)); open(p, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom lib import *\n" + g["DEMO"].lstrip("\n"))
        shutil.copy(V + "/tools/demo_lib.py", d + "/lib.py")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        res["build"] = bool(build())
        if res["build"]:
            r = sh(f"bash {d}/demo.sh", cwd=R); res["demo_bad"] = r.returncode; print(ID, "demo with change:", r.returncode, r.stdout[-300:].strip())
            sh("bash /opt/vp/test.sh /tmp/seedtest.json"); t = json.load(open("/tmp/seedtest.json")); res["tests"] = not (set(stable) - set(t["passed"]))
            if not nocheck:
                r = sh(f"timeout 900 python3 check.py {g['PROPERTY']}", cwd=V); res["check"] = r.returncode; print(ID, "check:", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l], r.stdout[-600:].strip().replace("\n", " | ")[-600:] if r.returncode != 1 else "")
    finally:
        sh("git -C /repo checkout -- .")
    build(); r = sh(f"bash {d}/demo.sh", cwd=R); res["demo_good"] = r.returncode
    if r.returncode: print(ID, "demo without:", r.stdout[-500:])
    ok = res.get("build") and res.get("demo_bad") and res.get("tests") and res["demo_good"] == 0
    if ok and "check" in res:
        rf = V + "/tools/seed_results.json"; rr = json.load(open(rf)); rr[ID] = g["PROPERTY"] + " quick" if res["check"] == 1 else "missed"; json.dump(rr, open(rf, "w"), indent=1, sort_keys=True)
    print("SEED", ID, "OK" if ok else "BAD", res, flush=True)
