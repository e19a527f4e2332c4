#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks/registry.py and the property list.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
ids = [p["id"] for p in props]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
checks = []
for i in ids:
    if i not in CHECKS:
        assert i in NOT_APPLICABLE, i
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique=c.get("technique", "stateless model checking: exhaustive enumeration of choice trees executed in the real nginx process"),
                       level="model_checking", level_note=c.get("note", "Every execution within the stated bounds is run on the real modules inside the nginx binary, with sockets, clock, files and randomness owned by the explorer. Trusts the explorer's socket/epoll model and the independent peer used as oracle.")))
m = dict(version=1, setup_cmd="bash engine/build.sh plain && bash engine/build.sh asan",
         hooks=dict(guard="VX", enable="no hooks in /repo: the checks compile /repo's sources with -D renames (shmtx lock functions; pool allocation in the ASAN variant) and preload the explorer", source_commits=[]),
         checks=checks, not_applicable=[dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in CHECKS],
         notes="See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
