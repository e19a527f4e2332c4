#!/usr/bin/env python3
# Writes /verif/properties.jsonl; the single place the property texts are edited.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
R = "modules/nginx-rtmp-module/"
T = "modules/nginx-toolkit-module/"
M = "modules/nginx-multiport-module/"
S = "modules/nginx-ts-module/src/"
C = "modules/nginx-client-module/"
exec(open(os.path.join(os.path.dirname(__file__), "properties_src.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, sort_keys=False) + "\n")
