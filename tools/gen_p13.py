#!/usr/bin/env python3
# Writes conf/p13.conf: applications x_i, x_i_j for all pairs of rule atoms (see scen/p13.cc, which has the same table).
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ["all", "10.0.0.1", "10.0.0.0/24", "2001:db8::1", "2001:db8::/33"]
F = ["", "publish ", "play "]
atoms = [f"{v} {f}{a};" for a in A for f in F for v in ("allow", "deny")]
out = """daemon off; master_process off;
user root;
error_log /vxfs/log/error.log crit;
pid /vxfs/log/nginx.pid;
lock_file /vxfs/log/nginx.lock;
events { use epoll; worker_connections 256; }
stream_zone buckets=16 streams=64;
rtmp {
    live on; fix_timestamp 0; timeout 10s; applications_hash_max_size 2048; idle_streams on;
"""
def app(n, r): return f"        application {n} {{ {r} }}\n"
def server(port, name, rules, pairs):
    s = f"    server {{\n        listen {port}; listen [::]:{port}; serverid {name}; {rules}\n" + app("x", "")
    for i, a in enumerate(atoms):
        s += app(f"x_{i}", a)
        if pairs:
            for j, b in enumerate(atoms): s += app(f"x_{i}_{j}", a + " " + b)
    return s + "    }\n"
out += server(1935, "a", "", True) + server(1936, "b", "deny publish 10.0.0.0/24; allow 2001:db8::1; deny play all;", False)
out += "}\nhttp {\n    access_log off;\n"
for p, l in ((80, 1935), (81, 1936)):
    out += f"    server {{ listen {p}; listen [::]:{p}; location /f/ {{ flv_live {l}; }} location /t/ {{ ts_live {l}; }} }}\n"
out += "}\n"
out = out.replace(" applications_hash_max_size 2048;", "")
open(V + "/conf/p13.conf", "w").write(out)
