#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--run NAME]

Builds what property ID needs from /repo's working tree, explores every
execution within the bounds of its scenarios inside the real nginx binary,
writes evidence/ID.json and prints VIOLATION lines.
exit 0: held on everything explored; 1: violated; 2: the check could not run.
"""
import argparse, fcntl, glob, json, os, shlex, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks.registry import CHECKS  # noqa: E402

NGINX = "/usr/sbin/nginx"


def die(msg):
    print("check error:", msg, file=sys.stderr)
    sys.exit(2)


def build(variant):
    r = subprocess.run(["bash", V + "/engine/build.sh", variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("build of /repo (%s) failed:\n%s" % (variant, r.stdout[-3000:]))


def cc(cmd, what):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("compiling %s failed:\n%s" % (what, r.stdout[-3000:]))


def scen_so(variant, scen, glue):
    B = f"{V}/build/{variant}"
    so = f"{B}/scen_{scen}.so"
    with open(f"{B}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs = []
        for g in glue:
            o = f"{B}/glue_{g}.o"
            inc = open(f"{B}/inc").read().strip()
            san = "-fsanitize=address" if variant == "asan" else ""
            first = open(f"{V}/scen/{g}.c").readline()
            if first.startswith("// cflags:"):
                san += first[10:].rstrip()
            cc(f"cd {B} && gcc -g -O1 -fPIC {san} -w {inc} -c {V}/scen/{g}.c -o {o}.new", g)
            if os.path.exists(o) and open(o, "rb").read() == open(o + ".new", "rb").read():
                os.unlink(o + ".new")
            else:
                os.rename(o + ".new", o)
            objs.append(o)
        dep = max(os.path.getmtime(f) for f in glob.glob(V + "/scen/*.h") + glob.glob(V + "/engine/vx.h") + [f"{V}/scen/{scen}.cc"] + objs)
        if not os.path.exists(so) or os.path.getmtime(so) < dep:
            cc(f"g++ -std=c++17 -O1 -g -fPIC -shared -U_FORTIFY_SOURCE -Wl,-z,lazy -o {so} {V}/scen/{scen}.cc {' '.join(objs)}", scen)
    return so


class Res:
    pass


def launch(run, tier, replay=None, deadline=None, timeout=None):
    variant = run.get("variant", "plain")
    B = f"{V}/build/{variant}"
    so = scen_so(variant, run["scen"], run.get("glue", []))
    d = tempfile.mkdtemp(prefix="vxrun.")
    try:
        conf = open(f"{V}/conf/{run['conf']}").read()
        for k, v in run.get("subst", {}).items():
            conf = conf.replace("@%s@" % k, str(v))
        with open(d + "/nginx.conf", "w") as f:
            f.write(f"load_module {B}/objs/ngx_live_module.so; load_module {B}/objs/ngx_http_ts_module.so;\n" + conf)
        env = {k: v for k, v in os.environ.items() if not k.startswith("VX")}
        env.update(TZ="UTC", LC_ALL="C", VX_ON="1", VX_SCEN=so, VX_RUN=run["run"], VX_TIER=tier, VX_OUT=d + "/out.json",
                   VX_DEADLINE=str(deadline or 600), VX_KNOWN="\n".join(run.get("known", [])), VX_WORKERS=str(run.get("workers", os.cpu_count() or 8)))
        if "cpu" in run:
            env["VX_CPU"] = str(run["cpu"])
        for k, v in run.get("args", {}).items():
            env["VXA_" + k] = str(v)
        if run.get("files"):
            env["VX_FILES"] = ",".join("%s=%s/%s" % (k, V, v) for k, v in run["files"].items())
        pre = B + "/vx.so"
        if variant == "asan":
            lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
            pre = lib + ":" + pre
            env["VX_ASAN"] = "1"
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=1:verify_asan_link_order=0:detect_odr_violation=0:allocator_may_return_null=1:symbolize=0"
            if replay is not None:
                env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace(":symbolize=0", "")
        if run.get("gdb"):
            run["wrap"] = ["gdb", "-batch", "-ex", "set exec-wrapper env LD_PRELOAD=" + pre, "-ex", "set follow-fork-mode child", "-ex", "set detach-on-fork on", "-ex", "run", "-ex", "bt 25", "--args"]
        else:
            env["LD_PRELOAD"] = pre
        env["LD_BIND_NOW"] = "1"
        if replay is not None:
            env["VX_REPLAY"] = ",".join(map(str, replay))
        r = Res()
        t0 = time.time()
        p = subprocess.Popen(run.get("wrap", []) + [NGINX, "-e", "stderr", "-p", d + "/", "-c", d + "/nginx.conf"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            r.rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            r.rc = -99
        r.out = out.decode("latin1")
        r.wall = time.time() - t0
        r.json = None
        if os.path.exists(d + "/out.json"):
            try:
                r.json = json.load(open(d + "/out.json"))
            except ValueError:
                r.json = None
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def findings(pid):
    out = {}
    path = V + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                f = line[8:].strip().split(None, 2)
                kv = dict(x.split("=", 1) for x in f[:2])
                if kv.get("property") == pid:
                    out[kv["key"]] = f[2] if len(f) > 2 else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--run")
    ap.add_argument("--gdb", action="store_true", help="with --replay: run under gdb and print the stack at a crash")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.id
    if pid not in CHECKS:
        die("no check for " + pid)
    C = CHECKS[pid]
    t0 = time.time()
    known = findings(pid)
    runs = [dict(r) for r in C["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    for r in runs:
        r["known"] = list(known)
        r.setdefault("label", r["run"])
    if a.run:
        runs = [r for r in runs if r["label"] == a.run]
    for v in sorted({r.get("variant", "plain") for r in runs}):
        build(v)

    if a.replay:
        rp = json.load(open(a.replay))
        run = [r for r in runs if r["label"] == rp["label"]][0]
        run["gdb"] = a.gdb
        r = launch(run, rp.get("tier", tier), replay=rp["vector"])
        print(r.out)
        sys.exit(1 if r.rc else 0)

    budget = {"quick": C.get("quick_budget", 420), "thorough": C.get("thorough_budget", 3000)}[tier]
    tot = dict(execs=0, nodes=0, pumps=0, pruned=0, xstates=0, xtrans=0, xcases=0)
    outcomes, samples, viols, perrun, hits = set(), [], [], [], {}
    complete = True
    for i, run in enumerate(runs):
        left = budget - (time.time() - t0)
        dl = max(20, left if i == len(runs) - 1 else left * run.get("share", 1.0))
        res = launch(run, tier, deadline=dl, timeout=dl + 240)
        if res.json is None:
            if res.rc in (70, 71):
                die("engine (%s): rc=%s\n%s" % (run["label"], res.rc, res.out[-3000:]))
            # the server did not reach its event loop with a valid configuration; make sure
            res2 = launch(run, tier, deadline=dl, timeout=dl + 240)
            if res2.json is None and res2.rc == res.rc and res.rc != -99:
                viols.append(dict(label=run["label"], vector=[], message="the server does not start with this configuration: rc=%s\n%s" % (res.rc, res.out[-3000:]), notes=""))
                continue
            if res2.json is None:
                die("run %s gave no result: rc=%s\n%s" % (run["label"], res2.rc, res2.out[-3000:]))
            res = res2
        j = res.json
        if j["bad_workers"] or any(w is None for w in j["workers"]):
            die("engine worker died in %s\n%s" % (run["label"], res.out[-2000:]))
        pr = dict(run=run["label"], scenario=j["scenario"], rule=j["rule"], variant=run.get("variant", "plain"), roots=j["roots"], wall_s=round(j["wall"], 2))
        loc = dict.fromkeys(tot, 0)
        oc, ok, depth = set(), True, 0
        for w in j["workers"]:
            for k in loc:
                loc[k] += w[k]
            oc.update(w["outcomes"])
            ok = ok and w["complete"]
            depth = max(depth, w["depth"])
            for s in w["samples"]:
                if len([1 for x in samples if x["run"] == run["label"]]) < 2:
                    samples.append(dict(run=run["label"], trace=s))
            for k, n in w["known"].items():
                hits[k] = hits.get(k, 0) + n
            for vi in w["viols"]:
                if not vi["confirmed"]:
                    print("unconfirmed (not reproduced on replay), ignored:", run["label"], vi["vector"], vi["message"][:1500], file=sys.stderr)
                    continue
                vi["label"] = run["label"]
                viols.append(vi)
        for k in tot:
            tot[k] += loc[k]
        outcomes.update(run["label"] + x for x in oc)
        complete = complete and ok
        pr.update(executions=loc["execs"], choice_nodes=loc["nodes"], steps=loc["pumps"], pruned=loc["pruned"], inner_states=loc["xstates"], inner_transitions=loc["xtrans"],
                  inner_cases=loc["xcases"], distinct_outcomes=len(oc), max_depth=depth, complete=ok)
        perrun.append(pr)
        print("%s %s: %d executions, %d nodes, %d steps, %d outcomes, inner %d/%d/%d, %.1fs%s" % (pid, run["label"], loc["execs"], loc["nodes"], loc["pumps"], len(oc), loc["xcases"], loc["xstates"], loc["xtrans"], j["wall"], "" if ok else " (incomplete)"))
        sys.stdout.flush()

    os.makedirs(V + "/evidence", exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=tot["nodes"] + tot["xstates"], transitions=tot["pumps"] + tot["xtrans"],
                            traces_validated_against_impl=tot["execs"] + tot["xcases"], evaluations=tot["execs"] + tot["xcases"], distinct_nontrivial=len(outcomes),
                            rule="every choice vector of each scenario is executed in the real nginx process; states = choice-tree nodes plus states counted by in-process enumerations, transitions = scheduling steps of the event loop plus in-process operations; two executions are distinct when the hash of what they observed differs",
                            exhaustive=bool(complete and not viols), runs=perrun, samples=samples[:6] or [dict(run=r["run"], trace="") for r in perrun[:1]]),
              assumptions=C.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)

    for k in known:
        if k in hits:
            print("KNOWN-FINDING: property=%s %s [%s, reached %d times]" % (pid, known[k], k, hits[k]))
    if viols:
        os.makedirs(V + "/replays", exist_ok=True)
        for n, vi in enumerate(viols[:8]):
            path = f"{V}/replays/{pid}.{n}.json"
            vi.update(property=pid, tier=tier, command=f"python3 {V}/check.py {pid} --tier {tier} --replay {path}")
            json.dump(vi, open(path, "w"), indent=1)
            print("--- %s %s %s\n%s\n%s" % (pid, vi["label"], vi["vector"], vi["message"][:2500], vi.get("notes", "")[-600:]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    print("%s held: %d executions, %s, %.0fs" % (pid, tot["execs"] + tot["xcases"], "exhaustive" if complete else "INCOMPLETE", time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
