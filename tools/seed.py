#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py [--only ID]  (SPEC.py defines S = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)])
Applies the edit to /repo, builds, runs the stable tests and the demonstration, runs the
property's quick check, undoes the edit, and keeps the bug under /verif/seeded/ID."""
import sys, os, subprocess, json, shutil
R, V = "/repo", "/verif"
DEMO = """#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -DHAVE_CONF_H -I"$r/include" -I"$r/_build/include" "$d/demo.c" "$r/_build/srcs/libu.a" -o "$t/demo" %s -lm || exit 2
cd "$t" && timeout 100 ./demo >out 2>&1; rc=$?; tail -5 out; exit $rc
"""
def sh(c, t=900): 
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "timeout")
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = sys.argv[sys.argv.index("--only") + 1:] if "--only" in sys.argv else None
assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for s in ns["S"]:
    if only and s["id"] not in only: continue
    d = f"{V}/seeded/{s['id']}"; tmp = f"/tmp/seed_{s['id']}"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    ok = True
    open(tmp + "/demo.c", "w").write(s["demo"]); open(tmp + "/demo.sh", "w").write(DEMO % s.get("ld", ""))
    os.chmod(tmp + "/demo.sh", 0o755)
    for f, o, n in s["edits"]:
        t = open(f"{R}/{f}").read()
        if t.count(o) != 1: print(s["id"], f"edit matches {t.count(o)} times in {f}"); ok = False; break
        open(f"{R}/{f}", "w").write(t.replace(o, n))
    try:
        if not ok: continue
        diff = sh("git -C /repo diff").stdout
        open(tmp + "/patch.diff", "w").write(diff)
        r = sh("bash /opt/vp/test.sh /tmp/seed.json"); j = json.load(open("/tmp/seed.json"))
        miss = base - set(j["passed"])
        if miss: print(s["id"], "tests fail:", sorted(miss)[:5], r.stdout[-500:]); continue
        r = sh(f"cd /repo && bash {tmp}/demo.sh")
        if r.returncode == 0: print(s["id"], "demo passes with the patch:", r.stdout[-300:]); continue
        if r.returncode == 2: print(s["id"], "demo does not build", r.stdout[-1500:]); continue
        dm = r.stdout.strip().splitlines()[-1:] 
        r = sh(f"cd {V} && python3 check.py {s['prop']} quick"); 
        caught = r.returncode == 1 and f"VIOLATION property={s['prop']}" in r.stdout
        print(s["id"], "CAUGHT" if caught else f"MISSED rc={r.returncode}", "| demo:", dm, "|", [l for l in r.stdout.splitlines() if not l.startswith("#")][:2])
    finally:
        sh("git -C /repo checkout -q -- .")
    sh("bash /opt/vp/build.sh"); r = sh(f"cd /repo && bash {tmp}/demo.sh")
    if r.returncode: print(s["id"], "demo FAILS on the unchanged tree:", r.stdout[-400:]); continue
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
