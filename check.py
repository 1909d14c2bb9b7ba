#!/usr/bin/env python3
"""Build /repo's current sources with one harness, explore it, write evidence.

  check.py ID [quick|thorough]        run a check (exit 0 held, 1 VIOLATION)
  check.py --replay FILE              replay a recorded violation
Internal errors exit 3.
"""
import sys, os, re, json, subprocess, shutil, time, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LIBU_REPO", "/repo")
CONF = os.path.join(V, "conf", "u", "libu_conf.h")
SKIP = {"facility.c"}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

VFS = "open open64 creat read write close lseek fsync ftruncate dup link unlink remove rename symlink stat lstat fstat access fopen fopen64 fdopen fclose fileno"
NET = "socket close connect bind listen accept setsockopt getsockopt getpeername getsockname fcntl fcntl64 ioctl select pselect poll __poll_chk gettimeofday clock_gettime time getaddrinfo freeaddrinfo gethostbyname gethostbyname2 getservbyname"

def directives(path):
    d = {"ldflags": "", "cflags": "", "libcflags": "", "san": "-fsanitize=address", "undef": "", "cc": "gcc"}
    var = []      # MC-VARIANT: NAME SYMBOL... : the same harness with these symbols missing from the configuration, MC_VARIANT_NAME defined
    for line in open(path):
        m = re.match(r"^// MC-(\w+):\s*(.*)$", line)
        if m and m.group(1) == "VARIANT": var.append(m.group(2).split())
        elif m: d[m.group(1).lower()] = m.group(2).strip()
    d["ldflags"] = d["ldflags"].replace("@net", " ".join("-Wl,--wrap=" + f for f in NET.split()))
    d["ldflags"] = d["ldflags"].replace("@vfs", " ".join("-Wl,--wrap=" + f for f in VFS.split()))
    d["variants"] = var
    return d

def build(pid, out, variant=None):
    src = os.path.join(V, "harness", pid + ".c")
    d = directives(src)
    for n, *syms in d["variants"]:
        if n == variant: d["undef"] += " " + " ".join(syms); d["cflags"] += " -DMC_VARIANT_" + n
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(out, "inc")
    os.makedirs(os.path.join(inc, "u"), exist_ok=True)
    conf = open(CONF).read()
    for u in d["undef"].split():
        conf = re.sub(r"(?m)^#define %s\b.*$" % re.escape(u), "", conf)
    open(os.path.join(inc, "u", "libu_conf.h"), "w").write(conf)
    for n in ("missing", "toolbox"):
        l = os.path.join(inc, "u", n)
        if os.path.islink(l): os.unlink(l)
        os.symlink(os.path.join(REPO, "include", n), l)
    base = [d["cc"], "-g", "-O1", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-DHAVE_CONF_H", "-w"]
    base += d["san"].split() + ["-I" + os.path.join(REPO, "include"), "-I" + inc, "-I" + os.path.join(V, "mc"), "-I" + os.path.join(V, "harness")]
    jobs = []
    for f in sorted(glob.glob(os.path.join(REPO, "srcs", "toolbox", "*.c"))):
        b = os.path.basename(f)
        if b in SKIP: continue
        o = os.path.join(out, "lib_" + b[:-2] + ".o")
        jobs.append((base + ["-ftrivial-auto-var-init=pattern"] + d["libcflags"].split() + ["-c", f, "-o", o], o))
    o = os.path.join(out, "mc.o"); jobs.append((base + ["-O2", "-c", os.path.join(V, "mc", "mc.c"), "-o", o], o))
    o = os.path.join(out, "h.o"); jobs.append((base + d["cflags"].split() + ["-c", src, "-o", o], o))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: sh(j[0]), jobs))
    for r, j in zip(rs, jobs):
        if r.returncode:
            print("build failed:", " ".join(j[0])); print(r.stdout)
            if variant: return None
            sys.exit(3)
    # gather the library's writable data: the engine restores it before every execution
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(["objcopy"] + ["--rename-section=%s=libdata,alloc,load,data,contents" % s for s in (".data", ".bss", ".data.rel.local", ".data.rel")] + [j[1]]), jobs[:-2]))
    prog = os.path.join(out, "check")
    r = sh(base + [j[1] for j in jobs] + ["-o", prog, "-lm", "-lpthread"] + d["ldflags"].split())
    if r.returncode:
        print("link failed"); print(r.stdout)
        if variant: return None
        sys.exit(3)
    return prog

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:max_allocation_size_mb=2048"
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

def known_file():
    """known-findings.txt: 'finding: property=ID key=KEY what fails' and 'fixed: property=ID commit what failed'"""
    res = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", line.rstrip("\n"))
            if m: res.append(m.groups())
    return res

def selftest(prog, out):
    """harness/SELF.c: the engine must run exactly the feasible executions and find every planted fault"""
    rf = os.path.join(out, "r.json"); bad = 0; open(os.path.join(out, "k"), "w").close()
    want = {"ok-inter": 924, "ok-product": 60, "ok-dev": 56, "ok-discard": 3, "ok-oom": 4, "ok-prune": 13, "bad-lost": "lost-update", "bad-rare": "rare",
            "bad-overflow": "overflow", "bad-uaf": "use-after-free", "bad-double": "bad-free", "bad-crash": "SEGV", "bad-once": "once", "bad-oncecrash": "SEGV"}
    for scn, w in want.items():
        r = subprocess.run([prog, "--tier", "quick", "--out", rf, "--known", os.path.join(out, "k"), "--only", scn], env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out, timeout=200)
        j = json.load(open(rf))
        ok = (r.returncode == 0 and j["complete"] and j["executions"] == w) if isinstance(w, int) else (r.returncode == 1 and w in j["violation"]["key"] + j["violation"]["message"])
        print("%-14s %s" % (scn, "ok" if ok else "WRONG: exit %d %s" % (r.returncode, json.dumps(j)[:300])))
        bad += not ok
    if bad: sys.exit(1)

def main():
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        out = os.path.join(V, "out", rec["property"] + ".replay"); os.makedirs(out, exist_ok=True)
        prog = build(rec["property"], out, rec.get("variant"))
        r = subprocess.run([prog, "--tier", rec["tier"], "--replay", rec["scenario"], ",".join(map(str, rec["choices"]))], env=env())
        sys.exit(r.returncode)
    if sys.argv[1] == "--selftest":
        out = os.path.join(V, "out", "selftest"); os.makedirs(out, exist_ok=True)
        selftest(build("SELF", out), out); shutil.rmtree(out); sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    extra = [a for a in sys.argv[2:] if a not in ("quick", "thorough")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = os.path.join(V, "out", pid)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    prog = build(pid, out)
    known = known_file()
    kf = os.path.join(out, "known.tsv")
    with open(kf, "w") as f:
        for p, k, w in known: f.write("%s\t%s\t%s\n" % (p, k, w))
    rf = os.path.join(out, "result.json")
    var = directives(os.path.join(V, "harness", pid + ".c"))["variants"]
    limit = (780 if tier == "thorough" else 240) - len(var) * (100 if tier == "thorough" else 30)
    def run(prog, limit):
        cmd = [prog, "--tier", tier, "--out", rf, "--known", kf, "--limit", str(limit)] + extra
        try:
            r = subprocess.run(cmd, env=env(), timeout=880, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out)
        except subprocess.TimeoutExpired:
            print("engine timed out"); sys.exit(3)
        txt = r.stdout.decode(errors="replace")
        if txt.strip(): print(txt[-4000:])
        if r.returncode not in (0, 1):
            print("engine error: exit %d" % r.returncode); sys.exit(3)
        return r, json.load(open(rf))
    r, res = run(prog, limit)
    which, unbuilt = None, []
    for n, *syms in var:
        if r.returncode: break
        p = build(pid, os.path.join(out, n), n)
        if p is None:
            print("configuration %s (without %s) does not build: not explored" % (n, " ".join(syms))); unbuilt.append(n); res["complete"] = False; continue
        r, v = run(p, 100 if tier == "thorough" else 30)
        for s in v["scenarios"]: s["name"] = "%s: %s" % (n, s["name"])
        res["scenarios"] += v["scenarios"]; res["complete"] = res["complete"] and v["complete"]; res["known_seen"] = {**v.get("known_seen", {}), **res.get("known_seen", {})}
        for k in ("executions", "transitions", "states", "outcomes", "discarded", "pruned", "dropped"): res[k] += v[k]
        if r.returncode: res["violation"] = v["violation"]; which = n
        shutil.rmtree(os.path.join(out, n))
    cov = {"exhaustive": bool(res["complete"]), "scenarios": res["scenarios"], "choice_points_discarded": res["discarded"], "pruned_executions": res["pruned"]}
    samples = res["samples"] or ["(see scenarios)"]
    lv = res["level"]
    if lv == "model_checking":
        cov.update(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["executions"], samples=samples, distinct_outcomes=res["outcomes"])
    else:
        cov.update(evaluations=res["executions"], distinct_nontrivial=res["outcomes"], operations=res["transitions"], samples=samples,
                   rule="every execution of the scenarios listed, one per feasible sequence of choices (see each scenario's bounds); an execution is non-trivial when it reaches a fault, or an observable result recorded by the harness, and distinct by the hash of that observation")
    if res["dropped"]: cov["set_insertions_dropped"] = res["dropped"]
    viol = 1 if r.returncode == 1 else 0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lv, "coverage": cov,
          "assumptions": [
            "bounded: nothing outside the scenario bounds stated under coverage.scenarios is covered",
            "sources compiled from the current tree with gcc -O1 and AddressSanitizer, configuration header conf/u/libu_conf.h (the one the reference build generates)" + "".join("; scenarios \"%s:\" with %s undefined%s" % (n, " ".join(s), " (does not build: not explored)" if n in unbuilt else "") for n, *s in var),
            "deterministic single-process executions; every choice is owned by the engine; the schedule is exhaustive, not random (the seed is not used)"],
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p, k, w in known:
        if p == pid and k in res.get("known_seen", {}):
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, w, k))
    print("%s %s: %d executions, %d transitions, %d states, %d outcomes, complete=%s, %.1f s" % (pid, tier, res["executions"], res["transitions"], res["states"], res["outcomes"], res["complete"], time.time() - t0))
    if viol:
        v = res["violation"]
        rp = os.path.join(V, "out", "replay-%s.json" % pid)
        v.update(property=pid, tier=tier)
        if which: v["variant"] = which; print("configuration %s (without %s)" % (which, [" ".join(s) for n, *s in var if n == which][0]))
        with open(rp, "w") as f: json.dump(v, f, indent=1)
        print("violated: scenario=%s key=%s %s" % (v["scenario"], v["key"], v["message"]))
        print(v["trace"][-3000:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    for f in glob.glob(os.path.join(out, "*.o")): os.unlink(f)
    sys.exit(0)

if __name__ == "__main__":
    main()
