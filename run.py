#!/usr/bin/env python3
"""Runs one check:  run.py <property> [--tier quick|thorough] [--seed N] [--keep]
                    run.py --replay <file>

Builds the harnesses the check needs from /repo's working tree (fresh, in a temporary directory), runs them in
parallel, classifies what their monitors and the sanitizers reported, writes evidence/<property>.json and exits
0 (held on everything explored), 1 (VIOLATION line) or 2 (the check itself could not decide)."""
import concurrent.futures, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS, HARNESSES, VARIANTS, FATAL   # noqa: E402

NCPU = os.cpu_count() or 8


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


# ---- building ------------------------------------------------------------------------------------
def wraps(variant, h):
    out = []
    for f in h.get("wrap", []):
        out += ["-Wl,--wrap=" + s for s in open(os.path.join(HERE, "lib", f)).read().split()]
    if VARIANTS[variant].get("tsan") and h.get("wrap"):
        for b in (8, 32, 64):
            for o in ("load", "store"):
                out.append("-Wl,--wrap=__tsan_atomic%d_%s" % (b, o))
    return out


def build(harness, variant, tmp):
    h, v = HARNESSES[harness], VARIANTS[variant]
    exe = os.path.join(tmp, harness + "." + variant)
    objs = []
    for c in h.get("c", []):
        o = "%s.%s.o" % (exe, os.path.basename(c))
        cmd = ["gcc", "-O2", "-g", "-c", os.path.join(HERE, c), "-o", o] + (["-DDS_TSAN"] if v.get("tsan") else [])
        r = sh(cmd)
        if r.returncode:
            raise HarnessError("cannot compile %s: %s" % (c, r.stderr[-2000:]))
        objs.append(o)
    cmd = [v.get("cxx", "g++")] + v["flags"] + h.get("flags", []) + ["-I" + REPO + "/include", "-I" + HERE + "/lib",
          os.path.join(HERE, h["src"]), HERE + "/lib/stdnodes.cpp"] + objs + ["-o", exe] + wraps(variant, h) + h.get("libs", []) + (["-lstdc++fs"] if variant.endswith("14") else []) + ["-lpthread"]
    r = sh(cmd)
    if r.returncode:
        t = os.path.join(tmp, exe + ".sanity.cpp")
        open(t, "w").write("#include <map>\n#include <string>\n#include <thread>\nint main() { std::map<std::string, int> m; m[\"a\"] = 1; return m.size() == 1 ? 0 : 1; }\n")
        if sh([v.get("cxx", "g++")] + v["flags"] + [t, "-o", exe + ".sanity"]).returncode:
            raise HarnessError("the compiler does not work: " + r.stderr[-1500:])
        if "repo/include" not in r.stderr and REPO not in r.stderr and "pluto" not in r.stderr:
            raise HarnessError("harness does not build: " + r.stderr[-3000:])
        errs = [l for l in r.stderr.splitlines() if "error" in l][:6]
        return exe, {"kind": "does-not-compile", "detail": " // ".join(errs)[:1500], "at": " ".join(cmd)}
    return exe, None


# ---- running -------------------------------------------------------------------------------------
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:handle_abort=1:abort_on_error=0:detect_stack_use_after_return=1:strict_string_checks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:report_thread_leaks=0:handle_abort=1:hard_rss_limit_mb=3500:exitcode=66",
           LC_ALL="C.UTF-8")
ENV.pop("LD_PRELOAD", None)


def limits(cpu):
    def f():
        os.setsid()
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.sched_setaffinity(0, {cpu})
        except OSError:
            pass
    return f


CPUS = sorted(os.sched_getaffinity(0))


def run_one(exe, args, cpu, timeout, scratch, aslr=True):
    cmd = ([] if aslr else ["setarch", "x86_64", "-R"]) + [exe] + ["%s=%s" % kv for kv in args.items()]
    d = tempfile.mkdtemp(dir=scratch)
    t0 = time.time()
    out, err = open(d + ".out", "wb+"), open(d + ".err", "wb+")
    p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=dict(ENV, TMPDIR=d), cwd=d, preexec_fn=limits(CPUS[cpu % len(CPUS)]))
    try:
        rc = p.wait(timeout=timeout)
        late = False
    except subprocess.TimeoutExpired:
        late, rc = True, None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    out.seek(0); err.seek(0)
    so, se = out.read().decode("utf-8", "replace"), err.read()[:400000].decode("utf-8", "replace")
    out.close(); err.close()
    shutil.rmtree(d, ignore_errors=True)
    for f in (d + ".out", d + ".err"):
        os.unlink(f)
    if aslr and ("unexpected memory mapping" in se or "ReserveShadowMemory" in se or "Shadow memory range interleaves" in se):
        return run_one(exe, args, cpu, timeout, scratch, aslr=False)
    return dict(rc=rc, out=so, err=se, late=late, wall=time.time() - t0, args=args, cmd=" ".join(cmd))


def classify_crash(r):
    e = r["err"]
    m = re.search(r"ThreadSanitizer: ([a-zA-Z -]+)", e)
    if m:
        k = m.group(1).strip()
        kind = "race" if k.startswith("data race") else "tsan-" + k.split(" (")[0].strip().replace(" ", "-")
    else:
        m = re.search(r"AddressSanitizer: ([A-Za-z-]+)", e)
        if "runtime error:" in e:
            kind = "ubsan"
        elif "terminate called" in e:
            kind = "terminate"
        elif "Assertion" in e or "assertion" in e:
            kind = "assertion"
        elif m:
            kind = "asan-" + m.group(1)
        else:
            kind = "crash"
    frames = [l.strip() for l in e.splitlines() if "runtime error:" in l or "ERROR:" in l or "WARNING:" in l or REPO + "/" in l or "terminate called" in l or "what():" in l or "Assertion" in l][:12]
    return kind, " // ".join(frames)[:1800] or ("exit code %s; " % r["rc"] + e[-600:])


def parse(r, job):
    """-> dict(violations, counters, samples, distinct, inconclusive)"""
    res = dict(violations=[], counters={}, samples=[], distinct=set(), inconclusive=None)
    where, hang, done = None, False, False
    for line in r["out"].splitlines():
        if line.startswith("V "):
            kind, _, js = line[2:].partition("\t")
            try:
                d = json.loads(js)
            except ValueError:
                d = {"detail": js, "at": ""}
            res["violations"].append(dict(kind=kind, detail=d.get("detail", ""), at=d.get("at", "")))
        elif line.startswith("N "):
            f = line.split()
            if len(f) == 3:
                res["counters"][f[1]] = res["counters"].get(f[1], 0) + int(f[2])
        elif line.startswith("X "):
            try:
                res["samples"].append(json.loads(line[2:]))
            except ValueError:
                pass
        elif line.startswith("D "):
            res["distinct"].add(line[2:].strip())
        elif line.startswith("A "):
            where = line[2:]
        elif line.startswith("T hang"):
            hang = True
        elif line.startswith("I "):
            res["inconclusive"] = line[2:]
        elif line.startswith("E done"):
            done = True
    if r["late"]:
        res["inconclusive"] = "time limit of the run reached: " + r["cmd"]
    elif res["inconclusive"]:
        pass
    elif hang:
        res["violations"].append(dict(kind="hang", detail="one case did not finish", at=where or ""))
    elif done and r["rc"] in (0, 10):
        pass
    else:
        kind, detail = classify_crash(r)
        res["violations"].append(dict(kind=kind, detail=detail, at=where or ""))
        if where is None and kind == "crash":
            res["inconclusive"] = "harness died without saying where: rc=%s %s" % (r["rc"], r["err"][-500:])
            res["violations"].pop()
    for v in res["violations"]:
        v["harness"], v["variant"] = job["harness"], job["variant"]
    return res


def at_args(at):
    return dict(kv.split("=", 1) for kv in at.split() if "=" in kv)


# ---- known findings --------------------------------------------------------------------------------
def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    keep = "--keep" in argv
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    check = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    os.chmod(tmp, 0o755)
    try:
        return run_check(pid, check, tier, seed, tmp, t0)
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


def run_check(pid, check, tier, seed, tmp, t0):
    jobs = check["jobs"](tier) if callable(check["jobs"]) else check["jobs"]
    kinds = set(check["kinds"])
    viol, counters, samples, distinct, problems = [], {}, [], set(), []
    exes = {}
    needed = sorted({(j["harness"], j["variant"]) for j in jobs})
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for (h, v), (exe, bad) in zip(needed, ex.map(lambda hv: build(hv[0], hv[1], tmp), needed)):
            exes[h, v] = exe
            if bad:
                viol.append(dict(bad, harness=h, variant=v)); exes[h, v] = None
    t_build = time.time() - t0
    work = []
    for j in jobs:
        if not exes[j["harness"], j["variant"]]:
            continue
        w = j.get("workers", 4)
        for k in range(w):
            a = dict(j.get("args", {}))
            a.update(seed=seed, first=k, stride=w)
            work.append((j, a))
    slots = list(range(NCPU))
    import queue
    q = queue.Queue()
    for s in slots:
        q.put(s)
    limit = 3600 if tier == "thorough" else 420

    def go(item):
        j, a = item
        cpu = q.get()
        try:
            r = run_one(exes[j["harness"], j["variant"]], a, cpu, limit, tmp)
            res = parse(r, j)
            hangs = [v for v in res["violations"] if v["kind"] == "hang"]
            if hangs and hangs[0]["at"]:        # a wall-clock verdict needs a second opinion
                b = dict(a); b.update(at_args(hangs[0]["at"])); b["watchdog"] = 120
                b.setdefault("n", 1)
                res2 = parse(run_one(exes[j["harness"], j["variant"]], b, cpu, 200, tmp), j)
                if not [v for v in res2["violations"]]:
                    res["violations"] = [v for v in res["violations"] if v["kind"] != "hang"]
                    res["inconclusive"] = "a case exceeded its time once and not again: " + hangs[0]["at"]
            elif res["inconclusive"]:
                res = parse(run_one(exes[j["harness"], j["variant"]], a, cpu, limit, tmp), j)
            return res
        finally:
            q.put(cpu)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(go, work):
            viol += res["violations"]
            for k, n in res["counters"].items():
                counters[k] = counters.get(k, 0) + n
            samples += res["samples"]; distinct |= res["distinct"]
            if res["inconclusive"]:
                problems.append(res["inconclusive"])
    for extra in check.get("extra", []):
        try:
            e = extra(tier, seed, tmp, REPO)
        except Exception as x:      # an error of the check, not a verdict
            raise HarnessError("extra step failed: %r" % x)
        viol += e.get("violations", []); samples += e.get("samples", []); distinct |= set(e.get("distinct", []))
        for k, n in e.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + n

    known = known_findings(pid)
    mine, foreign, listed = [], [], []
    for v in viol:
        if v["kind"] not in kinds and v["kind"] not in FATAL and not v["kind"].startswith(("asan-", "tsan-")):
            foreign.append(v)
        elif any(k == v["kind"] and re.search(m, v["detail"]) for k, m in known):
            listed.append(v)
        else:
            mine.append(v)
    for k, m in known:
        print("KNOWN-FINDING: property=%s kind=%s %s" % (pid, k, m))
    evaluations = sum(n for k, n in counters.items() if k == "iterations")
    ev = dict(property=pid, tier=tier, seed=seed, level=check.get("level", "exploration"),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=check["rule"],
                            samples=samples[:4] or ["none"], observed=counters, build_s=round(t_build, 1),
                            builds=["%s (%s)" % (h, v) for h, v in needed]),
              assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(mine))
    if foreign:
        ev["coverage"]["reported_for_other_properties"] = sorted({v["kind"] for v in foreign})
    if problems:
        ev["coverage"]["inconclusive"] = problems[:5]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d violations (%d for other properties), build %.1fs, total %.1fs" %
          (pid, tier, seed, evaluations, len(distinct), len(mine), len(foreign), t_build, time.time() - t0))
    if mine:
        rp = os.path.join(HERE, "evidence", "replay"); os.makedirs(rp, exist_ok=True)
        seen = set()
        for v in mine:
            if v["kind"] in seen:
                continue
            seen.add(v["kind"])
            path = os.path.join(rp, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9-]", "_", v["kind"])))
            with open(path, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1)
            print("  %s [%s/%s] %s\n    at: %s" % (v["kind"], v.get("harness"), v.get("variant"), v["detail"][:700], v["at"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems[:3]:
            print("INCONCLUSIVE: " + p[:600])
        return 2
    if evaluations < check.get("min_cases", 1) or len(distinct) < check.get("min_distinct", 1):
        print("ERROR: the run observed too little (%d cases, %d distinct)" % (evaluations, len(distinct)))
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1)[:4000])
    if d.get("harness") not in HARNESSES or d["kind"] == "does-not-compile":
        return 1
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        exe, bad = build(d["harness"], d["variant"], tmp)
        if bad:
            print(bad); return 1
        a = at_args(d["at"])
        r = run_one(exe, a, 0, 300, tmp)
        print(r["out"][-6000:]); print(r["err"][:6000])
        v = parse(r, dict(harness=d["harness"], variant=d["variant"]))["violations"]
        print("reproduced: %s" % ("yes" if v else "no"))
        return 1 if v else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
