"""M08: constant evaluation. Generates programs whose cases are evaluated once by the compiler (whose evaluator interprets the
code and rejects undefined behaviour) and once by the running program, and compares the two."""
import concurrent.futures, os, random, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
UNITS = {"char": (8, True), "char8_t": (8, False), "char16_t": (16, False), "char32_t": (32, False), "wchar_t": (32, True)}
OPS = ["search", "change", "container", "container_change", "string_search", "pieces", "replace", "unicode", "unicode", "radix", "helpers"]
BUILDS = [("g++", 20, []), ("clang++", 20, []), ("g++", 23, ["-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"]), ("clang++", 23, ["-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"])]


def sh(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=ENV, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, -99, "", "did not finish within %d s" % timeout)


def fit(v, unit):
    bits, signed = UNITS[unit]
    v &= (1 << bits) - 1
    return v - (1 << bits) if signed and v >> (bits - 1) else v


def lit(v):
    return "(-9223372036854775807LL - 1)" if v == -2**63 else "%dLL" % v if abs(v) > 2**31 - 2 else str(v)


def chars(r, unit, op, n):
    bits = UNITS[unit][0]
    if op != "unicode":
        alphabet = r.choice(["ab", "abc", "a,", "a ,", "aA\0", "ab\u00e9", "\0\1a"])
        return [fit(ord(r.choice(alphabet)) if r.random() < .9 else r.getrandbits(bits), unit) for _ in range(n)]
    out = []
    while len(out) < n:
        cp = r.choice([r.randrange(0x80), r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000), 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF])
        if 0xD800 <= cp < 0xE000:
            cp = 0x20AC
        c = chr(cp)
        u = list(c.encode()) if bits == 8 else [int.from_bytes(c.encode("utf-16-le")[i:i + 2], "little") for i in range(0, len(c.encode("utf-16-le")), 2)] if bits == 16 else [cp]
        k = r.random()
        if k < .12:
            u = u[:-1]                                             # cut short
        elif k < .24:
            u = [r.choice([0xC0, 0xC1, 0xE0, 0xED, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF, 0x80, 0xBF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0xFFFFFFFF, 0x80000000, 0xD7FF, r.getrandbits(bits)])]
        elif k < .3 and u:
            u[r.randrange(len(u))] ^= 1 << r.randrange(bits)
        out += u
    return [fit(v, unit) for v in out[:n]]


def case(r, i):
    op = OPS[i % len(OPS)]
    unit = "char" if op == "radix" else r.choice(list(UNITS))
    a = chars(r, unit, op, r.choice([0, 1, 2, 3, 5, 8, 12, 16] if op != "unicode" else [1, 2, 3, 4, 6, 9, 12, 16]))
    if a and r.random() < .4:                                      # pieces of the first are more interesting than anything else
        k = r.randrange(len(a)); b = a[k:k + r.randrange(1, 5)]
    else:
        b = chars(r, unit, op, r.choice([0, 1, 1, 2, 3, 8]))
    c = chars(r, unit, op, r.choice([0, 1, 1, 2, 4]))
    if op == "radix":
        x, y = (r.choice([r.getrandbits(64) - 2**63, r.randrange(-300, 300), (1 << r.randrange(63)) - r.randrange(2), -(1 << r.randrange(64)), 2**63 - 1]) for _ in "xy")
    else:
        x, y = (r.choice([r.randrange(-6, 7), r.randrange(-20, 21), r.randrange(-2**62, 2**62), -2**62, 2**62]) for _ in "xy")
    br = lambda v: "{ " + ", ".join(map(lit, v)) + " }" if v else "{}"
    lits = [br(v) for v in (a, b, c)]
    if unit in ("char16_t", "char32_t"):
        lits = [re.sub(r"LL|(\d)(?=[ ,])", lambda m: (m.group(1) or "") + ("u" if m.group(1) else ""), v) for v in lits]
    return op, unit, "{ %s, %d, %s, %d, %s, %d, %s, %s }" % (lits[0], len(a), lits[1], len(b), lits[2], len(c), lit(x), lit(y))


def constant(tier, seed, tmp, repo):
    inc = os.path.join(repo, "include")
    viol, distinct, counters, samples = [], set(), {}, []
    ok = os.path.join(tmp, "const_sanity.cpp")
    open(ok, "w").write("#include <string>\n#include <vector>\n#include <filesystem>\n#include <thread>\nconstexpr std::size_t n = [] { std::string s(\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\"); std::vector<int> v{ 1, 2 }; return s.size() + v.size(); }();\nint main() { return n == 42 ? 0 : 1; }\n")
    for c in ("g++", "clang++"):
        r = sh([c, "-std=c++20", ok, "-o", os.path.join(tmp, "const_sanity")])
        if r.returncode:
            raise RuntimeError("%s cannot evaluate constant expressions: %s" % (c, r.stderr[-500:]))

    files, per = (40, 110) if tier == "thorough" else (4, 55)

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    sources = []
    for k in range(files):
        r = random.Random("constant %d %d" % (seed, k))
        cases = [case(r, i + k) for i in range(per)]
        src = '#include "%s"\n' % os.path.join(HERE, "h/constant.hpp")
        src += "".join("CASE(%d, %s, %s, %s)\n" % (i, op, unit, a) for i, (op, unit, a) in enumerate(cases))
        src += "MAIN(%s)\n" % " ".join("ENTRY(%d, %s, %s)" % (i, op, unit) for i, (op, unit, a) in enumerate(cases))
        p = os.path.join(tmp, "constant%d.cpp" % k)
        open(p, "w").write(src)
        sources.append((p, cases))

    def build(j):
        (p, cases), (c, s, opt) = j
        exe = "%s.%s.%d" % (p, c, s)
        cmd = [c, "-std=c++%d" % s, "-O1", "-g0", "-w", "-I" + inc] + (["-fconstexpr-ops-limit=200000000"] if c == "g++" else ["-fconstexpr-steps=20000000"]) + opt + [p, "-o", exe, "-lpthread"]
        r = sh(cmd)
        if r.returncode:
            return j, cmd, r, None
        r = sh([exe], timeout=120)
        os.unlink(exe)
        return j, cmd, None, r

    def bad(kind, detail, at, variant):
        viol.append(dict(kind=kind, detail=detail[:2500], at=at, harness="constant", variant=variant))

    results, fine = {}, set()
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for j, cmd, broken, ran in ex.map(build, [(s, b) for s in sources for b in BUILDS]):
            (p, cases), (c, s, opt) = j
            name = "%s -std=c++%d %s" % (c, s, " ".join(opt))
            count("builds")
            if broken is not None:
                if broken.returncode == -99:
                    raise RuntimeError("%s: %s" % (name, broken.stderr))
                err = broken.stderr
                m = re.search(r"%s:(\d+)" % re.escape(p), err)
                at = int(m.group(1)) - 2 if m else -1
                which = "case %d %s" % (at, cases[at]) if 0 <= at < len(cases) else ""
                if c == "clang++" and "non-constexpr function" in err and (p, s) in fine:
                    count("not_evaluable_by_clang")     # its libstdc++ lacks some constexpr members that g++ has
                    continue
                lines = [l for l in err.splitlines() if "error" in l or "note:" in l or "non-" in l]
                if repo not in err and "pluto" not in err:
                    raise RuntimeError("the constant harness does not build: " + err[-1500:])
                bad("not-a-constant", "%s: %s: %s" % (name, which, " // ".join(lines[:8])), " ".join(cmd), name)
                continue
            if c == "g++":
                fine.add((p, s))
            if ran.returncode or "E done" not in ran.stdout:
                bad("crash", "%s: rc=%s %s" % (name, ran.returncode, ran.stderr[-500:]), " ".join(cmd), name)
            for l in ran.stdout.splitlines():
                if not l.startswith("K "):
                    continue
                _, i, op, unit, k, r = l.split()
                count("iterations"); count("evaluations", 2); count("op_" + op)
                distinct.add("%s %s %s" % (op, unit, cases[int(i)][2]))
                if k != r:
                    bad("constant-differs", "%s: %s<%s>(%s): evaluated by the compiler %s, at run time %s" % (name, op, unit, cases[int(i)][2], k, r), " ".join(cmd), name)
                results.setdefault((p, i), {}).setdefault(k, []).append(name)
    for (p, i), v in results.items():
        if len(v) > 1:
            cs = dict((a, b) for a, b in sources)[p][int(i)]
            bad("constant-differs", "case %s: the builds disagree: %s" % (cs, v), p, "")
    for p, cases in sources[:1]:
        samples += [dict(case=" ".join(c)) for c in cases[:8]]
    return dict(violations=viol, samples=samples, distinct=sorted(distinct), counters=counters)
