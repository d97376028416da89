"""M07: the headers in every configuration. Builds and runs small programs; returns violations in the form run.py expects."""
import concurrent.futures, os, random, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
CXX = ("g++", "clang++")
STD = (14, 17, 20, 23)
MACROS = ["-DPLUTO_LOCALE_NO_STATIC=1", "-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"]


def sh(cmd, timeout=300, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=ENV, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, -1, "", "did not finish within %d s" % timeout)


def errors(r):
    e = [l for l in r.stderr.splitlines() if "error" in l or "multiple definition" in l or "undefined reference" in l]
    return (" // ".join(e[:5]) or r.stderr[-600:])[:1500]


def config(tier, seed, tmp, repo):
    inc = os.path.join(repo, "include")
    headers = ["pluto/" + f for f in sorted(os.listdir(os.path.join(inc, "pluto"))) if f.endswith(".hpp")] + ["pluto.hpp"]
    rng = random.Random(seed)
    viol, distinct, counters, samples = [], set(), {}, []
    # the compilers themselves must work, or nothing below means anything
    ok = os.path.join(tmp, "sanity.cpp")
    open(ok, "w").write("#include <string>\n#include <filesystem>\n#include <thread>\nint main() { return std::string(\"a\").size() == 1 ? 0 : 1; }\n")
    for c in CXX:
        r = sh([c, "-std=c++20", ok, "-o", os.path.join(tmp, "sanity")])
        if r.returncode:
            raise RuntimeError("%s does not work: %s" % (c, r.stderr[-500:]))

    def bad(kind, detail, at, variant=""):
        viol.append(dict(kind=kind, detail=detail[:2500], at=at, harness="configuration", variant=variant))

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    # 1. every header alone, first and twice
    def alone(j):
        h, c, s, opt = j
        cmd = [c, "-std=c++%d" % s, "-fsyntax-only", "-I" + inc] + opt + ["-x", "c++", "-"]
        return j, sh(cmd, input="#include <%s>\n#include <%s>\nint main() {}\n" % (h, h)), " ".join(cmd)
    jobs = [(h, c, s, []) for h in headers for c in CXX for s in STD]
    jobs += [(h, "g++", s, MACROS) for h in ("pluto.hpp", "pluto/string.hpp", "pluto/compare.hpp", "pluto/locale.hpp") for s in (14, 20)]

    # 2. several translation units of one program, including in different orders
    def many(k):
        c, s = CXX[k % 2], STD[(k // 2) % 4]
        d = os.path.join(tmp, "tu%d" % k); os.makedirs(d)
        n = 3
        for t in range(n):
            hs = headers[:]
            r = random.Random("%d %d %d" % (seed, k, t)); r.shuffle(hs)
            with open(os.path.join(d, "t%d.cpp" % t), "w") as f:
                f.write("".join("#include <%s>\n" % h for h in hs + hs[:4]))
                f.write("""
const void* singletons%d(int i) { return i == 0 ? static_cast<const void*>(&pluto::logger::instance()) : i == 1 ? static_cast<const void*>(&pluto::thread_pool::instance())
    : i == 2 ? static_cast<const void*>(&pluto::default_locale()) : i == 3 ? static_cast<const void*>(&pluto::c_locale()) : static_cast<const void*>(&pluto::system_locale()); }
std::string work%d() { std::string s{ "Ab" }; pluto::upper(s); return s + pluto::str(std::u16string(u"x")) + pluto::str(static_cast<int>(pluto::len(s))) + pluto::file_name("a/b") + pluto::log_level_to_c_str(pluto::log_level::info) + pluto::join(std::vector<std::string>{ "1", "2" }, std::string(",")) + pluto::hex(255); }
""" % (t, t))
        with open(os.path.join(d, "main.cpp"), "w") as f:
            f.write("#include <cstdio>\n#include <string>\n" + "".join("const void* singletons%d(int); std::string work%d();\n" % (t, t) for t in range(n)))
            f.write("int main() { int bad = 0; for (int i = 0; i < 5; ++i) { " + "".join("bad += singletons0(i) != singletons%d(i); " % t for t in range(n)) + "}\n")
            f.write("".join("bad += 16 * (work0() != work%d()); " % t for t in range(n)) + 'std::printf("%s %d\\n", work0().c_str(), bad); return bad != 0; }\n')
        exe = os.path.join(d, "a.out")
        cmd = [c, "-std=c++%d" % s, "-O%d" % (k % 3), "-I" + inc] + [os.path.join(d, "t%d.cpp" % t) for t in range(n)] + [os.path.join(d, "main.cpp"), "-o", exe, "-lpthread", "-lstdc++fs", "-ltbb"]
        r = sh(cmd)
        if r.returncode:
            return k, "does-not-compile", errors(r), " ".join(cmd)
        r = sh([exe], timeout=60)
        return k, ("linkage" if r.returncode else None), "rc=%s %s %s" % (r.returncode, r.stdout.strip(), r.stderr[-300:]), " ".join(cmd)

    # 3. the same operations everywhere
    if tier == "thorough":
        builds = [(c, s, o, m) for c in CXX for s in STD for o in ("-O0", "-O1", "-O2", "-O3", "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all") for m in ([], MACROS)]
    else:
        S = "-O1 -fsanitize=address,undefined -fno-sanitize-recover=all"
        builds = [("g++", 14, S, []), ("g++", 14, "-O2", MACROS), ("g++", 17, "-O0", []), ("g++", 20, "-O0", MACROS), ("g++", 23, "-O2", []),
                  ("clang++", 14, "-O2", []), ("clang++", 17, S, []), ("clang++", 20, "-O0", []), ("clang++", 23, "-O1", MACROS)]

    def digest(j):
        c, s, o, m = j
        d = tempfile.mkdtemp(dir=tmp); exe = os.path.join(d, "digest")
        order = ["<pluto.hpp>"]
        cmd = [c, "-std=c++%d" % s, "-g0", "-Wno-deprecated-declarations"] + o.split() + m + ["-DORDER=<pluto.hpp>", "-I" + inc, os.path.join(HERE, "h/digest.cpp"), "-o", exe, "-lpthread", "-lstdc++fs"]
        r = sh(cmd, timeout=500)
        if r.returncode:
            return j, "does-not-compile", errors(r), {}, " ".join(cmd)
        os.makedirs(os.path.join(d, "logs"))
        r = sh([exe, os.path.join(d, "logs")], timeout=120)
        os.unlink(exe)
        lines = dict(l[2:].split("\t", 1) for l in r.stdout.splitlines() if l.startswith("R ") and "\t" in l)
        if r.returncode or "E done" not in r.stdout:
            e = [l for l in r.stderr.splitlines() if "runtime error" in l or "ERROR" in l or repo + "/" in l or "terminate" in l][:8]
            return j, "ubsan" if "runtime error" in r.stderr else "asan-error" if "AddressSanitizer" in r.stderr else "crash", "rc=%s %s" % (r.returncode, " // ".join(e) or r.stderr[-500:]), lines, " ".join(cmd)
        return j, None, "", lines, " ".join(cmd)

    # 4. configuration macros
    cfgs = [(c, s, n) for n in range(10) for c, s in ((("g++", 14), ("g++", 20), ("clang++", 17), ("clang++", 23)) if tier == "thorough" or n == 0
            else (("g++", (14, 20)[(n + seed) % 2]), ("clang++", (17, 23)[(n + seed) % 2])))]

    def macro(j):
        c, s, n = j
        d = tempfile.mkdtemp(dir=tmp); exe = os.path.join(d, "config")
        extra = []
        if n == 8:      # 16-bit wchar_t: only where the wide string class can be instantiated in the program itself
            if c != "clang++":
                return j, [], None, ""
            extra = ["-fshort-wchar", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
        cmd = [c, "-std=c++%d" % s, "-O1", "-Wno-deprecated-declarations", "-DCFG=%d" % n] + extra + ["-I" + inc, os.path.join(HERE, "h/config.cpp"), "-o", exe, "-lpthread", "-lstdc++fs"]
        r = sh(cmd)
        if r.returncode:
            return j, [], ("does-not-compile", errors(r)), " ".join(cmd)
        if n == 8 and any(" U " in l and "wchar_t" in l for l in sh(["nm", "-CD", exe]).stdout.splitlines()):
            return j, [], None, ""
        os.makedirs(os.path.join(d, "logs"))
        r = sh([exe, os.path.join(d, "logs")], timeout=120)
        lines = [l[2:] for l in r.stdout.splitlines() if l.startswith("C ")]
        if r.returncode or "E done" not in r.stdout:
            return j, lines, ("crash", "rc=%s %s" % (r.returncode, r.stderr[-500:])), " ".join(cmd)
        return j, lines, None, " ".join(cmd)

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        fd = [ex.submit(digest, j) for j in builds]
        fm = [ex.submit(macro, j) for j in cfgs]
        ft = [ex.submit(many, k) for k in range(24 if tier == "thorough" else 4)]
        fa = [ex.submit(alone, j) for j in jobs]
        for f in fa:
            j, r, cmd = f.result()
            count("iterations"); count("headers_alone"); distinct.add("alone %s %s %s %s" % (j[0], j[1], j[2], len(j[3])))
            if r.returncode:
                bad("does-not-compile", "%s alone with %s -std=c++%d %s: %s" % (j[0], j[1], j[2], " ".join(j[3]), errors(r)), cmd)
        for f in ft:
            k, kind, detail, cmd = f.result()
            count("iterations"); count("programs_of_several_units"); distinct.add("units %d" % k)
            if kind:
                bad(kind, "several translation units: " + detail, cmd)
        for f in fm:
            (c, s, n), lines, b, cmd = f.result()
            if b:
                bad(b[0], "configuration %d with %s -std=c++%d: %s" % (n, c, s, b[1]), cmd)
            for l in lines:
                count("iterations"); count("macro_effects"); distinct.add("macro %s %d %d %s" % (c, s, n, l.split(" ok")[0]))
                if " BAD" in l:
                    bad("macro", "configuration %d with %s -std=c++%d: %s" % (n, c, s, l), cmd)
        ref, got = {}, []
        for f in fd:
            j, kind, detail, lines, cmd = f.result()
            name = "%s -std=c++%d %s %s" % (j[0], j[1], j[2], " ".join(j[3]))
            count("iterations"); count("digest_builds"); count("digest_results", len(lines)); distinct.add("digest " + name)
            if kind:
                bad(kind, "digest built as %s: %s" % (name, detail), cmd, name)
            got.append((j, name, lines, cmd))
        for j, name, lines, cmd in got:
            for k, v in lines.items():
                ref.setdefault(k, {}).setdefault(v, []).append(name)
        differs = [(k, v) for k, v in ref.items() if len(v) > 1]
        for k, v in differs[:5]:
            bad("configurations-differ", "%s: %s" % (k, " || ".join("%s => %s" % (" & ".join(n[:3]), val[:200]) for val, n in list(v.items())[:3])), k)
        # a result available in one build must be there in every build of at least that language version
        for j, name, lines, cmd in got:
            for j2, name2, lines2, _ in got:
                if j2[1] >= j[1] and lines and lines2:
                    missing = [k for k in lines if k not in lines2 and not lines[k].startswith("overload")]
                    if missing:
                        bad("configurations-differ", "%s has %d results that %s does not have, e.g. %s" % (name, len(missing), name2, missing[0]), missing[0])
        count("distinct_results", len(ref))
        samples.append(dict(header_jobs=len(jobs), digest_builds=[n for _, n, _, _ in got][:6], results=len(ref)))
    for k in list(ref)[:300]:
        distinct.add("result " + k)
    return dict(violations=viol, samples=samples, distinct=sorted(distinct), counters=counters)
