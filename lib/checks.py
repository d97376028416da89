"""What each check builds, runs and watches for."""
from config import config
from constant import constant

COMMON = ["-g", "-ftrivial-auto-var-init=pattern", "-O1", "-fno-omit-frame-pointer", "-Wno-deprecated-declarations", "-static-libstdc++",
          "-D_GLIBCXX_EXTERN_TEMPLATE=0"]   # strings and streams are compiled, and watched, with the harness
VARIANTS = {
    "asan": dict(flags=["-std=c++20"] + COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan": dict(flags=["-std=c++20"] + COMMON + ["-fsanitize=thread", "-Wno-tsan"], tsan=True),
    # the branches for older language versions, and (C++20 only) the additional overloads for Unicode strings
    "asan14": dict(flags=["-std=c++14"] + COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "tsan14": dict(flags=["-std=c++14"] + COMMON + ["-fsanitize=thread", "-Wno-tsan"], tsan=True),
    "asanu": dict(flags=["-std=c++20", "-DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"] + COMMON + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
}
DS = dict(c=["lib/dsched.c"], wrap=["dsched.wrap"])
HARNESSES = {
    "pool": dict(DS, src="h/pool.cpp"),
    "cache": dict(src="h/cache.cpp"),
    "cachemt": dict(DS, src="h/cachemt.cpp"),
    "unicode": dict(src="h/unicode.cpp"),
    "seq_s": dict(src="h/seq.cpp", flags=["-DPART=1"]),
    "seq_a": dict(src="h/seq.cpp", flags=["-DPART=2"]),
    "seq_k": dict(src="h/seq.cpp", flags=["-DPART=4"]),
    "text_p": dict(src="h/text.cpp", flags=["-DPART=1"]),
    "text_i": dict(src="h/text.cpp", flags=["-DPART=2"]),
    "text_v": dict(src="h/text.cpp", flags=["-DPART=4"]),
    "text_m": dict(src="h/text.cpp", flags=["-DPART=8"]),
    "text_mn": dict(src="h/text.cpp", flags=["-DPART=8", "-DPLUTO_LOCALE_NO_STATIC=1"]),
    "misc_h": dict(src="h/misc.cpp", flags=["-DPART=1"]),
    "misc_w0": dict(src="h/misc.cpp", flags=["-DPART=2", "-DCLOCK=0"]),
    "misc_w1": dict(src="h/misc.cpp", flags=["-DPART=2", "-DCLOCK=1"]),
    "misc_w2": dict(src="h/misc.cpp", flags=["-DPART=2", "-DCLOCK=2"]),
    "misc_w3": dict(src="h/misc.cpp", flags=["-DPART=2", "-DCLOCK=3"]),
    "misc_f": dict(src="h/misc.cpp", flags=["-DPART=4"]),
    "multi": dict(src="h/multi.cpp", c=["lib/dsched.c", "lib/fswrap.c"], wrap=["dsched.wrap", "fswrap.wrap"]),
    "logger": dict(src="h/logger.cpp", c=["lib/dsched.c", "lib/fswrap.c"], wrap=["dsched.wrap", "fswrap.wrap"]),
}
# kinds every check reports: the run itself went wrong, so no property of the component can be relied on
FATAL = {"race", "ubsan", "terminate", "crash", "assertion", "hang", "deadlock", "livelock", "use-after-destroy",
         "lock-misuse", "does-not-compile", "thread-leak"}

POOL_RULE = ("a case is one generated client program (threads, tasks, nested submissions, resizes, waits) run against the real pool under one "
             "seeded schedule of the controlled scheduler; distinct means a different sequence of scheduling decisions")
POOL_ASSUME = ["the controlled scheduler switches threads at synchronisation operations, atomic accesses (race-detector build) and clock reads only",
               "time is simulated; the operating system's mutexes, condition variables and threads behave as specified"]


def pool(mix, n):
    def jobs(tier):
        k = n * (25 if tier == "thorough" else 1)
        return [dict(harness="pool", variant="asan", workers=4, args=dict(n=k, mix=mix)),
                dict(harness="pool", variant="tsan", workers=4, args=dict(n=k, mix=mix))]
    return jobs


def P(mix, n, kinds):
    return dict(jobs=pool(mix, n), kinds=kinds, rule=POOL_RULE, assumptions=POOL_ASSUME, min_distinct=100,
                technique="controlled-schedule execution of the real pool under ASan/UBSan and TSan, event-log oracle",
                note="held on tens of thousands of seeded schedules of generated client programs (random, sticky, priority-based and starving strategies, spurious wake-ups, simulated time); deadlocks and hangs are decided on logical state, not on wall-clock time")


def multi(tier):
    k = 25 if tier == "thorough" else 1
    return [dict(harness="multi", variant=v, workers=w, args=dict(n=n * k)) for v, w, n in (("asan", 4, 1600), ("tsan", 4, 1600), ("asan14", 2, 400))]


LOG_RULE = ("a case is one generated logging program (threads, files, entry points, messages, configuration changes, faults or a crash point) run against the "
            "real logger under one seeded schedule, its files compared with a model; distinct means a different sequence of scheduling decisions (or crash point)")
LOG_ASSUME = ["the controlled scheduler switches threads at synchronisation operations, atomic accesses (race-detector build), clock reads, file-system calls and inside writer callbacks",
              "a crash is the death of the process at a file-system call (before, after or half-way through it); loss of power with unsynced pages is not modelled"]


def L(mix, n, kinds, crash=0):
    def jobs(tier):
        k = 25 if tier == "thorough" else 1
        j = [dict(harness="logger", variant=v, workers=4, args=dict(n=n * k, mix=mix)) for v in ("asan", "tsan")]
        j.append(dict(harness="logger", variant="asan14", workers=2, args=dict(n=max(1, n * k // 4), mix=mix)))
        if crash:
            j.append(dict(harness="logger", variant="asan", workers=3, args=dict(n=crash * k, mix="c")))
        return j
    return dict(jobs=jobs, kinds=kinds, rule=LOG_RULE, assumptions=LOG_ASSUME, min_distinct=100,
                technique="controlled-schedule execution of the real logger under ASan/UBSan and TSan, with observed and fault-injected file-system calls; file trees and event logs checked against a model",
                note="held on thousands of seeded schedules of generated logging programs; every file tree is compared exactly with a model after each period of rest and at the end")


def pure(*plan):
    """plan: (harness, mix, cases per worker, workers, thorough factor); some of the cases are also run by a C++14 build
    and, where there are additional overloads for Unicode strings, by a build with these"""
    def jobs(tier):
        out = []
        for h, m, n, w, f in plan:
            n *= f if tier == "thorough" else 1
            out.append(dict(harness=h, variant="asan", workers=w, args=dict(n=n, mix=m)))
            if m not in "ex":
                out.append(dict(harness=h, variant="asan14", workers=2, args=dict(n=max(1, n // 4), mix=m)))
                if h in ("seq_s", "text_p", "text_i", "text_v"):
                    out.append(dict(harness=h, variant="asanu", workers=2, args=dict(n=max(1, n // 4), mix=m)))
        return out
    return jobs


def D(kinds, rule, note, *plan, **more):
    """a check of a deterministic component: generated and enumerated inputs against a reference model, under ASan and UBSan"""
    c = dict(jobs=pure(*plan), kinds=kinds, rule=rule, min_distinct=100, note=note,
             technique="the real code run on generated and enumerated inputs under ASan/UBSan, every result compared with an independent reference model",
             assumptions=["the reference model in the harness states the documented behaviour", "only inputs generated or enumerated as described were observed"])
    c.update(more)
    return c


def cachemt(tier):
    k = 9000 * (25 if tier == "thorough" else 1)
    return [dict(harness="cachemt", variant=v, workers=w, args=dict(n=k * w // 4)) for v, w in (("asan", 4), ("tsan", 4), ("asan14", 1), ("tsan14", 1))]


CACHE_RULE = "a case is one sequence of operations on caches of several key/value/hash types compared with a list model after every operation; distinct means a different sequence of operations"
UNI_RULE = "a case is one text (sequence of code units) taken through every converter for its encoding and every error policy; distinct means a different text"
SEQ_RULE = "a case is one pair of sequences (or container and element, or container and index pairs) taken through every overload and iterator category; distinct means different contents"
TEXT_RULE = "a case is one generated or enumerated text (or value, or character in a locale) taken through every overload and character type; distinct means a different input"
HELP_RULE = "a case is one generated input or history taken through every overload; distinct means a different input or history"

CHECKS = {
    "I01": dict(jobs=multi, kinds=["task-count", "early", "wrong-pool", "sync", "foreign-entry", "cache", "config", "header", "content", "order", "duplicate-entry", "level-filter", "lost-entry", "discard-count", "extra-file", "touched-outside"],
                rule="a case is one generated program with several pools, loggers, caches, guards and stopwatches alive at once, run under one seeded schedule; distinct means a different sequence of scheduling decisions",
                assumptions=LOG_ASSUME[:1], min_distinct=100,
                technique="controlled-schedule execution of several real objects at once under ASan/UBSan and TSan, event log and file trees checked per object",
                note="every event, file and value read is attributed to the object it belongs to, and each object's share is checked on its own"),
    "C01": D(["model"], CACHE_RULE, "every return value, the size, the order of eviction and the contents compared with a textbook model; all sequences of four operations on a tiny cache are enumerated",
             ("cache", "m", 5000, 4, 25), ("cache", "x", 4000, 4, 8)),
    "C02": dict(jobs=cachemt, kinds=["not-linearizable", "lock-kept"], min_distinct=100,
                rule="a case is one concurrent history of 2-4 threads on a safe_lru_cache under one seeded schedule, checked for linearizability against the sequential model; distinct means a different sequence of scheduling decisions",
                assumptions=POOL_ASSUME[:1], technique="controlled-schedule execution under ASan/UBSan and TSan with an offline linearizability checker over the recorded history",
                note="every recorded history of the real cache has a sequential explanation that respects real-time order; data races are watched by ThreadSanitizer"),
    "C03": D(["copy", "exception", "leak"], CACHE_RULE, "copies compared with a model after diverging operations; failures (copying, hashing, comparing, allocating) injected at every operation",
             ("cache", "c", 6000, 4, 25), ("cache", "t", 6000, 4, 25)),
    "U01": D(["convert", "roundtrip"], UNI_RULE, "every Unicode scalar value alone and between neighbours in all three encodings, and generated texts, through every converter",
             ("unicode", "e", 1, 6, 1), ("unicode", "v", 700, 4, 25)),
    "U02": D(["malformed", "ill-formed-output"], UNI_RULE, "all one- and two-byte sequences, boundary three- and four-byte sequences, every surrogate and generated damage compared with a decoder of the documented replacement policy",
             ("unicode", "b", 100, 4, 25), ("unicode", "d", 5000, 4, 25)),
    "U03": D(["append", "forms-disagree"], UNI_RULE, "string, pointer, iterator and appending forms of every conversion compared with each other on valid and damaged texts",
             ("unicode", "v", 600, 4, 25), ("unicode", "d", 2500, 4, 25)),
    "S03": D(["sequence", "element", "out-of-range"], SEQ_RULE, "every overload, container kind and iterator category, including non-commutative predicates; iterators check that they are never used outside their range",
             ("seq_s", "s", 4000, 8, 25)),
    "K01": D(["slice"], SEQ_RULE, "all pairs of boundary and random indices on every container kind compared with Python's rule", ("seq_k", "k", 150, 8, 25)),
    "K02": D(["algorithm", "element"], SEQ_RULE, "every algorithm of container.hpp on vector, deque and list compared with its naive definition", ("seq_a", "a", 5000, 8, 25)),
    "S01": D(["text"], TEXT_RULE, "split, join, replace and their relatives on narrow, wide and (C++20) Unicode strings, pointers and single-pass ranges, compared with definitions written from the documentation",
             ("text_p", "p", 4000, 8, 25)),
    "S02": D(["insensitive"], TEXT_RULE, "every case-insensitive operation compared with the plain operation on the upper-cased text, in every installed locale",
             ("text_i", "i", 6000, 8, 25)),
    "S04": D(["radix"], TEXT_RULE, "all 8- and 16-bit values and boundary and random 32- and 64-bit values of every integer type, prefixed and unprefixed, compared with digits computed independently",
             ("text_v", "b", 300, 8, 25)),
    "S05": D(["value"], TEXT_RULE, "values of every arithmetic type, character and string round-tripped; damaged text extracted, with uninitialised locals filled with a pattern",
             ("text_v", "t", 500, 8, 25)),
    "S06": D(["case"], TEXT_RULE, "every character alone in every locale, and generated text, compared with the C library's per-character functions",
             ("text_i", "c", 2500, 8, 25), ("text_i", "e", 1, 8, 1)),
    "M01": D(["range"], HELP_RULE, "ranges over small grids and boundary values of several types and mixed types, every relation compared with interval algebra",
             ("misc_h", "r", 4000, 8, 25)),
    "M02": D(["stopwatch"], HELP_RULE, "generated histories of start, stop, reset, lap and reads on the real clock and on three simulated clocks with different periods, compared with exact arithmetic",
             *[("misc_w%d" % k, "w", 3000, 4, 25) for k in range(4)]),
    "M03": D(["scope"], HELP_RULE, "generated nests of scopes left normally, by return, or by an exception, also while other exceptions are in flight, with tasks that add tasks",
             ("misc_h", "s", 20000, 8, 25)),
    "M04": D(["value-helper"], HELP_RULE, "all pairs of boundary values and random values of every arithmetic type and of types with observable identity",
             ("misc_h", "v", 4000, 8, 25)),
    "M05": dict(jobs=lambda tier: [dict(harness="misc_f", variant=v, workers=w, args=dict(n=w * 100 * (25 if tier == "thorough" else 1), mix="f")) for v, w in (("asan", 4), ("tsan", 4), ("asan14", 1))],
                kinds=["platform"], rule=HELP_RULE, min_distinct=100, assumptions=["the operating system's gettid, getpid, localtime_r and gmtime_r tell the truth"],
                technique="the real helpers called from many threads and forked children under ASan/UBSan and TSan, results compared with system calls made directly",
                note="observed on real threads, processes and times in many time zones"),
    "M06": D(["comparator"], HELP_RULE, "laws of strict weak orders and equivalences checked over all narrow character pairs and triples of generated strings, in every locale and after the locale's owner is gone",
             ("text_m", "m", 300, 4, 25), ("text_mn", "m", 300, 4, 25)),

    "M07": dict(jobs=[], extra=[config], kinds=["configurations-differ", "macro", "linkage"], min_distinct=100,
                rule="a case is one build of a header, a program of several translation units, a configuration macro or a digest program; distinct means a different header, language version, compiler, options, macro or result",
                assumptions=["gcc 13 and clang 18 with libstdc++ on Linux; Windows and macOS branches are not built"],
                technique="the same programs built in every configuration and run (some under ASan/UBSan), their outputs compared with each other and macro effects asserted at run time",
                note="each header alone with two compilers and four language versions; about 6000 results compared between builds"),

    "M08": dict(jobs=[], extra=[constant], kinds=["not-a-constant", "constant-differs"], min_distinct=100,
                rule="a case is one generated argument set taken through one group of operations twice, by the compiler and by the program; distinct means a different group, character type or argument",
                assumptions=["gcc 13 and clang 18 with libstdc++; the compilers' evaluators of constant expressions reject undefined behaviour as the standard asks"],
                technique="the compilers' interpreters of constant expressions (which reject undefined behaviour) run the real code on generated arguments; results compared with the same calls at run time and between compilers",
                note="hundreds of generated calls of every operation that is declared usable at compile time, over all five character types"),

    "P01": P("ggrgegd", 4500, ["run-twice", "run-unsubmitted", "not-on-worker", "lost-task", "stuck-task", "scheduled-not-run", "run-after-dtor"]),
    "P02": P("pppgp", 5500, ["priority", "fifo", "priority-constants"]),
    "P03": P("yyypye", 6000, ["sync-early", "visibility-sync", "sync-hang", "run-twice", "not-on-worker", "lost-task", "stuck-task", "priority", "fifo"]),
    "P04": P("ssszg", 3500, ["early", "scheduled-not-run", "schedule-order", "run-twice", "size-exact", "lost-task"]),
    "P05": P("wwwg", 6000, ["wait-all-early", "wait-queue-early", "wait-hang", "visibility-wait"]),
    "P06": P("rrrg", 5000, ["workers-converge", "workers-spawn", "worker-unused", "concurrency", "surplus-worker-runs", "target-readback", "lost-task"]),
    "P07": P("ddde", 6000, ["incomplete-at-dtor", "unfinished-at-dtor", "run-after-dtor", "dtor-delayed", "run-twice", "early", "on-stop-readback"]),
    "P08": P("znnzrs", 3500, ["size-bounds", "size-exact", "workers-converge", "target-readback", "on-stop-readback"]),
    "P09": P("gpyswrdze", 4500, ["visibility-submit", "visibility-sync", "visibility-wait", "capture-lifetime", "lost-task", "stuck-task"]),
    "L01": L("gggdrx", 2600, ["lost-entry", "duplicate-entry", "foreign-entry", "order", "content", "extra-file", "touched-outside"]),
    "L02": L("v", 4000, ["level-filter", "macro-eval", "level-text", "lost-entry", "config-readback"]),
    "L03": L("b", 3000, ["discard-count", "overfull", "discard-not-full", "lost-entry", "duplicate-entry", "content"]),
    "L04": L("r", 2600, ["rotation", "header-count", "extra-file", "touched-outside", "lost-entry", "duplicate-entry", "order", "content", "foreign-entry"]),
    "L05": L("ddg", 3600, ["lost-entry", "write-after-dtor", "duplicate-entry", "content"]),
    "L06": L("llg", 3000, ["flush-stalled"]),
    "L07": L("f", 1500, ["fault-lost", "fault-stalled", "crash-sequence", "lost-entry", "duplicate-entry", "order", "foreign-entry", "content", "rotation", "header-count", "extra-file"], crash=300),
    "L08": L("mmt", 3500, ["message", "metadata", "layout", "header-layout", "content", "lost-entry"]),
    "L09": L("xxxg", 3000, ["config-readback", "writer-mix", "lost-entry", "duplicate-entry", "order", "foreign-entry", "content", "discard-count"]),
}
