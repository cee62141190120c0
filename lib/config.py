SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
# outlined checks: several times faster to compile
CASAN = ["-fsanitize=address", "-mllvm", "-asan-instrumentation-with-call-threshold=0"]
CTL = ["-DVS_CONTROLLED"]
VARIANTS = {
    # controlled scheduler
    "gasan": dict(cxx=["g++", "-O0"] + SAN + CTL, controlled=True, fallback="nasan"),
    "casan": dict(cxx=["clang++", "-O1"] + CASAN + CTL, controlled=True, fallback="nasan"),
    "ctsan": dict(cxx=["clang++", "-O1", "-fsanitize=thread", "-DVS_TSAN"] + CTL, link=["clang", "-fsanitize=thread"], controlled=True, fallback="ntsan"),
    "plain": dict(cxx=["g++", "-O2", "-DNDEBUG"] + CTL, controlled=True, fallback="nplain"),
    "cplain": dict(cxx=["clang++", "-O2"] + CTL, controlled=True, fallback="nplain"),
    # real threads, real time
    "nasan": dict(cxx=["clang++", "-O0"] + SAN),
    "ngasan": dict(cxx=["g++", "-O0"] + SAN),
    "ntsan": dict(cxx=["clang++", "-O1", "-fsanitize=thread", "-DVS_TSAN"], link=["clang", "-fsanitize=thread"]),
    "nplain": dict(cxx=["g++", "-O2", "-DNDEBUG"]),
    "ncplain": dict(cxx=["clang++", "-O2"]),
}

MT_RULE = ("Each case is a randomly generated workload (threads, submissions, payloads, faults) run under a randomly chosen schedule "
           "(random walk, PCT priorities or run-to-block; spurious wakeups) of the controlled scheduler, or natively under sanitizers. "
           "A case is non-trivial if it had at least two context switches; distinct = different hash of (scenario, schedule decisions, observed outcome).")
A_MT = ["interleavings are explored at the granularity of atomic/mutex/condvar/thread operations under sequential consistency; weaker orderings are covered only through ThreadSanitizer's happens-before analysis",
        "libstdc++, the compilers and the sanitizer runtimes are trusted"]


def mt(drv, scale=1.0, **kw):
    s = scale
    runs = [(drv, "gasan", int(80000 * s), int(1500000 * s)), (drv, "ctsan", int(80000 * s), int(1500000 * s)),
            (drv, "casan", int(32000 * s), int(800000 * s)),
            (drv, "nasan", int(12000 * s), int(200000 * s)), (drv, "ntsan", int(12000 * s), int(200000 * s))]
    d = dict(runs=runs, rule=MT_RULE, assumptions=A_MT, min_distinct=200)
    d.update(kw)
    return d


SEQ_RULE = ("Each case is a randomly generated program/history interpreted by coroutines of the real library and compared, event by event, with an "
            "explicit reference model, under sanitizers and object/heap accounting. Non-trivial = the case met the scenario's activity threshold "
            "(something was nested, thrown, moved or resumed, not just an empty program); distinct = different hash of (scenario, everything observed).")
A_SEQ = ["programs are bounded in size (drv_gen, drv_chan, drv_mem: tens of coroutines, hundreds of events per case; drv_big_*: thousands)",
         "libstdc++, the compilers and the sanitizer runtimes are trusted"]


def seq(*drvs, scale=1.0, **kw):
    s = scale / len(drvs)
    runs = []
    for d in drvs:
        runs += [(d, "gasan", int(300000 * s), int(8000000 * s)), (d, "casan", int(300000 * s), int(8000000 * s)),
                 (d, "plain", int(600000 * s), int(10000000 * s)), (d, "cplain", 0, int(10000000 * s))]
    d = dict(runs=runs, rule=SEQ_RULE, assumptions=A_SEQ, min_distinct=200)
    d.update(kw)
    return d


BIG_RULE = (" The drv_big_* drivers generate workloads whose sizes are log-uniform up to thousands (nesting depth, waiters, tasks, nodes, values of 4 kB).")


def big_seq(drv, p, scale=1.0):
    p["runs"] += [(drv, "casan", int(1000 * scale), int(20000 * scale)), (drv, "plain", int(1000 * scale), int(30000 * scale)), (drv, "cplain", 0, int(30000 * scale))]
    p["rule"] += BIG_RULE
    return p


def big_mt(drv, p, scale=1.0):
    p["runs"] += [(drv, "casan", int(1200 * scale), int(24000 * scale)), (drv, "ctsan", int(1200 * scale), int(24000 * scale)),
                  (drv, "ntsan", int(320 * scale), int(6000 * scale)), (drv, "nasan", 0, int(6000 * scale)), (drv, "cplain", 0, int(40000 * scale))]
    p["rule"] += BIG_RULE
    return p


PROPS = {
    "C01": big_seq("drv_big_gen", seq("drv_gen")),
    "C02": big_seq("drv_big_gen", seq("drv_gen")),
    "C03": big_seq("drv_big_gen", seq("drv_gen")),
    "C04": big_seq("drv_big_gen", seq("drv_gen", "drv_chan")),
    "C05": big_mt("drv_big_gen", mt("drv_chan")),
    "C06": big_mt("drv_big_gen", mt("drv_chan")),
    "C07": big_seq("drv_big_gen", seq("drv_gen")),
    "C08": big_mt("drv_big_tree", mt("drv_task")),
    "C09": big_mt("drv_big_tree", mt("drv_task")),
    "C10": big_mt("drv_big_task", mt("drv_async")),
    "C11": big_mt("drv_big_task", mt("drv_async")),
    "C12": big_mt("drv_big_sync", mt("drv_pool")),
    "C13": big_mt("drv_big_sync", mt("drv_pool")),
    "C14": big_mt("drv_big_sync", mt("drv_pool")),
    "C15": big_mt("drv_big_sync", mt("drv_pool")),
    "C16": big_mt("drv_big_sync", mt("drv_sync")),
    "C17": big_mt("drv_big_sync", mt("drv_sync")),
    "C18": big_mt("drv_big_events", mt("drv_sync")),
    "C19": big_mt("drv_big_tree", big_mt("drv_big_task", mt("drv_comb")), 0.5),
    "C20": big_mt("drv_big_task", mt("drv_comb")),
    "C21": big_mt("drv_big_mem", mt("drv_mem")),
    "C22": big_seq("drv_big_mem", seq("drv_mem", scale=0.2), 4),
    "C23": big_mt("drv_big_sync", mt("drv_sync")),
    "C25": big_mt("drv_big_sync", mt("drv_pool")),
    "C26": big_mt("drv_big_mem", mt("drv_pool"), 2),
    "C24": dict(runs=[("drv_depth", "cplain", 4000, 60000), ("drv_depth", "casan", 800, 12000)],
                rule="Each case runs a loop of, or a chain nested to, 4000 to 20000 coroutines (generators, channels, tasks, combinators, self destroying coroutines, or mixes) while every body, consumer and awaiting coroutine reports its stack address; or times values at two nesting depths. "
                     "Every case is non-trivial; distinct = different hash of (scenario, sizes, values and marks observed).",
                assumptions=["clang builds only: clang guarantees the symmetric transfer at every optimisation level, g++ 13 does it only with optimisation",
                             "growth is recognised from 40 kB on, at least 10 bytes per transfer over 4000 transfers",
                             "time is thread CPU time of the best of 8 batches, reported only when 60 times slower at depth 5000+ than at depth 4, in four repeated measurements"],
                min_distinct=100),
}
# 255 events, the limit: takes minutes to compile
PROPS["C18"]["runs"] += [("drv_wide_events", "nplain", 0, 3000), ("drv_wide_events", "ntsan", 0, 1000), ("drv_wide_events", "cplain", 0, 3000)]
