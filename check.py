#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the driver of the property from /repo's current include tree in several instrumented variants, runs the
workloads of the property in shards and turns what the monitors report into a verdict.
exit 0: held on everything explored.  exit 1: VIOLATION line.  exit 2: the check itself could not decide."""
import array, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from config import PROPS, VARIANTS  # noqa: E402

INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
COMMON = ["-std=c++20", "-g1", "-pthread", "-w"]
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------ build
def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".pyc"):
                    continue
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()[:16]


def run_cmd(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


class Builder:
    def __init__(self):
        self.dir = os.path.join(BUILD, tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "lib")]))
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        # keep only a few build trees
        try:
            ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime)
            for d in ds[:-4]:
                if time.time() - os.path.getmtime(d) > 3600:  # may be in use by a check that runs beside this one
                    shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass

    def vsched(self):
        out = os.path.join(self.dir, "vsched.o")
        with open(out + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                rc, o = run_cmd(["g++", "-std=c++20", "-O1", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-c",
                                 os.path.join(VERIF, "harness", "vsched.cpp"), "-o", out + ".tmp"], 300)
                if rc:
                    raise RuntimeError("vsched.cpp does not compile:\n" + o)
                os.rename(out + ".tmp", out)
        return out

    def driver(self, drv, variant):
        """returns (path or None, compiler output)"""
        v = VARIANTS[variant]
        out = os.path.join(self.dir, "%s.%s" % (drv, variant))
        with open(out + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(out):
                return out, ""
            vs = self.vsched()
            obj = out + ".o"
            try:
                rc, o = run_cmd(v["cxx"] + COMMON + INC + ["-c", os.path.join(VERIF, "harness", drv + ".cpp"), "-o", obj], 700)
                if rc == 0:
                    rc, o = run_cmd(v.get("link", v["cxx"]) + ["-pthread", obj, vs, "-o", out + ".tmp", "-lstdc++", "-lm"], 300)
            except subprocess.TimeoutExpired:
                return None, "compiler timeout"
            if rc:
                return None, o
            os.rename(out + ".tmp", out)
            os.unlink(obj)
            return out, ""


# ------------------------------------------------------------------------------------------ run
ENV = dict(os.environ)
ENV.update(
    ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:detect_container_overflow=1",
    UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
    TSAN_OPTIONS="halt_on_error=1:detect_deadlocks=0:exitcode=66:report_signal_unsafe=0:history_size=4:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
    LC_ALL="C",
)
ENV.pop("MALLOC_PERTURB_", None)


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return int(s[11]) + int(s[12])
    except (OSError, IndexError, ValueError):
        return None


def read_status(path):
    try:
        with open(path, "rb") as f:
            return json.loads(f.read().split(b"\n", 1)[0].decode())
    except (OSError, ValueError):
        return {}


CPUS = sorted(os.sched_getaffinity(0))


class Result:
    pass


def run_proc(cmd, status, out, cpu, limit, stall_idle, stall_busy):
    """runs cmd, watches progress through the status file. returns Result"""
    def pre():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu is not None:
            try:
                os.sched_setaffinity(0, cpu)
            except OSError:
                pass

    r = Result()
    r.cmd, r.hang, r.timeout = cmd, None, False
    with open(out, "wb") as fo:
        p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, preexec_fn=pre, env=ENV)
        start = last = time.time()
        last_idx, last_cpu, cpu_at_change = None, None, None
        idle_since = start
        step = 0.01
        while True:
            try:
                p.wait(step)
                break
            except subprocess.TimeoutExpired:
                pass
            step = min(0.25, step * 1.5)
            now = time.time()
            st = read_status(status).get("index")
            c = cpu_time(p.pid)
            if st != last_idx:
                last_idx, last = st, now
                idle_since = now
            if c != last_cpu:
                last_cpu, idle_since = c, now
            if now - last > stall_idle and now - idle_since > stall_idle:
                r.hang = "idle"
            elif now - last > stall_busy:
                r.hang = "busy"
            elif now - start > limit:
                r.timeout = True
            if r.hang or r.timeout or STOP:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
    r.rc = p.returncode
    with open(out, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 400000))
        r.out = f.read().decode(errors="replace")
    r.status = read_status(status)
    return r


STOP = False


def frame(report):
    """first frame inside the library (or the harness) of a sanitizer report, without line numbers"""
    best = None
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?)(?::\d+)*(?: \(.*)?$", report, re.M):
        if os.path.join(REPO, "include") in m.group(2) or "/kelcoro/" in m.group(2):
            return "%s@%s" % (re.sub(r"[<(].*", "", m.group(1)), os.path.basename(m.group(2)))
        if best is None and "/harness/" in m.group(2):
            best = os.path.basename(m.group(2))
    return best or "?"


def classify(r):
    """(kind, key, detail): kind in ok / violation / inconclusive / harness"""
    o = r.out
    if r.hang == "idle":
        return "hang", "hang", "no CPU time consumed and no progress"
    if r.hang == "busy":
        return "hang", "no-progress", "running without finishing the case"
    if r.timeout:
        return "inconclusive", "timeout", ""
    if r.rc == 0:
        if "@DONE" in o:
            return "ok", "", ""
        return "violation", "unexpected-exit", "the process ended before the workload did"
    m = re.search(r"^@FAIL key=(\S+) msg=(.*)$", o, re.M)
    if m:
        k = m.group(1)
        if k.startswith("harness-"):
            return "harness", k, m.group(2)
        return "violation", k, m.group(2)
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", o)
    if m:
        if m.group(1) in ("out-of-memory", "allocator"):
            return "inconclusive", "oom", ""
        i = m.start()
        return "violation", "asan:%s:%s" % (m.group(1), frame(o[i:])), o[i:i + 3000]
    m = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", o, re.M)
    if m:
        return "violation", "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(3))[:60].replace(" ", "-")), o[m.start():m.start() + 2000]
    m = re.search(r"(?:WARNING|ERROR): ThreadSanitizer: ([^\n(]+)", o)
    if m:
        i = m.start()
        return "violation", "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), frame(o[i:])), o[i:i + 5000]
    if r.rc is not None and r.rc < 0:
        if r.rc == -signal.SIGKILL:
            return "inconclusive", "killed", ""
        name = signal.Signals(-r.rc).name
        m = re.search(r"Assertion [`'](.*?)' failed|terminate called[^\n]*|pure virtual[^\n]*|free\(\)[^\n]*|malloc[^\n]*corrupt[^\n]*", o)
        what = re.sub(r"\s+", "-", m.group(0))[:80] if m else ""
        return "violation", "crash:%s:%s" % (name, what), o[-1500:]
    if r.rc == 9:
        return "harness", "no-scenario", o[-500:]
    return "violation", "exit-%s" % r.rc, o[-1500:]


# ------------------------------------------------------------------------------------------ findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def match_finding(prop, scenario, key):
    for f in known_findings().get("findings", []):
        if f["property"] == prop and f["key"] == key and f.get("scenario") in (None, scenario):
            return f
    return None


# ------------------------------------------------------------------------------------------ main
def main():
    global STOP
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale, only_variants, replay = 1.0, None, None
    while a:
        x = a.pop(0)
        if x == "--tier": tier = a.pop(0)
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--scale": scale = float(a.pop(0))
        elif x == "--variants": only_variants = a.pop(0).split(",")
        elif x == "--replay": replay = a.pop(0)
        else: raise SystemExit("unknown argument " + x)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    P = PROPS[prop]
    B = Builder()
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        if replay:
            return do_replay(B, replay, work)
        return do_check(prop, P, tier, seed, scale, only_variants, B, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_replay(B, path, work):
    with open(path) as f:
        rec = json.load(f)
    exe, o = B.driver(rec["driver"], rec["variant"])
    if not exe:
        log(o[-3000:])
        return 2
    rc = 0
    for name in ("case_args", "shard_args"):
        st = os.path.join(work, "st")
        r = run_proc([exe] + rec[name] + ["--status", st], st, os.path.join(work, "out"), None, 900, 30, 120)
        kind, key, detail = classify(r)
        print("%s: %s %s %s" % (name, kind, key, detail))
        if kind in ("violation", "hang"):
            rc = 1
            break
    return rc


def ill_formed(prop, tier, seed, P):
    probe = os.path.join(VERIF, "harness", "wf", prop + ".cpp")
    if not os.path.exists(probe):
        return None
    base = ["-std=c++20", "-fsyntax-only", "-w", "-I" + os.path.join(REPO, "include")]
    out = []
    for cxx in ("g++", "clang++"):
        rc, _ = run_cmd([cxx] + base + ["-x", "c++", "-include", os.path.join(REPO, "include", "kelcoro", "kelcoro.hpp"), "/dev/null"], 300)
        if rc:
            return None
        rc, o = run_cmd([cxx] + base + [probe], 300)
        if rc == 0 or " error: " not in o:
            return None
        out.append(o)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    path = os.path.join(VERIF, "replay", "%s-ill-formed.json" % prop)
    with open(path, "w") as f:
        json.dump({"property": prop, "key": "ill-formed", "program": probe, "output_tail": "\n".join(out)[-12000:],
                   "how": "g++ -std=c++20 -fsyntax-only -I/repo/include " + probe}, f, indent=1)
    print("%s ill-formed: %s" % (prop, [l for l in out[0].splitlines() if " error: " in l][0][:500]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def do_check(prop, P, tier, seed, scale, only_variants, B, work):
    global STOP
    runs = P["runs"]  # list of (driver, variant, quick count, thorough count)
    if only_variants:
        runs = [r for r in runs if r[1] in only_variants]
    else:
        runs = [r for r in runs if r[2 if tier == "quick" else 3] > 0]
    todo = sorted({(r[0], r[1]) for r in runs})
    built, build_log = {}, {}
    with ThreadPoolExecutor(max(2, len(CPUS))) as ex:
        for k, (p, o) in zip(todo, ex.map(lambda k: B.driver(*k), todo)):
            built[k], build_log[k] = p, o
    failed = [k for k in todo if not built[k]]
    for k in failed:
        log("build of %s.%s failed:\n%s" % (k[0], k[1], build_log[k][-2500:]))
    # a build that fails is replaced by the native build of the same sanitizer family, if that one compiles
    extra = []
    for drv, var in failed:
        alt = VARIANTS[var].get("fallback")
        if alt and (drv, alt) not in built:
            built[(drv, alt)], build_log[(drv, alt)] = B.driver(drv, alt)
            if built[(drv, alt)]:
                q = [r for r in runs if (r[0], r[1]) == (drv, var)][0]
                extra.append((drv, alt, q[2], q[3]))
    runs = [r for r in runs if built.get((r[0], r[1]))] + extra
    t_build = time.time() - T0
    if not runs or not all(any(r[0] == d for r in runs) for d in {k[0] for k in todo}):
        # is it the library that is ill-formed? a small program of the features this property is about decides
        rc = ill_formed(prop, tier, seed, P)
        if rc is not None:
            return rc
        if not runs:
            log("harness does not compile against this tree")
            return 2
        log("part of the harness does not compile against this tree, the other part decides")

    jobs = []
    n_cpu = len(CPUS)
    for ri, (drv, var, cq, ct) in enumerate(runs):
        count = max(16, int((cq if tier == "quick" else ct) * scale))
        native = not VARIANTS[var].get("controlled")
        nsh = min(n_cpu, max(1, count // 16))
        if P.get("serial"):
            nsh = 1
        for sh in range(nsh):
            jobs.append(dict(drv=drv, var=var, exe=built[(drv, var)], count=count, shard=sh, nsh=nsh, native=native,
                             seed=seed * 1000 + ri))
    # interleave variants so that a violation of any kind is met early
    jobs.sort(key=lambda j: j["shard"])
    limit = 700 if tier == "quick" else 14000
    free = list(CPUS)
    violations, inconclusive, harness, results = [], [], [], []

    def one(j, retry=False):
        if STOP:
            return None
        tag = "%s.%s.%d" % (j["drv"], j["var"], j["shard"])
        base = os.path.join(work, tag)
        args = ["--prop", prop, "--seed", str(j["seed"]), "--count", str(j["count"]), "--shard", str(j["shard"]), "--nshards", str(j["nsh"])]
        if tier == "thorough":
            args.append("--thorough")
        cpu = None
        core = None
        if not j["native"]:
            try:
                core = free.pop()
                cpu = {core}
            except IndexError:
                pass
        try:
            r = run_proc([j["exe"]] + args + ["--out", base + ".json", "--status", base + ".st"], base + ".st", base + ".out", cpu, limit,
                         30 if not retry else 60, 100 if not retry else 200)
        finally:
            if core is not None:
                free.append(core)
        if STOP and r.rc != 0 and not ("@FAIL" in r.out):
            return None
        j["args"], j["base"] = args, base
        return r

    def handle(j):
        global STOP
        r = one(j)
        if r is None:
            return
        kind, key, detail = classify(r)
        if kind in ("hang", "inconclusive"):
            log("%s %s in %s shard %d at %s, running it again" % (kind, key, j["var"], j["shard"], r.status))
            first = dict(r.status)
            r = one(j, retry=True)
            if r is None:
                return
            kind, key, detail = classify(r)
            if kind == "hang":
                # twice: deterministic in controlled builds; in native builds only an idle process counts
                # (every thread asleep, nothing left that could wake them)
                if not j["native"] or key == "hang" or r.status.get("index") == first.get("index"):
                    kind = "violation"
                else:
                    kind = "inconclusive"
        if kind == "ok":
            results.append((j, r))
        elif kind == "violation":
            sc = r.status.get("scenario")
            f = match_finding(prop, sc, key)
            violations.append((j, r, key, detail, f))
            if f is None:
                STOP = True
        elif kind == "harness":
            harness.append((j, key, detail))
            log("harness failure", key, detail)
        else:
            inconclusive.append((j, key))

    workers = n_cpu
    if P.get("serial"):
        workers = 1
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(handle, jobs))

    # ------------------------------------------------------------------ evidence
    evals = obs = steps = switches = nontriv = 0
    hashes = {}
    scen, samples, per_variant = {}, [], {}
    for j, r in results:
        try:
            with open(j["base"] + ".json") as f:
                d = json.load(f)
        except (OSError, ValueError):
            continue
        evals += d["done"]
        pv = per_variant.setdefault(j["var"], {"cases": 0, "scheduling_points": 0, "context_switches": 0})
        pv["cases"] += d["done"]
        for n, s in d["scenarios"].items():
            t = scen.setdefault(n, {"cases": 0, "observations": 0})
            t["cases"] += s["cases"]
            t["observations"] += s["observations"]
            obs += s["observations"]
            steps += s["steps"]
            switches += s["switches"]
            nontriv += s["nontrivial"]
            pv["scheduling_points"] += s["steps"]
            pv["context_switches"] += s["switches"]
        if len(samples) < 8:
            samples += [s for s in d["samples"][:2]]
        try:
            arr = array.array("Q")
            with open(j["base"] + ".json.h", "rb") as f:
                arr.frombytes(f.read())
            hashes.setdefault(j["drv"], set()).update(arr)
        except (OSError, ValueError):
            pass
    distinct = sum(len(s) for s in hashes.values())
    level = "exploration"
    new = [v for v in violations if v[4] is None]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": P["rule"], "samples": samples or ["(none)"],
            "monitor_observations": obs, "scheduling_points": steps, "context_switches": switches,
            "nontrivial_cases": nontriv, "scenarios": scen, "variants": per_variant,
            "builds_failed": ["%s.%s" % k for k in failed],
            "inconclusive_shards": len(inconclusive), "build_s": round(t_build, 1),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    seen = set()
    for j, r, key, detail, f in violations:
        if f is not None and f["id"] not in seen:
            seen.add(f["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if new:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        j, r, key, detail, _ = new[0]
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", key)[:80]))
        st = r.status
        rec = {
            "property": prop, "key": key, "detail": detail, "driver": j["drv"], "variant": j["var"], "status": st,
            "case_args": ["--prop", prop, "--scenario", st.get("scenario", "?"), "--case", st.get("seed", "0"), "--count", "20"] + (["--thorough"] if tier == "thorough" else []),
            "shard_args": j["args"], "exit": r.rc, "output_tail": r.out[-12000:],
            "how": "python3 check.py %s --replay <this file>" % prop,
        }
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        print("%s %s: %s" % (prop, key, (detail or "").strip()[:1500]))
        print("scenario %s, case seed %s, build %s" % (st.get("scenario"), st.get("seed"), j["var"]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if harness:
        return 2
    if evals == 0 or distinct < P.get("min_distinct", 2):
        log("nothing was observed: %d cases, %d distinct" % (evals, distinct))
        return 2
    if inconclusive and len(inconclusive) * 4 > len(jobs):
        log("too many inconclusive shards")
        return 2
    print("OK %s: %d cases, %d distinct non-trivial, %d observations, %d scheduling points, %.1f s (build %.1f s)" % (prop, evals, distinct, obs, steps, ev["wall_s"], t_build))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
