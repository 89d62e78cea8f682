#!/usr/bin/env python3
"""Build /repo's working tree with sanitizers, run the monitored workloads of one
property, judge what the monitors saw, and write the evidence file.

usage: run.py PROP [--tier quick|thorough] [--seed N]
exit:  0 held on everything explored, 1 violation, 2 no answer (build/harness failure)
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS   # noqa: E402

NCPU = min(8, os.cpu_count() or 1)
BUILD = os.path.join(VERIF, ".build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++20", "-gline-tables-only", "-w"]
VARIANTS = {
    # assertions of the code under test are live: they are monitors too
    "dbg": ["clang++", "-O1"] + SAN,
    # what a release user runs; container bounds checked by libstdc++
    "rel": ["clang++", "-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"] + SAN,
    # uninstrumented binaries, for valgrind and for end-to-end command line runs
    "plain": ["clang++", "-O1", "-gdwarf-4", "-DNDEBUG"],
    "plaindbg": ["clang++", "-O1", "-gdwarf-4"],
    "tsan": ["clang++", "-O1", "-DNDEBUG", "-fsanitize=thread"],
    "msan": ["clang++", "-O1", "-DNDEBUG", "-fsanitize=memory", "-fno-sanitize-recover=all"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=96:halt_on_error=1",
    "LC_ALL": "C",
})


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------- build
def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources(group):
    root = os.path.join(REPO, "src")
    out = []
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    if group == "all":
        return sorted(out)
    if group == "util":
        return sorted(p for p in out if "/utils/" in p or p.endswith("dependency_tracker.cpp"))
    raise NoAnswer("unknown source group " + group)


def headers_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "stub")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inc", ".ipp", ".tpp")):
                    h.update(os.path.join(d, f).encode())
                    h.update(read(os.path.join(d, f)))
    return h.hexdigest()


def lib_hash():
    h = hashlib.sha256()
    d = os.path.join(VERIF, "lib")
    for f in sorted(os.listdir(d)):
        h.update(read(os.path.join(d, f)))
    return h.hexdigest()


def compile_one(cmd, src, extra):
    key = hashlib.sha256()
    key.update(" ".join(cmd).encode())
    key.update(src.encode())
    key.update(extra.encode())
    key.update(read(src))
    obj = os.path.join(BUILD, key.hexdigest()[:24] + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("compilation of %s failed:\n%s" % (src, r.stdout[-3000:]))
    os.replace(tmp, obj)
    return obj


def build(harness, variant, group, main=False, prebuild=False):
    """returns the path of the executable"""
    os.makedirs(BUILD, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(VERIF, "stub"), "-I" + os.path.join(VERIF, "lib")]
    cmd = VARIANTS[variant] + BASE + inc
    hh = headers_hash()
    lh = lib_hash()
    harness_src = os.path.join(REPO, "main.cpp") if main else os.path.join(VERIF, "harness", harness + ".cpp")

    def link(srcs):
        jobs = [(s, hh) for s in srcs] + [(harness_src, hh + lh)]
        # the slowest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(lambda j: compile_one(cmd, j[0], j[1]), jobs))
        key = hashlib.sha256(("|".join(sorted(objs)) + variant).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, key))
        if os.path.exists(exe):
            return exe, ""
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(VARIANTS[variant] + objs + ["-o", tmp, "-llzma", "-lbz2", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        os.replace(tmp, exe)
        return exe, ""

    if prebuild:
        return [(cmd, s, hh) for s in sources(group)] + [(cmd, harness_src, hh + lh)]
    exe, err = link(sources(group))
    if exe is None and group != "all":
        exe, err = link(sources("all"))
    if exe is None:
        raise NoAnswer("link of %s/%s failed:\n%s" % (harness, variant, err[-3000:]))
    return exe


# --------------------------------------------------------------------------- run
def crash_key(rc, err):
    """a stable name for an abnormal end"""
    if rc == 97 or "WATCHDOG" in err:
        return "hang"
    m = re.search(r"runtime error: ([^\n]*)", err)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (?:/[^\n]*)?/(?:src|include|main)[^\n]*", err)
    where = ""
    for f in frames:
        f = re.sub(r"\(.*", "", f)
        where = f
        break
    if m:
        msg = re.sub(r"0x[0-9a-f]+", "ADDR", m.group(1))
        msg = re.sub(r"-?\d+", "N", msg)
        return "ub:" + msg[:90] + "@" + where
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z\-]+)", err)
    if m:
        return "asan:" + m.group(1) + "@" + where
    m = re.search(r"ERROR: LeakSanitizer", err)
    if m:
        return "leak@" + where
    m = re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([^\n(]*)", err)
    if m:
        return m.group(1) + ":" + m.group(2).strip() + "@" + where
    m = re.search(r"([\w.\-]+\.[ch]pp):(\d+):? ([^\n]*?): Assertion [`']([^\n]*)' failed", err)
    if m:
        fn = re.sub(r"\(.*", "", m.group(3)).split(" ")[-1]
        return "assert:" + m.group(4)[:120] + "@" + fn
    m = re.search(r"Assertion failed[^\n]*", err)
    if m:
        return "assert:" + m.group(0)[:120]
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "exception:" + m.group(1)
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


class Result:
    def __init__(self, known=()):
        self.known = known
        self.unknown = 0
        self.lock = threading.Lock()
        self.counters = {}
        self.fps = set()
        self.samples = []
        self.viols = []      # dicts: key, detail, cmd
        self.crashes = 0
        self.stop = False
        self.hangs = 0

    def add(self, key, detail, cmd):
        with self.lock:
            self.viols.append({"key": key, "detail": detail, "cmd": cmd})
            if not any(rx.match(key) for rx, _ in self.known):   # listed findings do not end the exploration
                self.unknown += 1
                if self.unknown > 60:
                    self.stop = True


def run_range(exe, job, a, b, seed, tier, scratch_root, res, tag):
    i = a
    work = tempfile.mkdtemp(prefix="s", dir=scratch_root)
    out, prog, errf = (os.path.join(work, n) for n in ("out", "prog", "err"))
    wd = job.get("watchdog", 20)
    while i < b and not res.stop:
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        sc = os.path.join(work, "scratch")
        shutil.rmtree(sc, ignore_errors=True)
        os.makedirs(sc)
        base = [exe, "--prop", job["workload"], "--seed", str(seed), "--tier", tier, "--scratch", sc]
        cmd = base + ["--from", str(i), "--to", str(b), "--out", out, "--progress", prog, "--watchdog", str(wd)]
        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=sc, start_new_session=True)
            try:
                rc = p.wait(timeout=job.get("wall", 840))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = 97
        done = False
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["t"] == "viol":
                    res.add(d["key"], d["detail"], base + ["--from", str(d["case"]), "--to", str(d["case"] + 1)])
                elif d["t"] == "count":
                    with res.lock:
                        res.counters[d["key"]] = res.counters.get(d["key"], 0) + d["n"]
                elif d["t"] == "distinct":
                    with res.lock:
                        res.fps.update(tag + f for f in d["fps"])
                elif d["t"] == "sample":
                    with res.lock:
                        if len(res.samples) < 6:
                            res.samples.append("[%s] %s" % (tag, d["text"]))
                elif d["t"] == "done":
                    done = True
        if rc == 0 and done:
            break
        if rc == 3:
            raise NoAnswer("harness refused to run: " + " ".join(cmd) + "\n" + open(errf, errors="replace").read()[-500:])
        err = open(errf, errors="replace").read()[-20000:]
        try:
            case = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError):
            raise NoAnswer("harness died before its first case (rc %d): %s\n%s" % (rc, " ".join(cmd), err[-2000:]))
        rerun = base + ["--from", str(case), "--to", str(case + 1)]
        key = crash_key(rc, err)
        # a harness may name the running configuration on stderr: "TAG x"
        tags = re.findall(r"^TAG (\S+)", err, re.M)
        if key == "hang" or rc == -9:
            # inconclusive until it reproduces alone with a larger budget
            try:
                r2 = subprocess.run(rerun + ["--watchdog", str(3 * wd)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL, env=ENV, cwd=sc, timeout=max(120, 6 * wd))
                rc2 = r2.returncode
            except subprocess.TimeoutExpired:
                rc2 = 97
            if rc2 == 0:
                with res.lock:
                    res.counters["inconclusive_timeouts"] = res.counters.get("inconclusive_timeouts", 0) + 1
                i = case + 1
                continue
        if key == "hang":
            with res.lock:
                res.hangs += 1
                if res.hangs > 3:   # enough to decide, and each costs minutes
                    res.stop = True
        if tags:
            key += "/" + tags[-1]
        res.add(key, err[-3000:], rerun)
        with res.lock:
            res.crashes += 1
            if res.crashes > 40:
                res.stop = True
        i = case + 1
    shutil.rmtree(work, ignore_errors=True)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + r"\Z"), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        # every check builds what it needs from the current tree; here we only make sure that it can
        for t in ("clang++", "g++", "valgrind", "xz", "bzip2"):
            log("%-10s %s" % (t, shutil.which(t)))
        return 0
    if not args:
        print(__doc__)
        return 2
    prop = args[0]
    tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    scale = float(os.environ.get("VF_SCALE", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    known = known_findings(prop)
    res = Result(known)
    scratch_root = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    per_job = []
    try:
        # all the objects of all the variants at once, the largest first
        todo = []
        for job in spec["jobs"]:
            if "script" in job:
                if job.get("main", True):
                    todo += build("main", job["variant"], "all", main=True, prebuild=True)
            else:
                todo += build(job["harness"], job["variant"], job.get("sources", "all"), prebuild=True)
        todo = sorted({(tuple(c), s, x) for c, s, x in todo}, key=lambda j: -os.path.getsize(j[1]))
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda j: compile_one(list(j[0]), j[1], j[2]), todo))
        build_s = round(time.time() - t0, 1)
        for job in spec["jobs"]:
            tb = time.time()
            tag = job["workload"] + "/" + job.get("variant", "-")
            if "script" in job:
                # end-to-end monitors written in Python
                import importlib
                mod = importlib.import_module("harness_py." + job["script"])
                exe = build("main", job["variant"], "all", main=True) if job.get("main", True) else None
                n0 = len(res.viols)
                mod.run(job["workload"], exe, job, seed, tier, scale, scratch_root, res, ENV)
                per_job.append({"workload": tag, "wall_s": round(time.time() - tb, 1)})
                continue
            exe = build(job["harness"], job["variant"], job.get("sources", "all"))
            bt = time.time() - tb
            n = int(job["cases"][0 if tier == "quick" else 1] * scale) or 1
            chunk = max(1, min(job.get("chunk", 10 ** 9), (n + NCPU * 6 - 1) // (NCPU * 6)))
            ranges = [(a, min(n, a + chunk)) for a in range(0, n, chunk)]
            with ThreadPoolExecutor(job.get("workers", NCPU)) as ex:
                list(ex.map(lambda r: run_range(exe, job, r[0], r[1], seed, tier, scratch_root, res, tag), ranges))
            per_job.append({"workload": tag, "cases": n, "build_s": round(bt, 1), "wall_s": round(time.time() - tb, 1)})
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)

    # ---- verdict
    hits = [0] * len(known)
    bad = {}
    for v in res.viols:
        for k, (rx, _) in enumerate(known):
            if rx.match(v["key"]):
                hits[k] += 1
                break
        else:
            bad.setdefault(v["key"], []).append(v)
    for k, (rx, what) in enumerate(known):
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    if not bad:
        for name, minimum in spec.get("require", {}).items():
            if res.counters.get(name, 0) < max(1, minimum * min(1, scale) if scale < 1 else minimum):
                raise NoAnswer("the workload did not reach what it must: %s=%d < %d" % (name, res.counters.get(name, 0), minimum))
    rep_dir = os.path.join(VERIF, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    vio = []
    for n, (key, vs) in enumerate(sorted(bad.items())):
        path = os.path.join(rep_dir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": key, "count": len(vs), "command": vs[0]["cmd"], "detail": vs[0]["detail"],
                       "note": "the executable is rebuilt by run.py; re-run the check to recreate it"}, f, indent=1)
        vio.append({"key": key, "count": len(vs), "replay": path, "detail": vs[0]["detail"][:600]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": int(sum(res.counters.get(k, 0) for k in spec["evaluations"])),
            "distinct_nontrivial": len(res.fps),
            "rule": spec["rule"],
            "samples": res.samples[:6] or ["none recorded"],
            "observed": dict(sorted(res.counters.items())),
            "jobs": per_job, "compile_s": build_s,
            "known_findings_hit": sum(hits),
            "violation_details": vio,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vio),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        for v in vio[:12]:
            log("  %s (x%d): %s" % (v["key"], v["count"], v["detail"][:400].replace("\n", " | ")))
        log("VIOLATION property=%s replay=%s" % (prop, vio[0]["replay"]))
        return 1
    log("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, tier, ev["coverage"]["evaluations"], len(res.fps), ev["wall_s"]))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        sys.exit(2)
