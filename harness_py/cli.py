"""C25: the executable end to end. Formulas small enough for a truth table held in one integer; every run's exit
status, status line, messages and models count are compared with it."""
import bz2, hashlib, lzma, os, random, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor

STATUS = re.compile(r"^(s SATISFIABLE|s UNSATISFIABLE|s UNKNOWN|s TIMEOUT|UNKNOWN)\s*$", re.M)


def table(n):
    """column of each variable in the truth table over n variables, as an integer of 2^n bits"""
    cols = [0]
    full = (1 << (1 << n)) - 1
    for v in range(n):
        w = 1 << v
        cols.append(full // ((1 << w) + 1) << w)
    return cols, full


def models(f, n):
    cols, full = table(n)
    acc = full
    for c in f:
        t = 0
        for l in c:
            t |= cols[l] if l > 0 else full & ~cols[-l]
        acc &= t
        if not acc:
            break
    return acc


def formula(r, n):
    k = r.choice([2, 3, 3, 3, 4])
    ratio = {2: (0.5, 2.2), 3: (1.5, 6.5), 4: (4, 14)}[k]
    m = max(1, int(n * r.uniform(*ratio)))
    f = []
    for _ in range(m):
        w = k if r.random() < .8 else r.randint(1, 5)
        vs = r.sample(range(1, n + 1), min(w, n))
        f.append([v if r.random() < .5 else -v for v in vs])
        if r.random() < .03:
            f[-1].append(r.choice(f[-1]))
        if r.random() < .02:
            f[-1].append(-r.choice(f[-1]))
    if r.random() < .01:
        f.insert(r.randrange(len(f) + 1), [])
    if r.random() < .02:
        f = []
    return f


def layout(r, f, n):
    hdr = "p cnf %d %d\n" % (n, len(f))
    style = r.randrange(4)
    out = []
    for c in f:
        if style == 1 and r.random() < .3:
            out.append("c a comment %d 0\n" % r.randrange(9))
        sep = "\n" if style == 2 and r.random() < .3 else " "
        out.append(sep.join(str(l) for l in c) + (" " if c else "") + "0" + (" " if style == 3 and r.random() < .5 else "\n"))
    t = "".join(out)
    if r.random() < .2:
        t = t.rstrip("\n")
    return ("c head\n" if r.random() < .3 else "") + hdr + t


def php(p, h):
    v = lambda i, j: i * h + j + 1
    f = [[v(i, j) for j in range(h)] for i in range(p)]
    for j in range(h):
        for a in range(p):
            for b in range(a):
                f.append([-v(a, j), -v(b, j)])
    return f, p * h


BAD = ["1 2 x 0\n", "p cnf 2 1\n1 two 0\n", "p cnf 2 1\n1 -2 0\nfoo\n", "1 - 2 0\n", "p cnf 3 1\n1 2.5 0\n", "p cnf 1 1\n1 99999999999999999999 0\n",
       "%s\n" % ("z" * 3000), "1 2 0 3 b 0\n", "p cnf 2 1\n--1 2 0\n", "1 \x01 0\n", "<html>\n"]


def strategy(r):
    a = r.choice([[], ["-cb"], ["-lscb"], ["-gb"], ["-gb"], ["-gb", "-lcm"], ["-gb", "-ecm"]])
    a = list(a)
    if "-gb" in a:
        for o in ("-bl", "-bsc", "-bfc"):
            if r.random() < .2:
                a.append(o)
        if r.random() < .3:
            a.append(r.choice(["-max-approx-cost", "-sum-approx-cost", "-vsids-approx-cost"]))
    if r.random() < .15:
        a += ["--restarts", r.choice(["on", "off"])]
    if r.random() < .15:
        a += ["-del", r.choice(["on", "off"])]
    if r.random() < .15:
        a += ["--clause-elimination-multiplier", r.choice(["1", "1.5"])]
    if r.random() < .1:
        a += ["-t", "1000000"]
    if r.random() < .15:
        a += [r.choice(["-si", "-sw"])]
    if r.random() < .06:
        a += ["-o"] + (["-stat"] if r.random() < .5 else [])
    if r.random() < .04:
        a += ["-c"]
    return a


def run(workload, exe, job, seed, tier, scale, scratch_root, res, env):
    total = max(1, int(job["cases"][0 if tier == "quick" else 1] * scale))
    repo = os.environ.get("VF_REPO", "/repo")
    root = os.path.join(scratch_root, "cli")
    os.makedirs(os.path.join(root, "build"), exist_ok=True)
    binary = os.path.join(root, "build", "NapSAT")
    shutil.copy(exe, binary)
    for d in ("invariant-configurations", "obsidian_template"):
        if os.path.isdir(os.path.join(repo, d)) and not os.path.exists(os.path.join(root, d)):
            shutil.copytree(os.path.join(repo, d), os.path.join(root, d))
    lock = threading.Lock()

    def count(k, n=1):
        with res.lock:
            res.counters[k] = res.counters.get(k, 0) + n

    def call(args, cwd, limit=120):
        t = time.time()
        try:
            p = subprocess.run([binary] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=limit)
        except subprocess.TimeoutExpired:
            return None, "", "", limit
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1"), time.time() - t

    def one(i):
        if res.stop:
            return
        r = random.Random("cli/%s/%d/%d" % (job["variant"], seed, i))
        d = os.path.join(root, "d%d" % i)
        os.makedirs(d)
        kept = []

        def viol(key, detail, args):
            keep = "\n".join("%s:\n%s" % (p, open(p, "rb").read()[:1500].decode("latin-1")) for p in kept if os.path.isfile(p))
            res.add(key, "%s [arguments: %s] %s" % (detail, " ".join(args), keep), [exe] + args)

        def crashed(rc, err, args):
            from run import crash_key
            if rc is None:
                viol("hang", "no end after the time given", args)
            elif rc < 0 or rc > 90:
                viol("crash/" + crash_key(rc, err), err[-1500:], args)
            else:
                return False
            return True

        def lines(out):
            return STATUS.findall(out)

        kind = r.random()
        count("runs")
        if kind < .07:   # what cannot be run
            what = r.randrange(8)
            args = None
            if what == 0:
                args = []
            elif what == 1:
                args = ["--all-models"]
            elif what == 2:
                args = [os.path.join(d, "absent.cnf")]
            elif what == 3:
                args = [d]
            elif what == 4:
                args = [r.choice(["-gb", "--nothing"]), "f.cnf"]
            elif what == 5:
                p = os.path.join(d, "ok.cnf")
                open(p, "w").write("p cnf 1 1\n1 0\n")
                args = [p, "--clause-activity-threshold-decay", r.choice(["2", "-1", "nan"])]
            else:
                p = os.path.join(d, "bad.cnf")
                text = r.choice(BAD).encode("latin-1")
                if what == 7:
                    data = lzma.compress(b"p cnf 2 2\n1 2 0\n-1 -2 0\n" * 50)
                    p += ".xz"
                    text = data[:r.randrange(1, len(data) - 1)]
                open(p, "wb").write(text)
                args = [p]
            if what != 0 and what != 1 and r.random() < .3:
                args = ["--all-models"] + args
            kept += [a for a in args if a.startswith(d)]
            rc, out, err, _ = call(args, d)
            if crashed(rc, err, args):
                return
            count("refused")
            if rc != 1:
                viol("exit/accepted", "exit status %d" % rc, args)
            if lines(out):
                viol("status/after-failure", "a verdict was printed for something that could not be run: %s" % lines(out), args)
            shutil.rmtree(d, ignore_errors=True)
            return
        if kind < .09:
            args = r.choice([["-h"], ["--help"], ["-v"], ["--version"]])
            rc, out, err, _ = call(args, d)
            if not crashed(rc, err, args) and (rc != 0 or lines(out) or len(out) < 5 or (args[0][-1] != "v" and args[0] != "--version" and "--graph-backtracking" not in out)):
                viol("help", "exit status %d: %s" % (rc, out[:200]), args)
            count("helps")
            shutil.rmtree(d, ignore_errors=True)
            return
        if kind < .11 and workload == "cli":   # a formula too hard for the time given
            f, n = php(11, 10)
            p = os.path.join(d, "php.cnf")
            open(p, "w").write(layout(r, f, n))
            ms = r.choice([0, 50, 300, 1000])
            args = [p] + r.choice([[], ["-cb"], ["-lscb"], ["-gb"]]) + [r.choice(["-t", "--timeout"]), str(ms)]
            rc, out, err, took = call(args, d, 60 + ms / 1000)
            if crashed(rc, err, args):
                return
            count("timeouts")
            st = lines(out)
            if rc != 0 or len(st) != 1 or "s SAT" in st[0]:
                viol("timeout/answer", "exit %d, %s" % (rc, st), args)
            shutil.rmtree(d, ignore_errors=True)
            return

        n = r.randint(1, 12)
        f = formula(r, n)
        text = layout(r, f, n).encode()
        used = sorted({abs(l) for c in f for l in c})
        box = r.choice(["", "", "", ".xz", ".bz2"])
        p = os.path.join(d, r.choice(["f", "a b", "form.ula"]) + ".cnf" + box)
        open(p, "wb").write(lzma.compress(text) if box == ".xz" else bz2.compress(text) if box == ".bz2" else text)
        kept.append(p)
        top = max(n, max(used, default=0))   # the header declares variables too
        acc = models(f, top)
        sat = acc != 0
        args = [p] + strategy(r)
        lcm = "-lcm" in args
        proof = not lcm and r.random() < .35
        if proof:
            args += r.choice([["-cp"], ["-pp"], ["-cp", "-pp"], ["-bp"]])
        limited = r.random() < .12
        if limited:
            args += r.choice([["-cl", str(r.randrange(0, 6))], ["-t", "0"], ["--conflict-limit", "0"]])
        if r.random() < .05:
            args.insert(1, r.choice(["--unknown-option", "whatever"]))
        iuv = r.random() < .1
        if iuv:
            args += ["-iuv"]
        allm = r.random() < .3 and bin(acc).count("1") <= 300 and not limited
        if allm:
            args = ["--all-models"] + args
        text_key = hashlib.sha256(repr((f, args[1:])).encode()).hexdigest()[:16]
        with res.lock:
            res.fps.add("cli" + text_key)
            if len(res.samples) < 6:
                res.samples.append("[cli/%s] NapSAT %s on %s" % (job["variant"], " ".join(a.replace(d + "/", "") for a in args), str(f)[:250]))
        rc, out, err, _ = call(args, d)
        if crashed(rc, err, args):
            return
        st = lines(out)
        if rc != 0:
            viol("exit/refused", "exit status %d, stderr %s" % (rc, err[-300:]), args)
        elif len(st) != 1:
            viol("status/lines", "status lines %s in %s" % (st, out[-400:]), args)
        else:
            want = "s UNSATISFIABLE" if allm or not sat else "s SATISFIABLE"
            ok = st[0] == want or (limited and st[0].endswith("UNKNOWN"))
            count("verdicts" if st[0].startswith("s ") else "unknowns")
            if not ok:
                viol("status/wrong", "%s instead of %s" % (st[0], want), args)
            if allm:
                count("all_models_runs")
                got = [int(x) for x in re.findall(r"Model found: (\d+)", out)]
                need = bin(acc).count("1")
                count("models_listed", len(got))
                if iuv:   # a model listed may leave variables free: no model is listed twice, and there are none only if there are none
                    count("all_models_iuv")
                    if len(got) > need or (need > 0) != (len(got) > 0) or got != list(range(len(got))):
                        viol("models", "%d models were found, of %d: %s" % (len(got), need, got[:20]), args)
                elif sorted(got) != list(range(need)):
                    viol("models", "%d models were found, of %d: %s" % (len(got), need, got[:20]), args)
            if ("-cp" in args or "-pp" in args) and st[0] == "s UNSATISFIABLE":
                count("proofs")
                if "-pp" in args:
                    # the empty clause is derived or given
                    if not re.search(r"\(\s*\)", out):
                        viol("proof/not-printed", "no empty clause in what was printed: %s" % out[-500:], args)
                if "invalid" in err.lower() or "invalid" in out.lower():
                    viol("proof/invalid", "the proof was declared invalid", args)
            if "ERROR" in err or "ERROR" in out:
                viol("error-message", (err + out)[-400:], args)
            if r.random() < .1:
                rc2, out2, _, _ = call(args, d)
                strip = lambda t: re.sub(r"^c .*$", "", re.sub(r"[\d.]+ ?(ms|s|us|µs|min|h)\b", "", t), flags=re.M)
                count("reruns")
                if rc2 != rc or (strip(out2) != strip(out) and "-stat" not in args):
                    viol("not-repeatable", "the same command printed something else: %s / %s" % (out[-200:], out2[-200:]), args)
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(total)))
    shutil.rmtree(root, ignore_errors=True)
