"""Shared driver: builds, runs monitored workloads, turns their reports into verdicts."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.environ.get("VF_CACHE", os.path.join(VERIF, ".cache"))
HARNESS = os.path.join(VERIF, "harness")
JOBS = int(os.environ.get("VF_JOBS", "8"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class HarnessError(Exception):
    """The check could not be carried out (not a verdict)."""


class BuildFailure(Exception):
    """A build step failed; carries the log."""
    def __init__(self, what, log):
        super().__init__(what)
        self.what, self.log = what, log


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:20]


_tree_cache = {}


def tree_hash(path, exts=None):
    """Content hash of the files under a directory (or of one file)."""
    k = (path, exts)
    if k in _tree_cache:
        return _tree_cache[k]
    h = hashlib.sha256()
    if os.path.isfile(path):
        files = [path]
    else:
        files = []
        for root, dirs, names in os.walk(path):
            dirs[:] = [d for d in dirs if d not in ("node_modules", ".git", "__pycache__")] if "shims" not in root and not path.endswith("shims") else dirs
            for n in names:
                if exts is None or n.endswith(exts):
                    files.append(os.path.join(root, n))
    for f in sorted(files):
        h.update(os.path.relpath(f, path).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    _tree_cache[k] = h.hexdigest()
    return _tree_cache[k]


def sh(cmd, cwd=None, env=None, timeout=600):
    """Run a build command; raise BuildFailure with its output if it fails."""
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired as ex:
        raise HarnessError("build step timed out: %s" % (cmd,)) from ex
    out = r.stdout.decode(errors="replace")
    if r.returncode:
        raise BuildFailure(cmd if isinstance(cmd, str) else " ".join(cmd), out)
    return out


def trim_cache(limit=3 << 30):
    """Keep the build cache small: drop the oldest entries."""
    if not os.path.isdir(CACHE):
        return
    ents, total = [], 0
    for n in os.listdir(CACHE):
        p = os.path.join(CACHE, n)
        if not os.path.isdir(p):
            continue
        sz = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(p) for f in fs if os.path.exists(os.path.join(r, f)))
        ents.append((os.path.getmtime(p), sz, p))
        total += sz
    for mt, sz, p in sorted(ents):
        if total < limit:
            break
        if time.time() - mt < 3600:
            continue
        shutil.rmtree(p, ignore_errors=True)
        total -= sz


def cached_dir(key, make):
    """A directory built once per content key. `make(dir)` fills it."""
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, key)
    if os.path.exists(os.path.join(final, ".ok")):
        os.utime(final)
        return final
    with open(os.path.join(CACHE, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, ".ok")):
            return final
        shutil.rmtree(final, ignore_errors=True)
        os.makedirs(final)
        make(final)
        open(os.path.join(final, ".ok"), "w").close()
    try:
        os.unlink(os.path.join(CACHE, key + ".lock"))
    except OSError:
        pass
    return final


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = cf.ThreadPoolExecutor(max_workers=JOBS)
    return _pool


def pmap(fn, items, workers=None):
    """Parallel map that raises the first error only after everything has ended."""
    items = list(items)
    with cf.ThreadPoolExecutor(max_workers=workers or JOBS) as ex:
        futs = [ex.submit(fn, *it) if isinstance(it, tuple) else ex.submit(fn, it) for it in items]
    out, err = [], None
    for f in futs:
        try:
            out.append(f.result())
        except BaseException as e:  # noqa
            # a harness error must not hide a build failure, which may be the verdict
            if err is None or (isinstance(err, HarnessError) and isinstance(e, BuildFailure)):
                err = e
            out.append(None)
    if err:
        raise err
    return out


class Run:
    """Outcome of one monitored process."""
    def __init__(self):
        self.viols = {}      # key -> detail
        self.stats = {}
        self.samples = []
        self.status = "ok"   # ok | fault | hang | unsupported | error
        self.note = ""
        self.cmd = None
        self.tail = ""


FAULT_RC = {88: "sanitizer", 66: "thread-sanitizer"}


HANGS = {"n": 0, "confirmed": False, "lock": threading.Lock()}


def run_once(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    r = Run()
    r.cmd = cmd
    out_f = tempfile.TemporaryFile()
    scratch = e["VF_SCRATCH"] = tempfile.mkdtemp(prefix="vfrun.")
    p = subprocess.Popen(cmd, stdout=out_f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    timed_out = cancelled = False
    end = time.time() + timeout
    while True:
        try:
            p.wait(timeout=max(0.01, min(1.0, end - time.time())))
            break
        except subprocess.TimeoutExpired:
            if HANGS["confirmed"]:
                cancelled = True
                break
            if time.time() >= end:
                timed_out = True
                break
    if timed_out:
        try:
            os.kill(p.pid, signal.SIGABRT)      # the harness prints what it was executing
            p.wait(timeout=10)
        except Exception:
            pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    out_f.seek(0)
    data = out_f.read(64 << 20).decode(errors="replace")
    out_f.close()
    done = False
    fault = None
    for line in data.splitlines():
        if line.startswith("VIOL\t"):
            _, k, d = (line.split("\t", 2) + ["", ""])[:3]
            r.viols.setdefault(k, d)
        elif line.startswith("STAT\t"):
            f = line.split("\t")
            if len(f) >= 3 and f[2].isdigit():
                r.stats[f[1]] = r.stats.get(f[1], 0) + int(f[2])
        elif line.startswith("SAMPLE\t"):
            r.samples.append(line[7:])
        elif line.startswith("FAULT\t"):
            fault = line[6:]
        elif line.startswith("DONE"):
            done = True
    r.tail = data[-6000:]
    rc = p.returncode
    if cancelled:
        r.status, r.note = "cancelled", "given up: another run does not end"
    elif timed_out:
        r.status, r.note = "hang", (fault or "no answer within %ds" % timeout)
    elif done and rc == 0:
        r.status = "ok"
    elif rc == 4 and "UNSUPPORTED" in data:
        r.status, r.note = "unsupported", [l for l in data.splitlines() if "UNSUPPORTED" in l][0]
    elif fault is not None or rc in FAULT_RC or (rc < 0 and -rc in (4, 6, 7, 8, 11)):
        r.status = "fault"
        m = re.search(r"(SUMMARY: \S+Sanitizer: [^\n]*)", data) or re.search(r"([^\n]*runtime error: [^\n]*)", data) or re.search(r"(==\d+==ERROR: [^\n]*)", data)
        r.note = "%s%s" % (fault or ("exit %d" % rc), "; " + m.group(1) if m else "")
    else:
        r.status, r.note = "error", "exit %s without a verdict: %s" % (rc, data[-800:])
    return r


def run(cmd, timeout=150, env=None, cwd=None):
    """One monitored execution; a hang counts only if it happens twice (in this run or in two runs of the check).
    Once it has, the remaining runs are given up: there is a verdict."""
    r = run_once(cmd, timeout, env, cwd)
    if r.status == "hang":
        with HANGS["lock"]:
            HANGS["n"] += 1
            if HANGS["n"] > 1:
                HANGS["confirmed"] = True
                return r
        r2 = run_once(cmd, timeout, env, cwd)
        if r2.status == "cancelled":
            return r
        if r2.status != "hang":
            HANGS["n"] -= 1
            return r2
        HANGS["confirmed"] = True
    elif r.status == "error":
        r = run_once(cmd, timeout, env, cwd)
    return r


class Verdict:
    """Collects what the monitors of one check observed and reports it."""
    def __init__(self, prop, tier, rule, keyfilter=None):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.t0 = time.time()
        self.keyfilter = keyfilter
        self.viols = []          # (key, detail, cmd)
        self.seen_keys = set()
        self.stats, self.samples, self.notes = {}, [], []
        self.extra = {}
        self.errors = []
        self.unsupported = []
        self.runs = 0
        self.assumptions = []

    def violation(self, key, detail, cmd=None, tail=""):
        if key in self.seen_keys:
            return
        self.seen_keys.add(key)
        self.viols.append((key, detail, cmd, tail))

    def absorb(self, r, fault_key=None, label=None):
        """Take one Run in."""
        self.runs += 1
        for k, v in r.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        if len(self.samples) < 12:
            self.samples += r.samples[:2]
        for k, d in r.viols.items():
            if self.keyfilter and not self.keyfilter(k):
                self.notes.append("seen, belongs to another property: %s: %s" % (k, d[:300]))
                continue
            self.violation(k, d, r.cmd, r.tail)
        if r.status == "fault":
            op = r.note.split("\t")[1] if "\t" in r.note else ""
            first = (op.split() or ["process"])[0]
            self.violation("%s/fault" % (fault_key or first), r.note.replace("\t", " "), r.cmd, r.tail)
        elif r.status == "hang":
            op = r.note.split("\t")[1] if "\t" in r.note else ""
            self.violation("%s/hang" % (fault_key or (op.split() or ["process"])[0]), "did not end: " + r.note.replace("\t", " "), r.cmd, r.tail)
        elif r.status == "unsupported":
            self.unsupported.append(r.note)
        elif r.status == "error":
            self.errors.append("%s: %s" % (" ".join(map(str, r.cmd)), r.note))

    def finish(self):
        known = load_known(self.prop)
        new = []
        for key, detail, cmd, tail in self.viols:
            if key in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, known[key]))
            else:
                new.append((key, detail, cmd, tail))
        evals = self.stats.get("evaluations", 0)
        cov = {"evaluations": evals, "distinct_nontrivial": self.stats.get("distinct", 0), "rule": self.rule,
               "samples": self.samples[:8] or ["(none)"], "runs": self.runs,
               "observed": {k: v for k, v in sorted(self.stats.items()) if k not in ("evaluations", "distinct")}}
        cov.update(self.extra)
        if self.unsupported:
            cov["not_evaluated"] = sorted(set(self.unsupported))[:10]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        for n in self.notes[:6]:
            print("NOTE:", n)
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (key, detail, cmd, tail) in enumerate(new[:8]):
                path = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": key, "detail": detail, "cmd": cmd, "seed": SEED, "tail": tail[-4000:]}, f, indent=1)
                print("  %s: %s" % (key, detail[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print("ERROR:", e, file=sys.stderr)
            return 3
        if evals == 0:
            print("ERROR: nothing was observed", file=sys.stderr)
            return 3
        print("held: property=%s on %d evaluations (%d distinct) in %d runs, %.1fs" % (self.prop, evals, self.stats.get("distinct", 0), self.runs, time.time() - self.t0))
        return 0


def load_known(prop):
    """Lines `known: property=<id> key=<key> | <text>`; `fixed:` lines suppress nothing."""
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res
