"""Shared machinery of the checks: building the harness from /repo's current
tree, running TLC, recording evidence, reporting violations and findings."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = min(8, os.cpu_count() or 4)
T0 = time.time()


class ToolError(Exception):
    """Something of ours (not of the code under test) failed: exit 2."""


def env():
    e = dict(os.environ)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def repo_hash():
    h = hashlib.sha256()
    for root in ("crates", "src"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")) and "/tests/" not in d + "/":
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness/Cargo.toml")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(bins=("decyh",)):
    """(Re)build the harness against /repo's current tree."""
    tgt = os.path.join(BUILD, "target")
    os.makedirs(tgt, exist_ok=True)
    lock = os.path.join(BUILD, "build.lock")
    import fcntl
    with open(lock, "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        hs = repo_hash()
        stamp = os.path.join(tgt, "repo.stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != hs:
            # do not depend on file times: the sources changed, rebuild decy
            fp = os.path.join(tgt, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("decy"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        hdir = os.path.join(VERIF, "harness")
        lk = os.path.join(hdir, "Cargo.lock")
        if not os.path.exists(lk):
            for src in (os.path.join(REPO, "Cargo.lock"), "/opt/vp/ws/Cargo.lock"):
                if os.path.exists(src):
                    shutil.copy(src, lk)
                    break
        cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", tgt]
        for b in bins:
            cmd += ["--bin", b]
        t = time.time()
        r = subprocess.run(cmd, cwd=hdir, env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(hs)
        log("built", bins, "in %.1fs" % (time.time() - t))
    return os.path.join(tgt, "debug")


_bindir = None


_bl = threading.Lock()


def bindir():
    global _bindir
    with _bl:
        if _bindir is None:
            _bindir = build(("decyh", "decy"))
    return _bindir


def harness(sub, lines, args=(), timeout=60, cwd=None):
    """Feed JSON lines to a harness subcommand; returns decoded output lines."""
    exe = os.path.join(bindir(), "decyh")
    inp = "\n".join(json.dumps(x) for x in lines) + "\n"
    p = subprocess.Popen([exe, sub, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, env=env(), cwd=cwd)
    # a case that makes no progress for `timeout` seconds is a hang of the code under test
    out, last, err = [], [time.time()], []

    def feed():
        try:
            p.stdin.write(inp)
            p.stdin.close()
        except (BrokenPipeError, ValueError):
            pass

    def errs():
        err.append(p.stderr.read())
    hung = [False]

    def watch():
        while p.poll() is None:
            if time.time() - last[0] > timeout:
                hung[0] = True
                p.kill()
                return
            time.sleep(0.5)
    th = [threading.Thread(target=x, daemon=True) for x in (feed, errs, watch)]
    for t in th:
        t.start()
    for l in p.stdout:
        if l.startswith("{") or l.startswith("["):
            out.append(json.loads(l))
            last[0] = time.time()
    p.wait()
    th[1].join(5)
    if len(out) < len(lines):
        # the code under test took the process down (abort, stack overflow) or hangs:
        # that is an observation about the case being processed
        if p.returncode == 3:
            raise ToolError("harness: " + "".join(err)[-500:])
        out.append({"crash": p.returncode, "hang": hung[0], "stderr": "".join(err)[-1500:]})
    return out


# ---------------------------------------------------------------- scratch
_scr = None


def scratch():
    global _scr
    if _scr is None:
        _scr = tempfile.mkdtemp(prefix="verif-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scr, ignore_errors=True))
    return _scr


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.transitions = 0
        self.runs = 0


STATS = Tlc()


def tlc(module, cfg=None, envs=None, simulate=None, depth=None, workers=1, seed=None,
        timeout=800, ok_codes=(0,), extra=(), heap="3g"):
    """Run TLC on spec/<module>.tla; returns its output."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", TLA, "tlc2.TLC", "-metadir", meta, "-config", cfg or module + ".cfg",
           "-workers", str(workers), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = env()
    e.update(envs or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if r.returncode not in ok_codes:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, (r.stdout + r.stderr)[-3000:]))
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", r.stdout)
    if m:
        g, d = (int(x.replace(",", "")) for x in m[-1])
        STATS.states += d
        STATS.transitions += max(0, g - 1)
    m = re.findall(r"The number of states generated: (\d[\d,]*)", r.stdout)
    if m:
        g = int(m[-1].replace(",", ""))
        STATS.states += g
        STATS.transitions += g
    STATS.runs += 1
    return r.stdout


def read_csv_json(path):
    """Lines written by CSVWrite("%1$s", <<ToJson(x)>>, file)."""
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for l in f:
            l = l.strip()
            if l:
                v = json.loads(l)
                out.append(json.loads(v) if isinstance(v, str) else v)
    return out


def pmap(fn, items, n=NPROC):
    """Thread-parallel map (the work is in subprocesses)."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- results
class Check:
    def __init__(self, pid, level, title=""):
        self.pid, self.level = pid, level
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []   # (summary, replay dict)
        self.findings = []

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def violation(self, summary, data):
        self.violations.append((summary, data))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov.setdefault("states", STATS.states)
        cov.setdefault("transitions", STATS.transitions)
        cov["samples"] = self.samples
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(p + ".tmp", p)
        for f in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f), flush=True)
        if self.violations:
            os.makedirs(REPLAY, exist_ok=True)
            for n, (s, d) in enumerate(self.violations[:5]):
                rp = os.path.join(REPLAY, "%s-%d.json" % (self.pid, n))
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "summary": s, "seed": SEED, "tier": TIER,
                               "replay": d}, f, indent=1)
                print("  " + s.replace("\n", "\n  "), flush=True)
                print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        log("%s: ok" % self.pid, json.dumps({k: v for k, v in cov.items() if k != "samples"}))
        return 0


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [x for x in map(json.loads, filter(None, map(str.strip, open(p))))
            if x.get("property") == pid and x.get("status") == "known"]


def main(fn):
    try:
        rc = fn()
    except ToolError as e:
        print("ERROR: " + str(e), file=sys.stderr)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout: " + str(e)[:500], file=sys.stderr)
        rc = 2
    sys.exit(rc)
