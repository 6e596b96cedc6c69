"""Shared machinery of the checks: build, harness runs, TLC runs, evidence."""
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
PAH = os.path.join(TARGET, "debug", "pah")
PA2 = os.path.join(TARGET, "debug", "pa2")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


# names which a sloppy comparison takes for one another; all can be written in join strings
ALIKE = ["x", "X", "xx", "xX", "Xx", "x1", "x11", "x_", "_x", "x01", "X1", "XX", "x_1", "1x", "1", "01", "11", "_", "__", "_1", "1_", "001", "x2", "x12", "x21", "X2"]


def ordinary_signals():
    """Programs which are killed on purpose must die of it, whatever whoever started us ignores or blocks."""
    for s in signal.valid_signals():
        try:
            if signal.getsignal(s) == signal.SIG_IGN and s not in (signal.SIGPIPE, signal.SIGXFSZ):
                signal.signal(s, signal.SIG_DFL)
        except (OSError, ValueError):
            pass
    signal.pthread_sigmask(signal.SIG_SETMASK, [])


ordinary_signals()


class ToolError(Exception):
    pass


class Enough(Exception):
    """There are violations already: the rest of the check would only take time."""


HANGS = [0]


def patience(limit):
    """How long to wait for a run, given that others did not end."""
    return limit if HANGS[0] < 4 else 3 if HANGS[0] < 40 else 1


def hung():
    HANGS[0] += 1


def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
              os.path.join(VERIF, "harness", "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.lock")]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """Build harness and pa2 from /repo's working tree, whatever the time stamps say."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, "stamp")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want or not os.path.exists(PAH) or not os.path.exists(PA2):
            fp = os.path.join(TARGET, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("pipeawesome2-") or d.startswith("pah-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=os.path.join(VERIF, "harness"),
                               env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("build failed:\n" + r.stdout[-4000:])
            with open(stamp, "w") as f:
                f.write(want)


class Scratch:
    def __init__(self):
        base = os.path.join(BUILD, "scratch")
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix="r", dir=base)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, env=None, workers=1, timeout=600, heap="2g", extra=(), simulate=None, depth_first=False):
    """Run TLC; returns dict with output, states, distinct, ok, violated."""
    with Scratch() as d:
        cfgpath = os.path.join(d, "m.cfg")
        with open(cfgpath, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-lncheck", "final", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfgpath]
        if depth_first:
            cmd.insert(1, "-Dtlc2.tool.queue.IStateQueue=StateDeque")
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as t:
            o = t.stdout or b""
            out, rc = (o.decode("utf8", "replace") if isinstance(o, bytes) else o), -1
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states", out)
    st, di = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m2:
            st = int(m2[-1].replace(",", ""))
    viol = re.findall(r"(?:Invariant|Action property|Temporal property) (\S+) (?:is|was) violated", out)
    if "Temporal properties were violated" in out:
        viol.append("liveness")
    return dict(out=out, rc=rc, states=st, distinct=di, ok=(rc == 0), violated=viol)


def tuples(out, tag):
    """The tuples <<"tag", ...>> a run printed."""
    res = []
    for m in re.finditer(r'<<\s*"%s"' % re.escape(tag), out):
        i, depth, instr = m.start(), 0, False
        while i < len(out):
            c = out[i]
            if instr:
                if c == "\\":
                    i += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif out.startswith("<<", i):
                depth += 1
                i += 1
            elif out.startswith(">>", i):
                depth -= 1
                i += 1
                if depth == 0:
                    break
            i += 1
        else:
            continue
        res.append([x.strip() for x in split_top(out[m.start() + 2:i - 1])[1:]])
    return res


def split_top(s):
    parts, depth, cur, instr = [], 0, "", False
    i = 0
    while i < len(s):
        c = s[i]
        if instr:
            cur += c
            if c == "\\":
                cur += s[i + 1]
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
            cur += c
        elif s.startswith("<<", i):
            depth += 1
            cur += "<<"
            i += 1
        elif s.startswith(">>", i):
            depth -= 1
            cur += ">>"
            i += 1
        elif c in "([{":
            depth += 1
            cur += c
        elif c in ")]}":
            depth -= 1
            cur += c
        elif c == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    parts.append(cur)
    return parts


# ---------------------------------------------------------------- the check

class Check:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.parts = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.known_file = self._known()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def _known(self):
        p = os.path.join(VERIF, "known-findings.txt")
        res = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3)))
        return res

    def part(self, name, **kw):
        d = self.parts.setdefault(name, {})
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in d:
                d[k] += v
            else:
                d[k] = v

    def sample(self, x):
        if len(self.samples) < 6:
            s = json.dumps(x, ensure_ascii=True)
            self.samples.append(x if len(s) < 3000 else s[:3000] + "...")

    def violation(self, what, data, key=None):
        for k, text in self.known_file:
            if key == k:
                self.known.append(text)
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "data": data}, f, indent=1, default=str)
        self.violations.append((what, p))
        if len(self.violations) <= 10:
            log("  violation: %s" % what)
            if len(self.violations) <= 2:
                self.around(what, data)

    def around(self, what, data):
        """The scenario and the events just before the rejected one, for the log."""
        try:
            m = re.search(r"event (\d+) of", what)
            log("    scenario: %s" % json.dumps(data.get("scenario"), default=str)[:1500])
            ev = data["recorded"]["ev"]
            n = int(m.group(1)) if m else len(ev)
            log("    net: %s" % json.dumps(data["recorded"].get("net"), default=str)[:1500])
            for i in range(max(0, n - 8), min(n + 2, len(ev))):
                log("    %d: %s" % (i + 1, json.dumps(ev[i], default=str)[:300]))
        except Exception:
            pass

    def enough(self):
        if self.violations:
            raise Enough()

    # model checking of a design ------------------------------------------------
    def mc(self, module, cfg, name, expect_violation=None, workers=None, timeout=None, heap="4g", simulate=None, env=None):
        self.enough()
        r = tlc(module, cfg, workers=workers or NPROC, timeout=timeout or self.n(200, 1500), heap=heap, simulate=simulate, env=env)
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.part("model " + name, states=r["distinct"], transitions=r["states"])
        if expect_violation:
            if expect_violation not in r["violated"]:
                raise ToolError("model %s: expected %s to be violated\n%s" % (name, expect_violation, r["out"][-3000:]))
            self.parts["model " + name]["expected_counterexample"] = expect_violation
        elif not r["ok"]:
            # the specification is ours and does not depend on the code
            raise ToolError("model %s failed (rc %d)\n%s" % (name, r["rc"], r["out"][-4000:]))
        return r

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples, "parts": self.parts}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for what, p in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()
        return 1 if self.violations else 0


def log(*a):
    print(*a, file=sys.stderr)
    sys.stderr.flush()


def shards(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


def parallel(fn, items, n=NPROC):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


def pah(mode, scenarios, timeout=300, patience=1, procs=NPROC):
    """Run scenarios through the harness in parallel; results by sid."""
    if not scenarios:
        return {}
    res = {}

    def run(batch):
        with Scratch() as d:
            i, o = os.path.join(d, "in"), os.path.join(d, "out")
            with open(i, "w") as f:
                for s in batch:
                    f.write(json.dumps(s) + "\n")
            e = dict(os.environ)
            e["PAH_SCRATCH"] = d
            e["PAH_PATIENCE"] = str(patience)
            try:
                r = subprocess.run([PAH, mode, i, o], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=timeout, errors="replace", stdin=subprocess.DEVNULL)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            out = {}
            if os.path.exists(o):
                for l in open(o):
                    try:
                        x = json.loads(l)
                        out[x["sid"]] = x
                    except ValueError:
                        pass
            return batch, rc, err, out

    for batch, rc, err, out in parallel(run, shards(scenarios, procs), procs):
        res.update(out)
        for s in batch:
            if s["sid"] not in out:
                res[s["sid"]] = {"sid": s["sid"], "died": "harness ended (%s) %s" % (rc, err[-500:])}
    return res
