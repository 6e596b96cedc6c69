"""Whole configurations: what they consist of, how they are run by pa2, and what was seen (judged by spec/Flow.tla)."""
import itertools, resource, signal, threading
from judge import *
from present import present
from cfgchecks import chains, conn_value

PASS = {"faucet": [], "regulator": ["out"], "buffer": ["out"], "junction": ["out"], "drain": [], "launch": []}


class Flow:
    """comps: dicts, edges between their indices (from 1)."""

    count = itertools.count()

    def __init__(self):
        self.comps, self.edges, self.lines, self.sure, self.codes = [], [], {}, False, list(range(99, 9, -1))
        self.note = ""
        self.gifts = []
        self.limit = 40
        self.anyhow = False
        self.alike = next(Flow.count) % 3 == 2

    def comp(self, t, **kw):
        n = len([c for c in self.comps if c["t"] == t])
        name = ALIKE[n] if self.alike and n < len(ALIKE) else "%s%d" % (t[0], n + 1)
        c = dict(t=t, name=name, own={"out": [], "err": [], "exit": []}, **{"pass": list(PASS[t])}, bad=False, quits=False, seen=False, got=[],
                 marked=False, began=0, ended=0)
        c.update(kw)
        self.comps.append(c)
        return len(self.comps)

    def edge(self, a, b, port="out", br="terminate", pr=0):
        self.edges.append(dict(src=a, port=port, dst=b, br=br, pr=pr))

    def text(self, c, n, pad=(0,), end=b"\n", style=b"."):
        """n new lines of component c: their names and bytes."""
        names, data = [], []
        for k in range(n):
            t = "%s%d:%04d;" % (self.comps[c - 1]["t"][0], c, len(self.lines))
            b = t.encode() + (style * (pad[k % len(pad)] // len(style) + 1))[:pad[k % len(pad)]] + (end if k == n - 1 else b"\n")
            self.lines[b] = t
            names.append(t)
            data.append(b)
        return names, data

    def faucet(self, n=0, kind="file", **kw):
        c = self.comp("faucet")
        d = self.comps[c - 1]
        if kind in ("file", "stdin"):
            names, data = self.text(c, n, **kw)
            d["own"]["out"] = names
            d["data"] = b"".join(data)
        d["kind"] = kind
        d["bad"] = kind in ("missing", "directory")
        return c

    def drain(self, kind="file", seen=True):
        c = self.comp("drain")
        d = self.comps[c - 1]
        d.update(kind=kind, seen=seen and kind in ("file", "stdout", "stderr", "old"), bad=kind in ("nodir", "directory", "full"))
        return c

    def launch(self, steps=(), out=0, err=0, passes=(), quits=False, kind="", exit=None, kill=None, pad=(0,), **kw):
        """steps: of pah prog; "own" stands for what it writes by itself."""
        c = self.comp("launch", kind=kind)
        d = self.comps[c - 1]
        d.update(steps=list(steps), marked=True, quits=quits)
        d["pass"] = list(passes)
        d["bad"] = kind == "missing"
        if d["bad"]:
            d["marked"] = False
            d["pass"] = []
            return c
        for p, n in (("out", out), ("err", err)):
            names, data = self.text(c, n, pad=pad)
            d["own"][p] = names
            d["data" + p] = data
        if kill is not None:
            d["last"] = "kill:%d" % kill
            d["own"]["exit"] = ["_"]
        else:
            code = self.codes.pop() if exit is None else exit
            d["last"] = "exit:%d" % code
            d["own"]["exit"] = [str(code)]
        return c

    def regulator(self, buffers=(), low=0, high=0):
        return self.comp("regulator", buffers=list(buffers), water=[low, high])

    # ------------------------------------------------------------------
    def config(self, rng, d):
        cfg = {"connection": {}, "faucet": {}, "drain": {}, "launch": {}, "regulator": {}}
        name = lambda c: (self.comps[c - 1]["t"], self.comps[c - 1]["name"])
        es = [dict(src=name(e["src"]), port=e["port"], dst=name(e["dst"]), br=e["br"], pr=e["pr"]) for e in self.edges]
        for k, ch in enumerate(chains(rng, es)):
            cfg["connection"]["%s%d" % (rng.choice("abcxyz"), k)] = conn_value(rng, ch)
        for i, c in enumerate(self.comps, 1):
            n = c["name"]
            f = os.path.join(d, "%s.%s.dat" % (c["t"], n))
            if c["t"] == "faucet":
                if c["kind"] == "file":
                    with open(f, "wb") as fh:
                        fh.write(c["data"])
                src = {"file": f, "stdin": "-", "empty": "", "missing": os.path.join(d, "no-such"), "directory": d}[c["kind"]]
                cfg["faucet"][n] = {"source": src}
            elif c["t"] == "drain":
                if c["kind"] == "old":
                    with open(f, "wb") as fh:
                        fh.write(b"what was here before\n" * 4000)
                dst = {"file": f, "old": f, "stdout": "-", "stderr": "_", "null": "/dev/null", "none": "", "nodir": os.path.join(d, "none", "x"), "directory": d, "full": "/dev/full"}[c["kind"]]
                cfg["drain"][n] = {"destination": dst}
            elif c["t"] == "launch":
                if c["bad"]:
                    cfg["launch"][n] = {"cmd": os.path.join(d, "no-such-program"), "arg": [], "env": {}, "path": None}
                    continue
                m = os.path.join(d, n + ".m")
                steps = ["mark:%s:b" % m]
                for s in c["steps"]:
                    if s == "late":
                        g = os.path.join(d, n + ".late")
                        with open(g, "wb") as fh:
                            fh.write(c["late"])
                        steps.append("fileerr:" + g)
                        continue
                    if s.startswith("give:"):
                        g = os.path.join(d, "gift." + s[5:])
                        with open(g, "wb") as fh:
                            fh.write(self.gifts[int(s[5:])])
                        steps.append("file:" + g)
                        continue
                    if s != "own":
                        steps.append(s.replace("@", d + "/"))
                        continue
                    # both streams in pieces, in turns
                    rest = {"out": list(c["dataout"]), "err": list(c["dataerr"])}
                    while rest["out"] or rest["err"]:
                        p = rng.choice([p for p in ("out", "err") if rest[p]])
                        k = rng.choice([1, 2, len(rest[p])])
                        g = os.path.join(d, "%s.%d" % (n, len(steps)))
                        with open(g, "wb") as fh:
                            fh.write(b"".join(rest[p][:k]))
                        rest[p] = rest[p][k:]
                        steps.append(("file:" if p == "out" else "fileerr:") + g)
                steps += ["fin", "mark:%s:e" % m, c["last"]]
                cfg["launch"][n] = {"cmd": PAH, "arg": ["prog"] + steps, "env": {}, "path": None}
            elif c["t"] == "regulator":
                cfg["regulator"][n] = {"buffered": c["water"], "monitored_buffers": [self.comps[b - 1]["name"] for b in c["buffers"]]}
        return cfg

    def tokens(self, b):
        """The names of the messages in b; unknown bytes get a name of their own."""
        res, i = [], 0
        while i < len(b):
            if 48 <= b[i] < 58 and 48 <= b[i + 1:i + 2][0:1][0] < 58 if i + 1 < len(b) else False:
                res.append(b[i:i + 2].decode())
                i += 2
                continue
            if b[i] == 95:
                res.append("_")
                i += 1
                continue
            j = b.find(b"\n", i)
            j = len(b) if j < 0 else j + 1
            piece = b[i:j]
            if piece in self.lines:
                res.append(self.lines[piece])
            else:
                # an unterminated line of a source, followed by others
                hit = [k for k in self.lines if not k.endswith(b"\n") and piece.startswith(k)]
                if hit:
                    k = max(hit, key=len)
                    res.append(self.lines[k])
                    j = i + len(k)
                else:
                    res.append("?" + piece[:60].decode("latin1").encode("ascii", "backslashreplace").decode())
            i = j
        return res

    def run(self, rng, sid, keep=False):
        with Scratch() as d:
            cfg = self.config(rng, d)
            stdin = b"".join(c["data"] for c in self.comps if c.get("kind") == "stdin" and c["t"] == "faucet")
            if self.anyhow:
                text, args, through, name = present(rng, cfg, stdin_free=not any(c.get("kind") == "stdin" for c in self.comps))
                self.note += json.dumps({"text": text, "args": args})
                stdin = text.encode() if through else stdin
            else:
                text, args, name = json.dumps(cfg), ["--config", "c.json", "--format", "json"], "c.json"
            with open(os.path.join(d, name), "w", newline="") as f:
                f.write(text)
            rc, out, err = run_pa2(["process"] + args, d, stdin, limit=self.limit)
            status = {0: "ok", 1: "error", "hang": "hang"}.get(rc, "crash %s" % rc)
            body, report = err, b""
            k = err.find(b"Error(s) have occurred:\n\n * ")
            if k >= 0:
                body, report = err[:k], err[k:]
            has = lambda kind: any(c["t"] == "drain" and c["kind"] == kind for c in self.comps)
            # programs whose standard error is not connected do not write to pa2's
            extra = (out != b"" and not has("stdout")) or (body != b"" and not has("stderr"))
            for c in self.comps:
                if c["t"] == "drain" and c["seen"]:
                    f = os.path.join(d, "%s.%s.dat" % (c["t"], c["name"]))
                    b = out if c["kind"] == "stdout" else body if c["kind"] == "stderr" else open(f, "rb").read() if os.path.exists(f) else b"no file"
                    c["got"] = ([b.decode("latin1")] if b else []) if c.get("whole") else self.tokens(b)
                elif c["t"] == "launch":
                    f = os.path.join(d, c["name"] + ".m")
                    m = open(f).read().split() if os.path.exists(f) else []
                    c["began"], c["ended"] = m.count("b"), m.count("e")
            lines, odd = self.report(report)
        for c in self.comps:
            c["full"] = c["t"] == "drain" and c.get("kind") == "full"
        keys = ("t", "own", "pass", "bad", "full", "quits", "seen", "got", "marked", "began", "ended")
        rec = dict(sid=sid, comps=[{k: c[k] for k in keys} for c in self.comps], edges=[{k: e[k] for k in ("src", "port", "dst", "br")} for e in self.edges],
                   sure=self.sure, status=status, lines=lines, extra=extra or odd)
        return rec, dict(config=cfg, status=status, stdout=out[-2000:].decode("latin1"), stderr=err[-2000:].decode("latin1"), note=self.note)

    def report(self, b):
        idx = {"%s:%s" % (c["t"], c["name"]): i for i, c in enumerate(self.comps, 1)}
        lines = []
        if not b:
            return [], False
        t = b.decode("utf8", "replace")
        t = t[len("Error(s) have occurred:\n\n"):]
        odd = not t.endswith("\n\n")
        for l in t.rstrip("\n").split("\n"):
            m = re.match(r" \* (.*?) \| (.*?) - ", l)
            if not m:
                odd = True
                continue
            who = []
            for x in m.groups():
                x = x[:1].lower() + x[1:]
                who.append(idx.get(x, -1 if x.startswith("unknown ") else 0))
            lines.append({"src": who[0], "dst": who[1]})
        return lines, odd


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_pa2(args, d, stdin=b"", limit=40, env=None, stdout=None):
    """pa2 and what it starts, in a session of their own."""
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0"}
    e.update(env or {})
    p = subprocess.Popen([PA2] + args, cwd=d, env=e, stdin=subprocess.PIPE if isinstance(stdin, bytes) else stdin, stdout=stdout or subprocess.PIPE,
                         stderr=subprocess.PIPE, preexec_fn=limits)
    try:
        out, err = p.communicate(stdin if isinstance(stdin, bytes) else None, timeout=patience(limit))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        hung()
        rc = "hang"
        end_session(p.pid)
        out, err = p.communicate()
    else:
        end_session(p.pid)
    return rc, out or b"", err or b""


def end_session(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


# ------------------------------------------------------------------ healthy networks
def healthy(rng, size=None, pad=None, lines=None, types=None, pols="TTTFC", monitors=True):
    """A network without loops and failures; every component but the drains has an output."""
    f = Flow()
    n = size or rng.choice([1, 2, 3, 4, 6, 8])
    lines = lines or [0, 1, 2, 5, 12]
    pad = pad or rng.choice([(0,), (0,), (0, 3, 200), (254, 255, 256), (5000,)])
    pick = lambda: {"T": "terminate", "F": "finish", "C": "consume"}[rng.choice(pols)]
    stdin = stdout = stderr = killed = False
    outs = []    # (component, port) which may feed others
    for k in range(n):
        t = rng.choice(types or ["faucet", "launch", "launch", "junction", "buffer", "regulator"])
        if not outs and t not in ("faucet", "launch"):
            t = "faucet"
        c = None
        if t == "faucet":
            kind = rng.choice(["file", "file", "file", "stdin", "empty"])
            if kind == "stdin" and stdin:
                kind = "file"
            stdin = stdin or kind == "stdin"
            c = f.faucet(rng.choice(lines), kind, pad=pad)
        elif t == "launch":
            fed = bool(outs) and rng.random() < .75
            prog = rng.choice([("cat", ["out"]), ("cat", ["out"]), ("slurp", ["out"]), ("tee", ["out", "err"]), ("caterr", ["err"]), ("sink", [])]) if fed else ("", [])
            steps = [s for s in (rng.choice(["", "own"]), prog[0]) if s]
            if "own" not in steps:
                steps.append("own")
            kill = None
            if not killed and rng.random() < .2:
                kill, killed = rng.choice([9, 15]), True
            c = f.launch(steps, rng.choice(lines), rng.choice(lines), prog[1], kill=kill, pad=pad)
            if fed:
                join(f, rng, outs, c, pick)
        else:
            c = f.regulator() if t == "regulator" else f.comp(t)
            join(f, rng, outs, c, pick)
        outs += [(c, p) for p in (["out", "err", "exit"] if t == "launch" else ["out"])]
    # what has no output goes to drains
    for c, p in list(outs):
        used = [e for e in f.edges if e["src"] == c and e["port"] == p]
        need = not used and (f.comps[c - 1]["t"] != "launch" or rng.random() < .6)
        if need or rng.random() < .15:
            old = [i for i, x in enumerate(f.comps, 1) if x["t"] == "drain"]
            if old and rng.random() < .35:
                d = rng.choice(old)
            else:
                kind = rng.choice(["file", "file", "file", "old", "stdout", "stderr", "null", "none"])
                kind = "file" if (kind == "stdout" and stdout) or (kind == "stderr" and stderr) else kind
                stdout, stderr = stdout or kind == "stdout", stderr or kind == "stderr"
                d = f.drain(kind)
            f.edge(c, d, p, pick())
    if not f.edges:
        c = f.drain()
        f.edge(1, c, "out", pick())
    if monitors:
        watch(f, rng)
    return f


def join(f, rng, outs, c, pick):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s, p = rng.choice(outs[-6:])
        if any(e["src"] == s and e["port"] == p and e["dst"] == c for e in f.edges):
            continue
        f.edge(s, c, p, pick(), rng.choice([0, 0, 1, -3]) if f.comps[c - 1]["t"] == "junction" else 0)


def after(f, c):
    res, todo = set(), [c]
    while todo:
        x = todo.pop()
        for e in f.edges:
            if e["src"] == x and e["dst"] not in res:
                res.add(e["dst"])
                todo.append(e["dst"])
    return res


def watch(f, rng):
    """Let regulators monitor buffers: none which comes before a monitoring regulator."""
    regs = [i for i, c in enumerate(f.comps, 1) if c["t"] == "regulator"]
    bufs = [i for i, c in enumerate(f.comps, 1) if c["t"] == "buffer"]
    rng.shuffle(regs)
    mine = []
    for r in regs:
        free = [b for b in bufs if b not in mine and not any(q in after(f, b) for q in regs)]
        take = rng.sample(free, rng.randint(0, len(free)))
        mine += take
        low = rng.choice([0, 0, 1, 3])
        f.comps[r - 1].update(buffers=take, water=[low, low + rng.choice([1, 2, 5])])


def execute(chk, flows, name, procs=NPROC):
    """Run them all and let the specification judge."""
    chk.enough()
    # the run itself is random too
    jobs = [(i, f, random.Random(chk.rng.random())) for i, f in enumerate(flows)]
    res = parallel(lambda j: j[1].run(j[2], j[0]), jobs, procs)
    recs = [r for r, _ in res]
    v = judge(chk, "FlowJudge", recs, name)
    for r, how in res:
        why = v[str(r["sid"])][0]
        if why != "fine":
            chk.violation("%s: %s (%s)" % (name, why, how["status"]), {"seen": r, "run": how})
    c = {}
    for r in recs:
        c[r["status"]] = c.get(r["status"], 0) + 1
    chk.part(name, runs=len(recs), components=sum(len(r["comps"]) for r in recs), **c)
    for r in recs[:1]:
        chk.sample({"flow": name, "edges": r["edges"], "status": r["status"], "comps": [dict(t=c["t"], own=c["own"], got=c["got"]) for c in r["comps"]]})
    return res


def spoil(f, rng, quits=.5, bad=.5):
    """Let some components of a healthy network fail or stop reading."""
    hit = 0
    for i, c in enumerate(f.comps, 1):
        if c["t"] == "faucet" and rng.random() < bad * .4 and c["kind"] != "stdin":
            c["kind"], c["bad"], c["own"] = rng.choice(["missing", "directory"]), True, {"out": [], "err": [], "exit": []}
        elif c["t"] == "drain" and rng.random() < bad * .5:
            c["kind"], c["bad"], c["seen"] = rng.choice(["nodir", "directory"]), True, False
        elif c["t"] == "launch" and rng.random() < bad * .3:
            c.update(bad=True, marked=False, own={"out": [], "err": [], "exit": []}, **{"pass": []})
        elif c["t"] == "launch" and any(s in ("cat", "sink", "slurp", "caterr", "tee") for s in c["steps"]) and rng.random() < quits:
            way = rng.choice(["head", "none", "closein"])
            c["quits"] = True
            c["steps"] = [s for s in c["steps"] if s == "own"]
            c["pass"] = ["out"] if way == "head" else []
            c["steps"].insert(rng.randint(0, len(c["steps"])), {"head": "head:%d" % rng.choice([0, 1, 3]), "none": "sleep:0", "closein": "closein"}[way])
        else:
            continue
        hit += 1
    return hit


def endless(rng, mids=None, last=None, br=None):
    """A source without end and a program which stops reading, connected by Finish."""
    f = Flow()
    s = f.launch(["count:l1"], kind="endless")
    c = f.comps[s - 1]
    for k in range(30):
        t = "l1:%04d;" % k
        f.lines[t.encode() + b"\n"] = t
        c["own"]["out"].append(t)
    at = s
    for t in mids or []:
        n = f.regulator() if t == "regulator" else f.launch(["cat"], passes=["out"]) if t == "launch" else f.comp(t)
        f.edge(at, n, "out", "finish")
        at = n
    steps, passes = last or (["head:%d" % rng.choice([0, 1, 7])], ["out"])
    h = f.launch(steps + ["own"], out=rng.choice([0, 2]), passes=passes, quits=True)
    f.edge(at, h, "out", br or "finish")
    d = f.drain()
    f.edge(h, d)
    if rng.random() < .5:
        f.edge(s, f.drain(), "exit")
    return f


def consumer_gone(rng, br, via=None, tee=True):
    """A program which writes a lot to one which stops reading, and then says so on its standard error."""
    f = Flow()
    s = f.launch(["own"], out=60, err=0, pad=(4000,))
    f.comps[s - 1]["steps"] = ["own", "late"]
    at = s
    if via:
        at = f.regulator() if via == "regulator" else f.comp(via)
        f.edge(s, at, "out", br)
    h = f.launch([rng.choice(["head:0", "head:2", "closein"])], passes=["out"], quits=True)
    f.edge(at, h, "out", br)
    f.edge(h, f.drain())
    if tee:
        f.edge(at, f.drain(), "out", rng.choice(["terminate", "finish", "consume"]))
    # what comes after all of the output
    names, data = f.text(s, 4)
    f.comps[s - 1]["own"]["err"] = names
    f.comps[s - 1]["late"] = b"".join(data)
    f.edge(s, f.drain(), "err")
    return f
