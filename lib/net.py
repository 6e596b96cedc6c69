"""Whole networks under control, every write recorded by the spy; judged by spec/NetLog.tla."""
import itertools
from core import *
from cfgchecks import chains, conn_value

LOG_CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Reached\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
PROCS = 8


class Plan:
    """A network and what happens around it."""

    count = itertools.count()

    def __init__(self, rng, pad=2000):
        self.alike = next(Plan.count) % 3 == 2
        self.rng, self.pad = rng, pad
        self.edges, self.regs, self.names, self.n, self.script, self.shut = [], {}, {}, 1000, [], set()

    def new(self, t):
        self.names.setdefault(t, [])
        n = "%s%d" % (t[0], len(self.names[t]) + 1)
        k = sum(len(v) for v in self.names.values())
        if self.alike and k < len(ALIKE):
            n = ALIKE[k]
        self.names[t].append(n)
        if t == "regulator":
            self.regs[n] = ([0, 1], [])
        return (t, n)

    def edge(self, a, b, port="out", br=None, pr=0):
        self.edges.append(dict(src=a, port=port, dst=b, br=br or "terminate", pr=pr))

    def ports(self, c):
        return {e["port"] for e in self.edges if e["src"] == c}

    def ins(self, c):
        return [e for e in self.edges if e["dst"] == c]

    # ---- script
    def op(self, a, c=("", ""), m=0):
        # what has been closed is left alone
        if a in ("take", "drain", "closein", "out", "err", "closeout", "closeerr", "exit", "kill"):
            what = {"take": "in", "drain": "in", "closein": "in", "out": "out", "closeout": "out", "err": "err", "closeerr": "err"}.get(a, "exit")
            if (c, what) in self.shut or (c, "exit") in self.shut:
                return
            if a.startswith("close") or what == "exit":
                self.shut.add((c, what))
        if a in ("give", "end"):
            if (c, "end") in self.shut:
                return
            if a == "end":
                self.shut.add((c, "end"))
        self.script.append([a, c[1], m])

    def settle(self):
        if not self.script or self.script[-1][0] != "settle":
            self.op("settle")

    def give(self, c, n=1):
        for _ in range(n):
            self.n += 1
            self.op("give" if c[0] == "faucet" else "out", c, self.n)

    def err(self, c):
        self.n += 1
        self.op("err", c, self.n)

    def take(self, c, n=1):
        for _ in range(n):
            self.op("take", c)

    def finish(self, takes=250):
        """Let everything end, in any order; who reads reads all first (mostly)."""
        rng = self.rng
        fs = [("faucet", n) for n in self.names.get("faucet", [])]
        ls = [("launch", n) for n in self.names.get("launch", []) if ("launch", n) in {e[k] for e in self.edges for k in ("src", "dst")}]
        ended = rng.sample(fs, len(fs))
        for f in ended:
            self.op("end", f)
        if rng.random() < .3:
            self.settle()
        left = list(ls)
        while left:
            # those which feed others first, or anything
            free = [l for l in left if not any(o in left and l in self.downstream(o) and o not in self.downstream(l) for o in left if o != l)] or left
            l = rng.choice(free) if rng.random() < .8 else rng.choice(left)
            left.remove(l)
            if self.ins(l) and rng.random() < .85:
                self.op("drain", l, takes)
            if rng.random() < .2:
                self.op(rng.choice(["closein", "closeout", "closeerr"]), l)
            if rng.random() < .85:
                self.op("exit", l, rng.choice([10, 20, 77]))
            else:
                self.op("kill", l, rng.choice([9, 15]))
            if rng.random() < .15 and left:
                self.settle()
        self.settle()

    def downstream(self, c):
        res, todo = set(), [c]
        while todo:
            x = todo.pop()
            for e in self.edges:
                if e["src"] == x and e["dst"] not in res:
                    res.add(e["dst"])
                    todo.append(e["dst"])
        return res

    def scenario(self, sid):
        # exit codes are no lines: programs do not get them
        for e in self.edges:
            if e["port"] == "exit" and any(c[0] == "launch" for c in {e["dst"]} | self.downstream(e["dst"])):
                e["port"] = "out"
        cfg = {"connection": {}, "faucet": {}, "drain": {}, "launch": {}, "regulator": {n: {"buffered": w, "monitored_buffers": b} for n, (w, b) in self.regs.items()}}
        for k, ch in enumerate(chains(self.rng, self.edges)):
            cfg["connection"]["%s%d" % (self.rng.choice("abcxyz"), k)] = conn_value(self.rng, ch)
        used = {e[k] for e in self.edges for k in ("src", "dst")}
        pick = lambda t: [n for n in self.names.get(t, []) if (t, n) in used]
        return {"sid": sid, "config": cfg, "pad": self.pad, "faucets": pick("faucet"), "launches": pick("launch"), "drains": pick("drain"), "script": self.script}


# ---------------------------------------------------------------- families

def watermarks(rng):
    """A regulator which monitors one or more buffers; each is emptied by a program."""
    p = Plan(rng)
    f, r = p.new("faucet"), p.new("regulator")
    p.edge(f, r)
    at = r
    if rng.random() < .3:
        j = p.new("junction")
        p.edge(r, j)
        at = j
    n = rng.choice([1, 1, 2, 2, 3])
    mons, progs = [], []
    for k in range(n):
        b = p.new("buffer")
        l = p.new("launch")
        p.edge(at, b, br=rng.choice(["terminate", "finish", "consume"]))
        p.edge(b, l, br=rng.choice(["terminate", "finish", "finish"]))
        if k == 0 or rng.random() < .7:
            mons.append(b[1])
        progs.append((b, l))
        if rng.random() < .3:
            p.edge(l, p.new("drain"), rng.choice(["out", "exit"]))
    others = []
    if rng.random() < .4:
        # one more source of a monitored buffer
        g = p.new("faucet") if rng.random() < .5 else p.new("launch")
        p.edge(g, progs[0][0])
        others.append(g)
    sides = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        # monitored buffers which the regulator does not feed, and which may be over early
        g, b, l = p.new("faucet"), p.new("buffer"), p.new("launch")
        p.edge(g, b)
        p.edge(b, l)
        mons.append(b[1])
        progs.append((b, l))
        others.append(g)
        sides.append(g)
    marks = lambda: (lambda low: [low, low + rng.choice([1, 1, 2, 3, 5])])(rng.choice([0, 0, 1, 2, 4]))
    again = lambda bs: rng.sample(bs + bs[:1], len(bs) + 1) if rng.random() < .15 else bs
    low, high = marks()
    p.regs[r[1]] = ([low, high], again(mons))
    if rng.random() < .35:
        # a second regulator, which monitors some of the same buffers
        f2, r2 = p.new("faucet"), p.new("regulator")
        p.edge(f2, r2)
        b = rng.choice(progs)[0] if rng.random() < .5 else p.new("buffer")
        p.edge(r2, b)
        if not any(b == x for x, _ in progs):
            l = p.new("launch")
            p.edge(b, l)
            progs.append((b, l))
        bs = sorted({x[1] for x, _ in progs})
        p.regs[r2[1]] = (marks(), again(rng.sample(bs, rng.randint(1, len(bs)))))
        others += [f2, f2]
    quit, over = set(), set()
    p.give(f, rng.choice([high, high + 4, high + 8, 3]))
    for _ in range(rng.choice([4, 6, 8])):
        p.settle()
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choices(["give", "take", "takeall", "other", "quit", "end"], [2, 5, 1, 2, .4, .7])[0]
            b, l = rng.choice(progs)
            if k == "give":
                p.give(f, rng.choice([1, 2, high]))
            elif k == "end":
                # one or two of them at once
                for g in rng.sample(sides, min(len(sides), rng.choice([1, 2]))):
                    p.op("end", g)
                    over.add(g)
            elif k == "other" and [g for g in others if g not in over]:
                others = [g for g in others if g not in over]
                p.give(rng.choice(others), rng.choice([1, high]))
            elif l in quit:
                continue
            elif k == "take":
                p.take(l, rng.choice([1, 1, 2, 3, high]))
            elif k == "takeall":
                for _, l in progs:
                    if l not in quit:
                        p.take(l, rng.choice([1, 2, low + 1]))
            elif k == "quit" and n > 1:
                p.op("closein", l)
                quit.add(l)
    p.settle()
    p.finish()
    return p


def general(rng, size=None, types=None, pols=("terminate", "terminate", "finish", "consume"), settles=(2, 4, 6)):
    """Any network without loops."""
    p = Plan(rng, pad=rng.choice([40, 40, 600, 2000]))
    comps = [p.new(rng.choice(["faucet", "faucet", "launch"])) for _ in range(rng.choice([1, 1, 2, 3]))]
    for _ in range(size if size is not None else rng.choice([1, 2, 3, 5])):
        comps.append(p.new(rng.choice(types or ["junction", "junction", "buffer", "regulator", "launch"])))
    ends = [p.new(rng.choice(["drain", "launch"])) for _ in range(rng.choice([1, 1, 2, 3]))]
    heads = [c for c in comps]
    port = lambda c: rng.choice(["out", "out", "err", "exit"]) if c[0] == "launch" else "out"
    pri = lambda d: rng.choice([0, 0, 1, 2, -1]) if d[0] == "junction" else 0
    for i, c in enumerate(comps):
        if c[0] in ("junction", "buffer", "regulator") or (c[0] == "launch" and rng.random() < .5 and i):
            for s in rng.sample(comps[:i], min(i, rng.choice([1, 1, 2]))):
                p.edge(s, c, port(s), rng.choice(pols), pri(c))
    for d in ends:
        for s in rng.sample(comps, min(len(comps), rng.choice([1, 1, 2, 3]))):
            p.edge(s, d, port(s), rng.choice(pols))
    for c in comps:
        # relays without an output
        if not p.ports(c) and (c[0] != "launch" or not p.ins(c)):
            p.edge(c, rng.choice(ends), port(c), rng.choice(pols))
    # who monitors what
    bufs = [("buffer", n) for n in p.names.get("buffer", [])]
    for n in p.names.get("regulator", []):
        free = [b for b in bufs if not any(b[1] in m for _, m in p.regs.values()) and not any(d[0] == "regulator" for d in p.downstream(b))]
        low = rng.choice([0, 0, 1, 3])
        p.regs[n] = ([low, low + rng.choice([1, 2, 4])], [b[1] for b in free if rng.random() < .7])
    alive = {}
    sources = [c for c in comps + ends if c[0] in ("faucet", "launch") and (p.ports(c) or p.ins(c))]
    closed = set()
    for k in range(rng.choice(settles)):
        for _ in range(rng.choice([2, 5, 10, 20])):
            c = rng.choice(sources)
            if c[0] == "faucet":
                if (c, "out") not in closed:
                    p.give(c, rng.choice([1, 1, 3, 6]))
                    if rng.random() < .03:
                        p.op("end", c)
                        closed.add((c, "out"))
                continue
            if (c, "exit") in closed:
                continue
            a = rng.choices(["out", "err", "take", "closein", "closeout", "closeerr", "exit"], [3, 2 if "err" in p.ports(c) else .2, 4 if p.ins(c) else 0, .15, .1, .1, .1])[0]
            if a in ("out", "err"):
                if (c, a) not in closed:
                    p.give(c, rng.choice([1, 2, 4])) if a == "out" else p.err(c)
            elif a == "take":
                if (c, "in") not in closed:
                    p.take(c, rng.choice([1, 1, 2]))
            elif a == "exit":
                p.op("exit", c, rng.choice([10, 99]))
                closed.add((c, "exit"))
            else:
                p.op(a, c)
                closed.add((c, a[5:]))
        if rng.random() < .8:
            p.settle()
    p.finish()
    return p


def loop(rng):
    """Programs which send some of what they get back through a buffer."""
    p = Plan(rng, pad=rng.choice([40, 40, 600, 2000]))
    f, l, b = p.new("faucet"), p.new("launch"), p.new("buffer")
    j = p.new("junction") if rng.random() < .6 else None
    pr = rng.choice([0, 1, -1])
    at = l
    if j:
        p.edge(f, j, pr=rng.choice([0, 2]))
        p.edge(j, l)
    else:
        p.edge(f, l)
    into = j or l
    if rng.random() < .5:
        m = p.new("regulator")
        p.edge(l, m, "out")
        p.edge(m, b)
        p.regs[m[1]] = ([0, 1], [])
    else:
        p.edge(l, b, "out")
    p.edge(b, into, pr=pr if j else 0)
    p.edge(l, p.new("drain"), "err")
    given = 0
    for _ in range(rng.choice([3, 5, 7])):
        k = rng.choice([1, 3, 8, 20])
        p.give(f, k)
        given += k
        for _ in range(rng.randint(0, 12)):
            p.take(l) if given else None
            if rng.random() < .7:
                p.give(l, rng.choice([1, 2]))
                given += 1
            else:
                p.err(l)
        if rng.random() < .8:
            p.settle()
    p.op("end", f)
    p.op("drain", l, 250)
    p.op("exit", l, 10)
    p.settle()
    return p


# ---------------------------------------------------------------- running and judging

def pah_net(scs, patience=1, timeout=300, threads=8):
    res = {}

    def run(batch):
        with Scratch() as d:
            i, o = os.path.join(d, "in"), os.path.join(d, "out")
            with open(i, "w") as f:
                for s in batch:
                    f.write(json.dumps(s) + "\n")
            e = dict(os.environ, PAH_SCRATCH=d, PAH_PATIENCE=str(patience))
            try:
                r = subprocess.run([PAH, "net", i, o, str(threads)], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace", text=True)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = "timeout", ""
            out = {}
            for l in (open(o) if os.path.exists(o) else []):
                try:
                    x = json.loads(l)
                    out[x["sid"]] = x
                except ValueError:
                    pass
            return batch, rc, err, out

    # pipes are scarce for who has no privileges (fs.pipe-user-pages-soft)
    for batch, rc, err, out in parallel(run, shards(scs, PROCS), PROCS):
        res.update(out)
        for s in batch:
            if s["sid"] not in out:
                res[s["sid"]] = {"sid": s["sid"], "died": "harness ended (%s) %s" % (rc, err[-300:])}
    return res


def trace(rec, pad):
    """What NetLog gets: the wired network and the events in its terms."""
    w = rec["wired"]
    comps, num, edges, by = [], {}, [], {}

    def comp(t, n):
        k = "%s:%s" % (t, n)
        if k not in num:
            comps.append({"kind": t})
            num[k] = len(comps)
        return num[k]

    for name in sorted(w["connection"]):
        ch = w["connection"][name]
        for a, b in zip(ch, ch[1:]):
            s, d = comp(a["component_type"], a["component_name"]), comp(b["component_type"], b["component_name"])
            port = a.get("output_port") or "out"
            edges.append({"src": s, "port": port, "dst": d, "pol": {"terminate": "T", "finish": "F", "consume": "C"}[b.get("breakable") or "terminate"], "prio": b.get("priority") or 0})
            by.setdefault(("%s:%s" % (a["component_type"], a["component_name"]), port, "%s:%s" % (b["component_type"], b["component_name"])), []).append(len(edges))
    mon = []
    for n, r in sorted((w.get("regulator") or {}).items()):
        bufs = [num["buffer:" + b] for b in r.get("monitored_buffers") or [] if "buffer:" + b in num]
        if "regulator:" + n in num and bufs:
            mon.append({"reg": num["regulator:" + n], "bufs": bufs, "low": r["buffered"][0], "high": r["buffered"][1]})
    ev = []
    for v in rec["ev"]:
        a = v["a"]
        if a == "w":
            es = by.get((v["src"], v["port"], v["dst"]))
            if not es:
                return None, "a write on %s %s %s, which is no connection" % (v["src"], v["port"], v["dst"])
            ev.append({"a": "w", "es": es, "m": v["m"]})
        elif a == "quiet":
            ev.append({"a": "quiet", "fut": v["c"]})
        elif a in ("give", "out", "err", "end", "failed", "take", "empty", "eof", "closein", "closeout", "closeerr", "exit"):
            if v["c"] not in num:
                return None, "unknown %s" % v["c"]
            ev.append({"a": a, "c": num[v["c"]], "m": v["m"]})
        else:
            ev.append({"a": a})
    if rec["fut"] != "run":
        ev.append({"a": "files", "got": [[num["drain:" + d], ms] for d, ms in sorted(rec["got"].items())]})
    return {"sid": rec["sid"], "net": {"comps": comps, "edges": edges, "mon": mon, "pipe": 2 * (4096 // pad) + 4}, "ev": ev}, None


def nets(chk, plans, name):
    from comp import validate
    chk.enough()
    scs = [p.scenario(i) for i, p in enumerate(plans)]

    def judge(recs, label):
        bad, good = {}, []
        for sid, r in recs.items():
            why = r.get("died") or r.get("error")
            if not why and r["fut"] == "panic":
                why = "panic"
            t = None
            if not why:
                t, why = trace(r, scs[sid]["pad"])
            if why:
                bad[sid] = why
            else:
                good.append(t)
        v = validate(chk, good, module="NetLogTrace", cfg=LOG_CFG, name=label)
        evs = {t["sid"]: t["ev"] for t in good}
        for sid, (ok, got, total) in v.items():
            if not ok:
                bad[sid] = "event %d of %d (%s) is not explained by the specification" % (got + 1, total, json.dumps(evs[sid][got])[:80])
        return bad

    recs = pah_net(scs, timeout=chk.n(200, 1500))
    bad = judge(recs, name)
    if bad:
        log("  %s: %d rejected, running these again with more patience" % (name, len(bad)))
        again = [scs[s] for s in sorted(bad)]
        for part in (again[:32], again[32:96]):
            if chk.violations:
                break
            recs2 = pah_net(part, patience=3, timeout=chk.n(300, 900))
            for sid, why in sorted(judge(recs2, name + " (again)").items()):
                chk.violation("%s: %s" % (name, why), {"scenario": scs[sid], "recorded": recs2[sid]})
    chk.traces += len(recs) - len(bad)
    for s in scs[:1]:
        chk.sample({"scenario": {k: s[k] for k in ("config", "script")}, "events": len(recs[s["sid"]].get("ev", []))})
