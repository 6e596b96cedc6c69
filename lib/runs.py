"""Checks which run programs and whole configurations."""
from judge import *
import collections, flow
from flow import Flow, execute, healthy, spoil, run_pa2

# ---------------------------------------------------------------- C02
FRAMC = "SPECIFICATION Spec\nINVARIANTS Right Nothing Prompt\n%sCHECK_DEADLOCK FALSE\nCONSTANTS Alphabet = %s MaxLen = %d MaxPiece = %d Cap = %d\n"


def ints(s):
    return json.loads(s.replace("<<", "[").replace(">>", "]"))


def cut(rng, data, sizes):
    res, i = [], 0
    while i < len(data):
        k = rng.choice(sizes)
        res.append(data[i:i + k])
        i += k
    return res


def long_data(rng):
    """Lines around the sizes of read buffers, of any bytes."""
    data = []
    kind = rng.randrange(4)
    for _ in range(rng.randint(1, 4)):
        n = rng.choice([0, 1, 2, 100, 252, 253, 254, 255, 256, 257, 509, 510, 511, 765, 1020, 1024])
        body = {0: [97], 1: [97, 13], 2: [x for x in range(256) if x != 10], 3: [0, 255, 13]}[kind]
        data += [rng.choice(body) for _ in range(n)] + rng.choice([[10], [13, 10], [10, 10], [13, 13, 10], [10, 13]])
    if rng.random() < .5:
        data += rng.choice([[97], [13], [0], [97] * 255, [98] * 256, [13, 13]])
    return data[:3000]


def c02(chk):
    rng = chk.rng
    cases = []
    for k, (al, ml, mp, cap) in enumerate([("{10, 13, 97}", 4, 4, 255), ("{10, 13, 97}", 5 if chk.thorough else 4, 3, 2), ("{10, 97}", 6, 6, 255), ("{10, 13}", 6, 3, 1)]):
        r = chk.mc("FramingGen", FRAMC % ("CONSTRAINT Emit\n", al, ml, mp, cap), "readers %d" % k)
        got = [ints(json.loads(t[0])) for t in tuples(r["out"], "PIECES")]
        got = [list(x) for x in sorted({tuple(tuple(p) for p in g) for g in got})]
        cases += got if len(got) <= chk.n(900, 10 ** 9) else rng.sample(got, 900)
    cases = [list(x) for x in sorted({tuple(tuple(p) for p in c) for c in cases})]
    for _ in range(chk.n(250, 4000)):
        d = long_data(rng)
        cases.append(cut(rng, d, rng.choice([[1], [2, 3], [254, 255, 256], [255], [1, 255], [10 ** 6], [64, 128, 510]]) if len(d) < 400 else rng.choice([[254, 255, 256], [255], [200], [10 ** 6], [510, 1]])))
    recs = []
    for i, c in enumerate(cases):
        short = sum(len(p) for p in c) < 10
        for via in (["file", "stdin", "out", "err"] if not short else ["file"] + ([rng.choice(["stdin", "out", "err"])] if i % chk.n(2, 1) == 0 else [])):
            recs.append({"sid": len(recs), "via": via, "chunks": [list(p) for p in c]})
    got = pah("frame", recs, timeout=chk.n(300, 3000))
    out = []
    for r in recs:
        g = got[r["sid"]]
        out.append({"sid": r["sid"], "status": g.get("status", g.get("died")), "bytes": [b for p in r["chunks"] for b in p], "msgs": g.get("msgs", [])})
    v = judge(chk, "FramingJudge", out, "cut streams")
    chk.part("cut streams", **{k: sum(1 for r in recs if r["via"] == k) for k in ("file", "stdin", "out", "err")})
    for r, o in zip(recs, out):
        if v[str(r["sid"])][0] != "TRUE":
            chk.violation("bytes read from %s in pieces: %s" % (r["via"], o["status"]), {"via": r["via"], "pieces": r["chunks"], "messages": o["msgs"]})
    for o in out[:3]:
        chk.sample(o)
    long_lines(chk)


def long_lines(chk):
    """Lines up to several MiB, written and judged as runs of equal bytes."""
    rng = chk.rng
    recs = []
    for k in range(chk.n(24, 200)):
        runs = []
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.choice([4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 200000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1500000, (2 << 20) + 7, 5 << 20])
            while n > 0:
                k = min(n, rng.choice([1, 255, 5000, n]))
                b = rng.choice([x for x in (97, 13, 0, 255, 65) if not runs or runs[-1][0] != x])
                runs.append([b, k])
                n -= k
                if len(runs) > 40:
                    break
            runs.append([10, rng.choice([1, 1, 1, 2])])
        if rng.random() < .6:
            runs.append([98, rng.choice([1, 70000, 1100000])])
        for via in rng.sample(["file", "stdin", "out", "err"], chk.n(2, 4)):
            recs.append({"sid": len(recs), "via": via, "chunks": {"runs": runs, "piece": rng.choice([4096, 65536, 30000])}})
    got = pah("frame", recs, timeout=chk.n(300, 1500))
    out = [{"sid": r["sid"], "status": got[r["sid"]].get("status", got[r["sid"]].get("died")), "runs": r["chunks"]["runs"], "msgs": got[r["sid"]].get("msgs", [])} for r in recs]
    v = judge(chk, "FramingJudge", out, "long lines")
    for r, o in zip(recs, out):
        if v[str(r["sid"])][0] != "TRUE":
            chk.violation("long lines read from %s: %s" % (r["via"], o["status"]), {"via": r["via"], "runs": r["chunks"], "messages": o["msgs"]})


# ---------------------------------------------------------------- whole runs
SYSC = "SPECIFICATION Spec\nINVARIANTS Ends TypeOK\nCHECK_DEADLOCK TRUE\nCONSTANTS Pick = \"%s\" Pols = %s\n"
ALLP = '{"terminate", "finish", "consume"}'


def system(chk, name, pols=ALLP, simulate=None, heap="6g"):
    """Every way (or many ways) to run the small configurations of a family ends with what Flow allows."""
    return chk.mc("SysMC", SYSC % (name, pols), "runs %s" % name, heap=heap, simulate=("num=%d" % simulate) if simulate else None)


def spoiled(rng, **kw):
    while True:
        f = healthy(rng, **kw)
        if spoil(f, rng):
            return f


MIDS = ["regulator", "buffer", "junction", "launch"]


def some(rng, k, xs):
    return [rng.choice(xs) for _ in range(k)]


# many connections per output and per component
def tangled(rng, **kw):
    f = Flow()
    n = rng.choice([1, 2, 3])
    src = [f.faucet(rng.choice([0, 1, 3, 7]), pad=rng.choice([(0,), (0, 300)])) if rng.random() < .6 else f.launch(["own"], rng.choice([0, 2, 5]), rng.choice([0, 3])) for _ in range(n)]
    mid = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        t = rng.choice(MIDS + ["junction"])
        mid.append(f.regulator() if t == "regulator" else f.launch([rng.choice(["cat", "slurp"]), "own"], rng.choice([0, 2]), 0, ["out"]) if t == "launch" else f.comp(t))
    dst = [f.drain() for _ in range(rng.choice([1, 2, 3]))]
    pol = lambda: rng.choice(["terminate", "terminate", "finish", "consume"])
    pr = lambda c: rng.choice([0, 0, 1, 2, -1]) if f.comps[c - 1]["t"] == "junction" else 0
    port = lambda c: rng.choice(["out", "out", "err"]) if f.comps[c - 1]["t"] == "launch" and c in src else "out"
    for i, m in enumerate(mid):
        for s in rng.sample(src + mid[:i], rng.randint(1, min(3, len(src) + i))):
            f.edge(s, m, port(s), pol(), pr(m))
    for d in dst:
        for s in rng.sample(src + mid, rng.randint(1, min(4, len(src + mid)))):
            f.edge(s, d, port(s), pol())
    for s in src + mid:
        if not any(e["src"] == s for e in f.edges):
            f.edge(s, rng.choice(dst), "out", pol())
    return f


# ---------------------------------------------------------------- C12, C13
def exits(rng, ends):
    """Programs which end in these ways, each with a drain for its exit code."""
    f = Flow()
    for kind, n in ends:
        has_in = rng.random() < .5
        steps = ["own"]
        if has_in:
            steps.insert(rng.randint(0, 1), rng.choice(["cat", "sink"]))
        # ends long after its output
        if rng.random() < .3:
            steps += ["closeout", "closeerr", "sleep:%d" % rng.choice([20, 120, 300])]
        l = f.launch(steps, rng.choice([0, 1, 4]), rng.choice([0, 0, 3]), ["out"] if "cat" in steps else [], kill=n if kind == "kill" else None, exit=n if kind == "exit" else None)
        if has_in:
            f.edge(f.faucet(rng.choice([0, 2, 5])), l)
        for p in rng.sample(["out", "err"], rng.randint(0, 2)):
            f.edge(l, f.drain(), p)
        x = f.drain()
        f.comps[x - 1]["whole"] = True
        at = l
        if rng.random() < .3:
            at = f.comp(rng.choice(["buffer", "junction", "regulator"]), buffers=[], water=[0, 0])
            f.edge(l, at, "exit")
        f.edge(at, x, "exit" if at == l else "out")
    return f


def unwatched(rng):
    """Programs which run on after everything else has ended, with few of their ports connected."""
    f = Flow()
    for _ in range(rng.choice([1, 2, 3])):
        ports = [p for p in ("in", "out", "err", "exit") if rng.random() < .4] or [rng.choice(["in", "out", "err", "exit"])]
        steps = ["own"]
        if "in" in ports:
            steps.insert(rng.randint(0, 1), rng.choice(["sink", "closein"]))
        steps += rng.sample(["closeout", "closeerr"], rng.randint(0, 2)) + ["sleep:%d" % rng.choice([50, 150, 400])]
        if rng.random() < .5:
            steps.append("closein")
        l = f.launch(steps, rng.choice([0, 2]), rng.choice([0, 2]), quits="closein" in steps)
        if "in" in ports:
            f.edge(f.faucet(rng.choice([0, 1, 4])), l, br="finish")
        for p in ports:
            if p != "in":
                f.edge(l, f.drain(rng.choice(["file", "file", "null"])), p, rng.choice(["terminate", "finish", "consume"]))
    return f


def streams(rng):
    """Programs which write a lot on both streams, of which some are connected."""
    f = Flow()
    for k in range(rng.choice([1, 1, 2, 3])):
        pad = rng.choice([(0,), (0, 5000), (70000,)])
        passes = rng.choice([[], [], ["out"], ["err"], ["out", "err"]])
        steps = ["own"]
        if passes:
            steps.insert(rng.randint(0, 1), {"out": "cat", "err": "caterr", "outerr": "tee"}["".join(passes)])
        l = f.launch(steps, rng.choice([0, 1, 8, 25]), rng.choice([0, 1, 8, 25]), passes, pad=pad)
        if passes:
            f.edge(f.faucet(rng.choice([1, 6, 20]), pad=pad), l)
        ports = [p for p in ("out", "err", "exit") if rng.random() < .5]
        if not ports and not passes:
            ports = [rng.choice(["out", "err", "exit"])]
        kinds = [c["kind"] for c in f.comps if c["t"] == "drain"]
        for p in ports:
            kind = rng.choice([x for x in ("file", "file", "stdout", "stderr") if x == "file" or x not in kinds])
            kinds.append(kind)
            f.edge(l, f.drain(kind), p)
    return f


# ---------------------------------------------------------------- C19, C22
def bindings(rng):
    """Faucets and drains of all kinds, one connection each (or a few)."""
    f = Flow()
    kinds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        # what has no end of line at the end can be told only where nothing follows
        alone = rng.random() < .6
        end = rng.choice([b"\n", b"", b"\r\n", b"\r"]) if alone else b"\n"
        kind = rng.choice(["file", "file", "stdin", "empty", "missing", "directory"] if rng.random() < .5 else ["file", "stdin"])
        if kind == "stdin" and any(c.get("kind") == "stdin" for c in f.comps):
            kind = "file"
        n = rng.choice([0, 1, 2, 10, 40])
        s = f.faucet(n, kind, pad=rng.choice([(0,), (0, 1, 254, 255, 256), (70000,), (1 << 20,) if n <= 2 else (3,)]), end=end,
                     style=rng.choice([b".", b"\0", b"\r", bytes(range(128, 256)), bytes(x for x in range(256) if x != 10)]))
        at = s
        for t in some(rng, rng.choice([0, 0, 1, 2]), ["regulator", "buffer", "junction"]):
            m = f.regulator() if t == "regulator" else f.comp(t)
            f.edge(at, m)
            at = m
        for _ in range(1 if alone else rng.choice([1, 2, 3])):
            menu = ["file", "old", "null", "none"] + [k for k in ("stdout", "stderr") if k not in kinds]
            full = n > 0 and not f.comps[s - 1]["bad"] and kind != "empty"
            menu += rng.choice([[], ["nodir", "directory"] + (["full"] if full else [])])
            k = rng.choice(menu)
            kinds.append(k)
            f.edge(at, f.drain(k), "out", rng.choice(["terminate", "finish", "consume"]))
    return f


# ---------------------------------------------------------------- C01, C23: what has been sent arrives without anything else happening
def prompt(rng):
    """A program waits until what it wrote has arrived at the end of a line of components, and again."""
    f = Flow()
    n = rng.choice([1, 1, 2])
    a = f.launch()
    at = a
    for t in some(rng, rng.choice([0, 1, 2]), ["regulator", "buffer", "junction", "launch"]):
        m = f.regulator() if t == "regulator" else f.launch(["cat"], passes=["out"]) if t == "launch" else f.comp(t)
        f.edge(at, m, "out", rng.choice(["terminate", "finish", "consume"]))
        at = m
    b = f.launch(passes=["out"])
    f.edge(at, b, "out", rng.choice(["terminate", "finish", "consume"]))
    f.edge(b, f.drain())
    c = f.comps[a - 1]
    sa, sb = [], []
    for k in range(n):
        names, data = f.text(a, rng.choice([1, 3]))
        c["own"]["out"] += names
        sa += ["give:%d" % len(f.gifts), "wait:@ack%d" % k]
        f.gifts.append(b"".join(data))
        sb += ["head:%d" % len(names), "mark:@ack%d:x" % k]
    # the end of the stream arrives while the program goes on
    f.comps[a - 1]["steps"] = sa + ["closeout", "wait:@end"]
    f.comps[b - 1]["steps"] = sb + ["cat", "mark:@end:x"]
    if rng.random() < .4:
        f.edge(a, f.drain(), "exit")
    return f


# ---------------------------------------------------------------- C23
WEIRD = ["", " ", "a b", "'", '"', "$HOME", "`id`", "*", "\\", "\\n", "line\nline", "tab\there", "--", "-x", "-", "#", ";", "&&", "|", ">", "a=b", "=", "\u00e9\u4e16", "\U0001f980", "%s", "{}", "~", "!", "x" * 3000]


def weird(rng):
    return rng.choice(WEIRD) if rng.random() < .7 else "".join(rng.choice("ab '\"$\\\n\t;|&<>*?[]{}()=-#~!\u00e9") for _ in range(rng.randint(1, 12)))


def launched(rng, sid):
    """One program (or several) which write down how they were started."""
    with Scratch() as d:
        parent = {"PATH": os.path.join(d, "bin") + ":/usr/local/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0"}
        if rng.random() < .5:
            parent["WEIRD"] = weird(rng).replace("\0", "") or "x"
        os.mkdir(os.path.join(d, "bin"))
        os.symlink(PAH, os.path.join(d, "bin", "look-me-up"))
        cfg = {"connection": {}, "faucet": {}, "drain": {}, "launch": {}}
        todo = []
        r, w = os.pipe()
        os.write(w, b"not for programs\n")
        for k in range(rng.choice([1, 1, 2, 3])):
            n = "p%d" % k
            dump, save = os.path.join(d, n + ".dump"), os.path.join(d, n + ".save")
            args = ["prog", "dump:" + dump, "save:" + save] + [weird(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
            env = {}
            for _ in range(rng.choice([0, 0, 1, 3])):
                env[rng.choice(["FOO", "BAR_2", "lower", "HOME", "LC_ALL", "A.B", "X-Y"])] = weird(rng)
            path = rng.choice(["", "", "sub", "with space", "\u00e9\u4e16"])
            where = os.path.join(d, path) if path else ""
            if path:
                os.makedirs(where, exist_ok=True)
            c = {"cmd": rng.choice([PAH, PAH, "look-me-up"]), "arg": args, "env": env, "path": where or None}
            if not env and rng.random() < .5:
                del c["env"]
            if not where and rng.random() < .5:
                del c["path"]
            cfg["launch"][n] = c
            sent = b""
            if rng.random() < .6:
                sent = rng.choice([b"", b"one\n", b"one\ntwo", b"\r\n\n\nx\r\n", b"\0\xff\n", b"x" * 70000 + b"\n", b"".join(b"%d\n" % i for i in range(300))])
                with open(os.path.join(d, n + ".in"), "wb") as f:
                    f.write(sent)
                cfg["faucet"][n] = {"source": os.path.join(d, n + ".in")}
                cfg["connection"][n + "i"] = "f:%s|l:%s" % (n, n)
            if n + "i" not in cfg["connection"] or rng.random() < .5:
                cfg["drain"][n] = {"destination": os.path.join(d, n + ".out")}
                cfg["connection"][n + "o"] = "l:%s%s|d:%s" % (n, rng.choice(["", "[E]", "[X]"]), n)
            todo.append((n, c, sent, dump, save))
        fmt = rng.choice(["json", "json", "yaml"])
        with open(os.path.join(d, "c"), "w") as f:
            json.dump(cfg, f, ensure_ascii=False)     # JSON is YAML, too
        rc, out, err = run_pa2(["process", "--config", "c", "--format", fmt], d, r, limit=30, env=parent)
        os.close(r)
        os.close(w)
        status = {0: "ok", 1: "error"}.get(rc, str(rc))
        res = []
        hx = lambda s: s.encode("utf8", "surrogateescape").hex()
        for k, (n, c, sent, dump, save) in enumerate(todo):
            starts = []
            stdin = open(save, "rb").read() if os.path.exists(save) else b"not there"
            for l in (open(dump) if os.path.exists(dump) else []):
                x = json.loads(l)
                starts.append({"arg": x["args"][1:], "env": [list(p) for p in x["env"]], "cwd": x["cwd"], "stdin": hashlib.sha1(stdin).hexdigest()})
            res.append({"sid": "%s-%d" % (sid, k), "status": status,
                        "set": {"arg": [hx(a) for a in c["arg"]], "env": [[hx(a), hx(b)] for a, b in c.get("env", {}).items()], "path": c.get("path") or ""},
                        "parent": {"env": [[hx(a), hx(b)] for a, b in parent.items()], "cwd": d},
                        "starts": starts, "sent": hashlib.sha1(sent).hexdigest()})
        return res, {"config": cfg, "format": fmt, "rc": rc, "stderr": err[-1500:].decode("utf8", "replace")}


def launches(chk, count):
    chk.enough()
    jobs = [(i, random.Random(chk.rng.random())) for i in range(count)]
    res = parallel(lambda j: launched(j[1], j[0]), jobs)
    recs = [r for rs, _ in res for r in rs]
    v = judge(chk, "LaunchedJudge", recs, "launches")
    for rs, how in res:
        for r in rs:
            if v[r["sid"]][0] != "fine":
                chk.violation("launch: %s" % v[r["sid"]][0], {"seen": r, "run": how})
    chk.part("launches", runs=count, programs=len(recs))
    chk.sample(recs[0])


# ---------------------------------------------------------------- C18
def loop_run(rng, sid):
    """A program in a loop whose way back goes through a buffer."""
    with Scratch() as d:
        n = rng.choice([1, 3, 10, 40])
        turns = rng.choice([0, 1, 5, 20])
        pad = rng.choice([0, 0, 200, 5000])
        reg = rng.choice([None, None, "in", "in", "empty"])
        times = 1
        if reg == "in" and rng.random() < .25:
            # far more comes round than went in
            n, turns, pad, times = 50, 1, 5000, 25
        items = ["i%d" % i + "." * pad for i in range(n)]
        with open(os.path.join(d, "in"), "w") as f:
            for x in items:
                f.write("%d:%s\n" % (1 if times > 1 else rng.randint(0, turns), x))
        cfg = {"connection": {}, "faucet": {"f": {"source": os.path.join(d, "in")}}, "drain": {"d": {"destination": os.path.join(d, "out")}},
               "launch": {"p": {"cmd": PAH, "arg": ["prog", "loop:%d:%d" % (n * times, times)]}}}
        pol = lambda: rng.choice(["|", "|F|", "|C|"])
        way = ["j:m", "b:q", "l:p"]
        # where the buffer is
        shape = rng.choice(["buffer first", "buffer last", "two"])
        if shape == "buffer last":
            forth, back = ["j:m", "l:p"], ["l:p", "b:q", "j:m"]
        elif shape == "two":
            forth, back = ["j:m", "b:q", "l:p"], ["l:p", "b:r", "j:m"]
        else:
            forth, back = way, ["l:p", "j:m"]
        if rng.random() < .3:
            forth.insert(rng.randint(1, len(forth) - 1), "l:x")
            cfg["launch"]["x"] = {"cmd": PAH, "arg": ["prog", "cat"]}
        p1, p2 = rng.choice([("", ""), ("[1]", "[2]"), ("[2]", "[1]"), ("[3]", "[3]")])
        start = ["f:f"]
        if reg:
            low, high = rng.choice([(0, 1), (0, 3), (1, 2), (2, 8), (5, 20)])
            cfg["regulator"] = {"g": {"buffered": [low, high], "monitored_buffers": [] if reg == "empty" else ["q"]}}
            start.append("r:g")
        line = lambda cs, last="": "".join(c + (pol() if i + 2 < len(cs) else " | ") if i + 1 < len(cs) else last + c for i, c in enumerate(cs))
        # the program ends while something may still be on its way to it: not an error with Finish
        cfg["connection"]["a"] = line(start + ["j:m"], p1)
        cfg["connection"]["b"] = "|F|".join(forth)
        cfg["connection"]["c"] = "|F|".join(back[:-1] + [p2 + back[-1]])
        cfg["connection"]["d"] = "l:p[E]|d:d"
        with open(os.path.join(d, "c"), "w") as f:
            json.dump(cfg, f)
        rc, out, err = run_pa2(["process", "--config", "c", "--format", "json"], d, limit=60)
        o = os.path.join(d, "out")
        got = open(o).read().split("\n")[:-1] if os.path.exists(o) else []
        short = lambda x: x if len(x) < 30 else x.split(".")[0] + "/%d" % len(x)
        counted = lambda v: [{"x": x, "n": k} for x, k in sorted(collections.Counter(v).items())]
        rec = {"sid": sid, "status": {0: "ok", 1: "error", "hang": "hang"}.get(rc, "crash %s" % rc), "items": counted([short(x) for x in items * times]), "got": counted([short(x) for x in got])}
        return rec, {"config": cfg, "stderr": err[-1500:].decode("utf8", "replace")}


def flood(rng, sid, n):
    """A program writes everything into its loop before it reads any of it."""
    with Scratch() as d:
        way = ["l:p"] + some(rng, rng.choice([0, 1]), ["j:j1", "r:r1"]) + ["b:b1"] + some(rng, rng.choice([0, 1]), ["j:j2", "r:r2", "b:b2"]) + ["l:p"]
        pre = rng.choice(["", "x", "xyz" * 5])
        cfg = {"connection": {"a": "|F|".join(way), "b": "l:p[E]|d:d"}, "drain": {"d": {"destination": os.path.join(d, "out")}},
               "launch": {"p": {"cmd": PAH, "arg": ["prog", "flood:%d:%s" % (n, pre), "expect:%d:%s" % (n, pre)]}},
               "regulator": {c[2:]: {"buffered": [2, 10], "monitored_buffers": []} for c in way if c[0] == "r"}}
        with open(os.path.join(d, "c"), "w") as f:
            json.dump(cfg, f)
        rc, out, err = run_pa2(["process", "--config", "c", "--format", "json"], d, limit=60 + n // 400)
        try:
            back = int(open(os.path.join(d, "out")).read())
        except (ValueError, OSError):
            back = -1
        return ({"sid": sid, "status": {0: "ok", 1: "error", "hang": "hang"}.get(rc, "crash %s" % rc), "wrote": n, "back": back},
                {"config": cfg, "stderr": err[-1500:].decode("utf8", "replace")})


def floods(chk, count, n):
    chk.enough()
    jobs = [(i, random.Random(chk.rng.random()), rng_n) for i, rng_n in enumerate([n] * count)]
    res = parallel(lambda j: flood(j[1], j[0], j[2]), jobs, NPROC)
    v = judge(chk, "LoopJudge", [r for r, _ in res], "floods of %d" % n)
    for r, how in res:
        if v[str(r["sid"])][0] != "fine":
            chk.violation("flooded loop: %s (%s)" % (v[str(r["sid"])][0], r["status"]), {"seen": r, "run": how})


def loops(chk, count):
    chk.enough()
    jobs = [(i, random.Random(chk.rng.random())) for i in range(count)]
    res = parallel(lambda j: loop_run(j[1], j[0]), jobs, NPROC * 2)
    recs = [r for r, _ in res]
    v = judge(chk, "LoopJudge", recs, "loops")
    for r, how in res:
        if v[str(r["sid"])][0] != "fine":
            chk.violation("loop: %s (%s)" % (v[str(r["sid"])][0], r["status"]), {"seen": r, "run": how})
    chk.part("loops", runs=count, messages=sum(x["n"] for r in recs for x in r["items"]))
    chk.sample({"loop": res[0][1]["config"], "items": len(recs[0]["items"])})


# ---------------------------------------------------------------- C06, C08, C09: an end which is not read for a while
def stalled(rng, kinds, watched=False, lines=3000, size=None):
    """pa2 reads its standard input; the other end waits."""
    size = size or rng.choice([4096, 4096, 1500])
    with Scratch() as d:
        go = os.path.join(d, "go")
        cfg = {"connection": {}, "faucet": {"f": {"source": "-"}}, "drain": {"d": {"destination": os.path.join(d, "out")}}, "launch": {}, "regulator": {}}
        chain, names, pipes = ["faucet"], ["f:f"], 1
        for k, t in enumerate(kinds):
            n = "%s%d" % (t[0], k)
            chain.append(t)
            names.append("%s:%s" % (t[0], n))
            if t == "launch":
                cfg["launch"][n] = {"cmd": PAH, "arg": ["prog", "cat"]}
                pipes += 2
            if t == "regulator":
                cfg["regulator"][n] = {"buffered": [2, 30], "monitored_buffers": ["b%d" % i for i, x in enumerate(kinds) if x == "buffer"] if watched else []}
                watched_here, watched = watched, False
        cfg["launch"]["e"] = {"cmd": PAH, "arg": ["prog", "wait:" + go, "cat"]}
        pipes += 2
        chain += ["launch", "drain"]
        pol = lambda: rng.choice(["|", "|F|", "|C|"])
        t = "".join(n + pol() for n in names) + "l:e"
        cfg["connection"]["a"] = t
        cfg["connection"]["b"] = "l:e|d:d"
        # somebody else gets the same and is quick
        if rng.random() < .3 and len(names) > 1:
            cfg["connection"]["c"] = rng.choice(names) + "|F|d:side"
            cfg["drain"]["side"] = {"destination": rng.choice(["/dev/null", os.path.join(d, "side")])}
            chain += ["junction", "drain"]
        watching = any(c["monitored_buffers"] for c in cfg["regulator"].values())
        with open(os.path.join(d, "c"), "w") as f:
            json.dump(cfg, f)
        e = {"PATH": "/usr/bin:/bin", "HOME": d, "RUST_BACKTRACE": "0"}
        p = subprocess.Popen([PA2, "process", "--config", "c", "--format", "json"], cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             preexec_fn=flow.limits)
        fd = p.stdin.fileno()
        os.set_blocking(fd, False)
        sent, taken, last, t0 = hashlib.sha1(), 0, time.time(), time.time()
        rest = b""
        try:
            while taken < lines and time.time() - last < (4 if watching else 1.5) and time.time() - t0 < 25:
                if not rest:
                    # several at a time when they are small
                    many = [b"%d:" % (taken + k) for k in range(max(1, min(lines - taken, 2000 // size)))]
                    rest = b"".join(l + b"." * (size - len(l) - 1) + b"\n" for l in many)
                try:
                    n = os.write(fd, rest)
                    sent.update(rest[:n])
                    rest = rest[n:]
                    last = time.time()
                    taken += 0 if rest else len(many)
                    if watching and taken > 40:
                        time.sleep(.001)
                except BlockingIOError:
                    time.sleep(.01)
                except BrokenPipeError:
                    break
            with open(go, "w"):
                pass
            os.set_blocking(fd, True)
            try:
                sent.update(rest)
                os.write(fd, rest)
                tail = b"the end\n"
                sent.update(tail)
                os.write(fd, tail)
            except BrokenPipeError:
                pass
            p.stdin.close()
            p.stdin = None
            try:
                out, err = p.communicate(timeout=patience(40 + lines // 500))
                status = {0: "ok", 1: "error"}.get(p.returncode, "crash %s" % p.returncode)
            except subprocess.TimeoutExpired:
                hung()
                status, out, err = "hang", b"", b""
        finally:
            flow.end_session(p.pid)
            p.wait()
        o = os.path.join(d, "out")
        got = hashlib.sha1(open(o, "rb").read()).hexdigest() if os.path.exists(o) else "none"
        rec = dict(chain=chain, given=lines, taken=taken, perpipe=65536 // size, pipes=pipes, watched=watching, status=status, whole=got == sent.hexdigest() and out == b"")
        return rec, {"config": cfg, "stderr": err[-1000:].decode("utf8", "replace")}


def stalls(chk, count, way, lines=None, size=None, kinds=None):
    chk.enough()
    rng = chk.rng
    jobs = []
    for i in range(count):
        if way == "bounded":
            k = some(rng, rng.choice([0, 1, 1, 2, 3]), ["junction", "regulator", "launch"])
        else:
            k = some(rng, rng.choice([0, 1]), ["junction", "launch"]) + (["regulator"] if way == "watched" else []) + some(rng, rng.choice([0, 0, 1]), ["junction", "launch"]) + ["buffer"]
            k += some(rng, rng.choice([0, 1]), ["junction", "launch", "buffer"])
        jobs.append((i, kinds or k, random.Random(rng.random())))
    lines = lines or {"bounded": 3000, "unbounded": 1200, "watched": 6000}[way]
    res = parallel(lambda j: stalled(j[2], j[1], way == "watched", lines, size), jobs, 12 if way == "watched" else NPROC)
    for i, (r, _) in enumerate(res):
        r["sid"] = i
    v = judge(chk, "StalledJudge", [r for r, _ in res], "stalls " + way)
    for r, how in res:
        if v[str(r["sid"])][0] != "fine":
            chk.violation("stalled end (%s): %s" % (way, v[str(r["sid"])][0]), {"seen": r, "run": how})
    chk.part("stalls " + way, runs=count, most_taken=max(r["taken"] for r, _ in res))
    chk.sample(res[0][0])


# ---------------------------------------------------------------- C19: refused for other reasons than those of lint
def refused(rng, sid):
    f = healthy(rng, size=rng.choice([1, 2, 4]))
    with Scratch() as d:
        cfg = f.config(rng, d)
        files = {c["name"]: os.path.join(d, "drain.%s.dat" % c["name"]) for c in f.comps if c["t"] == "drain"}
        before = {n: open(p, "rb").read() if os.path.exists(p) else None for n, p in files.items()}
        cfg["faucet"].update(nfa={"source": ""}, nfb={"source": ""})
        cfg["drain"].update(nda={"destination": ""}, ndb={"destination": ""})
        cfg["regulator"].update(nre={"buffered": [1, 2], "monitored_buffers": []})
        cfg["launch"].update(nla={"cmd": "true"})
        how = rng.choice(["priority", "port", "port", "command", "faucet", "drain", "text", "file"])
        culprit, text = "", None
        if how == "priority":
            t, n = rng.choice([("drain", "nda"), ("launch", "nla"), ("regulator", "nre"), ("buffer", "nbu")])
            culprit = n
            cfg["connection"]["w"] = "f:nfa | [%d]%s:%s%s" % (rng.choice([1, 3, -2]), t, n, "" if t == "drain" else " | d:nda")
        elif how == "port":
            p = rng.choice(["[E]", "[X]"])
            culprit, cfg["connection"]["w"] = rng.choice([("nfa", "f:nfa%s|d:nda" % p), ("nre", "f:nfa|r:nre%s|d:nda" % p)])
        elif how == "command":
            culprit = "nlb"
            cfg["launch"]["nlb"] = rng.choice([{}, {"arg": ["x"]}, {"cmd": None}])
            cfg["connection"]["w"] = rng.choice(["f:nfa|l:nlb|d:nda", "l:nlb|d:nda", "f:nfa|l:nlb"])
        elif how == "faucet":
            culprit, cfg["connection"]["w"] = "nfb", "f:nfa|f:nfb|d:nda"
        elif how == "drain":
            culprit, cfg["connection"]["w"] = "nda", "f:nfa|d:nda|d:ndb"
        elif how == "text":
            text = rng.choice(["{", "nonsense {", "[1]", '{"connection": {"a": {"x": 1}}}', '{"faucet": {"a": {"source": [5]}}}', '{"faucet": {"a": "x"}}', '{"connection": {"a": [{"component_type": "tap", "component_name": "x"}]}}'])
        name = "c.json"
        if how == "file":
            name = rng.choice(["no-such-file", "sub/none", "."])
        with open(os.path.join(d, "c.json"), "w") as fh:
            fh.write(text or json.dumps(cfg))
        rc, out, err = run_pa2(["process", "--config", name, "--format", rng.choice(["json", "yaml"])], d, limit=20)
        err = err.decode("utf8", "replace")
        rec = {"sid": sid, "rc": rc if isinstance(rc, int) else 999, "stdout": len(out), "culprit": culprit,
               "names": sorted(n for n in ["nfa", "nfb", "nda", "ndb", "nre", "nbu", "nla", "nlb"] if re.search(r"\b%s\b" % n, err)),
               "started": [c["name"] for c in f.comps if c["t"] == "launch" and os.path.exists(os.path.join(d, c["name"] + ".m"))],
               "touched": [n for n, p in files.items() if (open(p, "rb").read() if os.path.exists(p) else None) != before[n]]}
        return rec, {"config": cfg, "how": how, "text": text, "stderr": err[-1000:]}


def refusals(chk, count):
    chk.enough()
    jobs = [(i, random.Random(chk.rng.random())) for i in range(count)]
    res = parallel(lambda j: refused(j[1], j[0]), jobs)
    v = judge(chk, "RefusedJudge", [r for r, _ in res], "refusals")
    for r, how in res:
        if v[str(r["sid"])][0] != "fine":
            chk.violation("refusal (%s): %s" % (how["how"], v[str(r["sid"])][0]), {"seen": r, "run": how})
    chk.sample({"refused": res[0][1]["how"], "seen": res[0][0]})
