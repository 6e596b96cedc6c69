"""Checks on configurations: join strings, lint, editing, manipulation, graph."""
from judge import *
from present import present


# ---------------------------------------------------------------- C15
ALLT = ["f", "d", "r", "j", "b", "l", "faucet", "drain", "regulator", "junction", "buffer", "launch"]
PIPES = ["|", " | ", "|T|", "|F|", "|C|", " |T| ", "|F|   ", "  |C|", " |", "| ", "  |  ", " |F| "]


def join_strings(chk):
    """Strings written by the generator specification."""
    runs = [
        (2, ALLT, ["n1"], ["", "[5]"], ["", "[O]", "[E]", "[X]"], ["|", "|F|"]),
        (2, ["l", "junction"], ["a", "A_9", "9Z", "_"], ["", "[5]", "[-2]", "[007]", "[0]", "[-0]", "[120]"], ["", "[X]"], ["|", " |C| "]),
        (3, ["l"], ["a"], ["", "[-2]"], ["", "[E]"], PIPES),
        (3, ["b", "launch"], ["a", "l"], ["", "[5]"], ["", "[X]"], ["|", " |F| "]),
    ]
    res = []
    for k, (mx, ts, ns, pr, po, pi) in enumerate(runs):
        cfg = "SPECIFICATION Spec\nINVARIANT Agree\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxComps = %d TypeMenu = %s NameMenu = %s PrioMenu = %s PortMenu = %s PipeMenu = %s\n" % (
            mx, tlaset(ts), tlaset(ns), tlaset(pr), tlaset(po), tlaset(pi))
        r = chk.mc("JoinGen", cfg, "join strings %d" % k)
        res += [json.loads(x[0]) for x in tuples(r["out"], "STR")]
    cfg = "SPECIFICATION Spec\nINVARIANT Agree\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxComps = 8 TypeMenu = %s NameMenu = %s PrioMenu = %s PortMenu = %s PipeMenu = %s\n" % (
        tlaset(["l", "faucet", "junction"]), tlaset(["a", "B2"]), tlaset(["", "[5]", "[-2]"]), tlaset(["", "[E]"]), tlaset(["|", " |C| ", "|F|"]))
    r = chk.mc("JoinGen", cfg, "long join strings", simulate="num=%d" % chk.n(60, 600), workers=1)
    res += [json.loads(x[0]) for x in tuples(r["out"], "STR")]
    return sorted(set(res))


def near_miss(rng, s):
    alphabet = list("abflTFCOEX019-_[]|: :|\t\n\"'\\.Zé;/,")
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(7)
        i = rng.randrange(len(s) + 1)
        if k == 0 and s:
            del s[i % len(s)]
        elif k == 1:
            s.insert(i, rng.choice(alphabet))
        elif k == 2 and s:
            s[i % len(s)] = rng.choice(alphabet)
        elif k == 3 and len(s) > 1:
            i = i % (len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
        elif k == 4 and s:
            s = s[:i]
        elif k == 5 and s:
            j = i % len(s)
            s.insert(j, s[j])
        elif k == 6 and s:
            j = i % len(s)
            s[j] = s[j].swapcase()
    return "".join(s)


def unspecified(s):
    # an empty number and numbers which do not fit are left open
    return "[]" in s or "[-]" in s or re.search(r"\d{18}", s) is not None


def c15(chk):
    gen = join_strings(chk)
    rng = chk.rng
    strings = rng.sample(gen, min(len(gen), chk.n(4000, 30000)))
    for _ in range(chk.n(8000, 60000)):
        strings.append(near_miss(rng, rng.choice(gen)))
    strings += ["", " ", "|", "l:a", "l:a|", "|l:a", "l:a|b:c|", "l:a||b:c", "l:a|T|F|b:c", "l:a | T | b:c", "l:a|t|b:c", "l:a |T |b:c", "[1]l:a|b:c",
                "l:a|b:c[E]", "l:a[E]|b:c", "l:a[e]|b:c", "l:a[O][E]|b:c", "l:a[]|b:c", "l:|b:c", ":a|b:c", "l:a|b", "launchx:a|b:c", "L:a|b:c", "l :a|b:c",
                "l: a|b:c", "l:a[E] |b:c", "l:a [E]|b:c", "l:a|[1] b:c", "l:a| [1]b:c", "l:a|[1][2]b:c", "l:a|[1-]b:c", "l:a|[--1]b:c", "l:a|[+1]b:c",
                "l:a|[1.5]b:c", " l:a|b:c", "l:a|b:c ", "l:a\t|b:c", "l:a\n|b:c", "l:a-b|b:c", "l:\u00e9|b:c", "drain:a|faucet:b", "l:a|[999999999]b:c", "l:a|[-999999999]b:c"]
    strings = [s for s in dict.fromkeys(strings) if not unspecified(s)]
    recs = pah("pure", [{"sid": i, "op": "parse", "s": s} for i, s in enumerate(strings)])
    js = []
    for i, s in enumerate(strings):
        r = recs[i]
        if "ok" in r:
            got = []
            for k, c in enumerate(r["ok"]):
                want = {"component_type", "component_name"} | ({"breakable", "priority"} if k else set()) | ({"output_port"} if k + 1 < len(r["ok"]) else set())
                ok = {x for x in c if c[x] is not None} == want
                got.append({"type": c.get("component_type", "?") if ok else "?", "name": c.get("component_name", "?"), "port": c.get("output_port", "?"),
                            "prio": str(c.get("priority", "?")), "pol": c.get("breakable", "?")})
            js.append({"sid": i, "c": list(s), "res": "ok", "got": got})
        else:
            js.append({"sid": i, "c": list(s), "res": "bad" if "bad" in r else "panic", "got": []})
    v = judge(chk, "JoinJudge", js, "join strings")
    nok = 0
    for i, s in enumerate(strings):
        right, accepts = v[str(i)]
        nok += accepts == "TRUE"
        if right != "TRUE":
            chk.violation("join string %r: the parser says %s, the specification %s it" % (s, json.dumps(recs[i])[:300], "accepts" if accepts == "TRUE" else "rejects"),
                          {"string": s, "parser": recs[i], "accepted_by_spec": accepts})
    chk.part("join strings", accepted=nok, rejected=len(strings) - nok)
    # the same through the program: lint reports 0003 exactly for the strings which are none
    some = rng.sample(range(len(strings)), chk.n(150, 1500))

    def cli(i):
        return i, cli_config({"connection": {"c": strings[i]}}, ["lint"])

    for i, (rc, out, err) in parallel(cli, some):
        acc = v[str(i)][1] == "TRUE"
        rep = b"0003: c:" in err
        bad = rc not in (0, 1) or rep == acc or (rep and (rc != 1 or ("c:" + strings[i]).encode() not in err))
        if bad:
            chk.violation("lint on join string %r: exit %s, reported %s" % (strings[i], rc, rep), {"string": strings[i], "rc": rc, "err": err.decode("utf8", "replace")})
    chk.part("lint of join strings", runs=len(some))
    for i in some[:3]:
        chk.sample({"string": strings[i], "accepted": v[str(i)][1], "parser": recs[i]})


# ---------------------------------------------------------------- C16
# names which a sloppy comparison takes for one another
RELATED = [["a", "A"], ["x", "xx", "X"], ["n", "n1", "n11"], ["1", "01"], ["a_b", "a-b"], ["a", "a "], ["ab", "abc"], ["bc", "abc"], ["e", "\u00e9"], ["Tap", "tap"], ["_", "__"]]
LAYER = ["faucet", "regulator", "buffer", "junction", "launch", "drain"]


def pairs(s):
    """A printed set of pairs of strings."""
    return sorted(set(re.findall(r'<<"([^"]*)",\s*"([^"]*)">>', s)))


def lint_config(rng, a, explicit=False):
    """A configuration which runs to its end, with abstract content a."""
    used = sorted(a["used"], key=lambda u: (LAYER.index(u[0]), u[1]))
    by = {}
    for t, n in used:
        by.setdefault(t, []).append(n)
    conns = {}
    # one chain through all layers for every group, so that the data ends
    depth = max([len(v) for v in by.values()] or [0])
    for k in range(depth):
        chain = [(t, by[t][k]) for t in LAYER if t in by and k < len(by[t])]
        if len(chain) == 1:
            # junctions need no settings
            extra = ("junction", "jj%d" % k)
            chain = [extra] + chain if chain[0][0] != "faucet" else chain + [extra]
        ident = rng.choice(["c%d", "z%d", "x_%d"]) % k
        if explicit or any(not re.fullmatch(r"\w+", n, re.A) for _, n in chain):
            conns[ident] = [explicit_comp(t, n, i, len(chain)) for i, (t, n) in enumerate(chain)]
        else:
            conns[ident] = rng.choice(["|", " | ", "|F|", " |C| "]).join("%s:%s" % (rng.choice([t, t[0]]), n) for t, n in chain)
    for b in a["badjoins"]:
        conns[b] = rng.choice(["l:a", "launch:a |X| drain:b", "faucet:a | nothing:b", "nonsense", "l:a[Q]|d:b", "d:a | "])
    cfg = {"connection": conns, "faucet": {}, "drain": {}, "launch": {}, "regulator": {}}
    for t, n in a["settings"]:
        if t == "faucet":
            cfg[t][n] = {"source": "src"}
        elif t == "drain":
            cfg[t][n] = {"destination": "drain." + n}
        elif t == "launch":
            cfg[t][n] = {"cmd": "sh", "arg": ["-c", "touch \"canary.$0\"; exec cat", n]}
        else:
            m = sorted(b for r, b in a["monitors"] if r == n)
            cfg[t][n] = {"buffered": [2, 4], "monitored_buffers": m}
    for t in ("faucet", "drain", "launch", "regulator"):
        if not cfg[t] and rng.random() < .5:
            del cfg[t]
    return cfg


def explicit_comp(t, n, i, total, pol="terminate", port="out"):
    c = {"component_type": t, "component_name": n}
    if i > 0:
        c.update(breakable=pol, priority=0)
    if i + 1 < total:
        c["output_port"] = port
    return c


FINDING = re.compile(r"(000\d): (\w+):(.*?) - ")


def findings(err, cfg):
    """The findings named in an error report."""
    res = set()
    for l in err.split("\n"):
        m = FINDING.search(l)
        if not m:
            continue
        code, t, n = m.groups()
        if code == "0003":
            i = l[l.index("0003: ") + 6:].split(":", 1)[0]
            js = cfg["connection"].get(i)
            ok = isinstance(js, str) and (i + ":" + js) in l
            res.add((code, "join", i if ok else "?" + i))
        else:
            res.add((code, t.lower(), n))
    return sorted(res)


def lint_run(a, cfg, run, sid, fmt="json"):
    rec = {"sid": sid, "run": run, "rep": [], "rc": 0, "started": [], "touched": []}
    for k in ("settings", "used", "monitors"):
        rec[k] = [list(x) for x in a[k]]
    rec["badjoins"] = list(a["badjoins"])
    with Scratch() as d:
        open(os.path.join(d, "c.json"), "w").write(json.dumps(cfg))
        open(os.path.join(d, "src"), "w").write("1\n2\n")
        drains = [n for t, n in a["settings"] if t == "drain"]
        if run == "process":
            for n in drains:
                p = os.path.join(d, "drain." + n)
                open(p, "w").write("before")
                os.utime(p, (1000000000, 1000000000))
        args = ["process", "--config", "c.json", "--format", fmt] if run == "process" else ["config", "--config", "c.json", "--format", fmt, "lint"]
        rc, out, err = pa2(args, d, timeout=20)
        err = err.decode("utf8", "replace")
        rec["rc"] = rc if isinstance(rc, int) else -99
        rec["rep"] = findings(err, cfg)
        if run == "process":
            rec["started"] = sorted(f[7:] for f in os.listdir(d) if f.startswith("canary."))
            for n in drains:
                p = os.path.join(d, "drain." + n)
                if open(p, "rb").read() != b"before" or os.stat(p).st_mtime != 1000000000:
                    rec["touched"].append(n)
            extra = [f for f in os.listdir(d) if not f.startswith(("canary.", "drain.")) and f not in ("c.json", "src")]
            rec["touched"] += ["file " + f for f in extra]
    return rec, err


def random_abstract(rng):
    names = rng.choice([["a", "b"], ["a", "b", "node"], ["tap", "x1"], ["a b", "c"], ["dyn_drain_1", "junction_1"], ["drain", "launch"]] + RELATED)
    a = {"settings": set(), "used": set(), "monitors": set(), "badjoins": []}
    good = rng.random() < .6
    for t in LAYER:
        for n in names:
            if rng.random() < .5:
                a["used"].add((t, n))
                if t not in ("buffer", "junction") and rng.random() < (1 if good else .8):
                    a["settings"].add((t, n))
            elif t not in ("buffer", "junction") and rng.random() < .15:
                a["settings"].add((t, n))
    bufs = [n for t, n in sorted(a["used"]) if t == "buffer"]
    for t, n in sorted(a["settings"]):
        if t == "regulator" and rng.random() < .6:
            if bufs and rng.random() < (1 if good else .6):
                a["monitors"].add((n, bufs.pop()))
            elif not good:
                a["monitors"].add((n, rng.choice(["nobuf", "other", rng.choice(names) + "9"])))
    if not good and rng.random() < .15:
        a["badjoins"] = rng.choice([["bad"], ["bad", "a_bad"]])
    # a drain of this name without settings is refused for another reason
    if ("drain", "dyn_drain_1") in a["used"] and ("drain", "dyn_drain_1") not in a["settings"]:
        a["used"].discard(("drain", "dyn_drain_1"))
    return {k: sorted(v) for k, v in a.items()}


def c16(chk):
    rng = chk.rng
    cfg = ('SPECIFICATION Spec\nINVARIANT Disjoint\nPROPERTY Monotone\nCONSTRAINT Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n'
           'CONSTANTS Names = {"a"} Monitored = {"a", "b"} MaxThings = %d\n' % chk.n(6, 12))
    # breadth first with one worker: with VIEW the depth must be the shortest
    r = chk.mc("LintGen", cfg, "configurations", workers=1)
    abst = []
    for t in tuples(r["out"], "CFG"):
        a = {"settings": pairs(t[0]), "used": pairs(t[1]), "monitors": pairs(t[2]), "badjoins": re.findall(r'"([^"]*)"', t[3])}
        abst.append(json.dumps(a))
    abst = [json.loads(x) for x in dict.fromkeys(abst)]
    chk.part("configurations", enumerated=len(abst))
    jobs = []
    lint_some = abst if len(abst) <= chk.n(2500, 20000) else rng.sample(abst, chk.n(2500, 20000))
    for a in lint_some:
        jobs.append((a, "lint"))
    for a in rng.sample(abst, min(len(abst), chk.n(500, 4000))):
        jobs.append((a, "process"))
    for _ in range(chk.n(300, 3000)):
        a = random_abstract(rng)
        jobs.append((a, "lint"))
        jobs.append((a, "process"))
    jobs = [(i, a, run, lint_config(rng, a, explicit=rng.random() < .2)) for i, (a, run) in enumerate(jobs)]
    res = parallel(lambda j: lint_run(j[1], j[3], j[2], j[0]), jobs)
    v = judge(chk, "LintJudge", [r for r, _ in res], "runs")
    for (i, a, run, cfg), (rec, err) in zip(jobs, res):
        right, want = v[str(i)]
        if right != "TRUE":
            chk.violation("%s: expected findings %s, got %s, exit %s, started %s, touched %s" % (run, want, rec["rep"], rec["rc"], rec["started"], rec["touched"]),
                          {"config": cfg, "run": run, "record": rec, "stderr": err})
    chk.part("runs", lint=sum(j[2] == "lint" for j in jobs), process=sum(j[2] == "process" for j in jobs),
             refused=sum(1 for r, _ in res if r["run"] == "process" and r["rc"] != 0))
    for r, _ in res[:1] + res[-2:]:
        chk.sample(r)


# ---------------------------------------------------------------- C17
TEXTS = ["a", "b c", "-", "_", "", "/dev/null", "x\ny", "it's", '"q"', "\\", "\u00e9\u4e2d\U0001f600", "true", "null", "0", "1.5", "~", "- a", "a: b", "#c", "{}",
         "[1]", "$HOME", "%s", "--help", "-n", "a=b", " lead", "trail ", "\t", "\r\n", "@x", "&a", "*a", "!t", "|", ">", "0x1f", "1e3", "yes", "\x01", "a" * 300]
KEYTEXTS = ["A", "PATH", "a b", "\u00e9", "X_1", "-x", "\"", "k.k"]
IDTEXTS = ["a", "tap", "my id", "\u00e9", "1", "true", "", "a.b", "x-y", "null", "\"q\"", "-"]
JOINS = [
    ([("faucet", "a", "out", 0, "terminate"), ("drain", "b", None, 0, "terminate")], ["faucet:a | drain:b", "f:a|d:b", "faucet:a[O]|T|[0]d:b"]),
    ([("launch", "a", "err", 0, "terminate"), ("junction", "b", "out", 5, "finish"), ("drain", "c", None, -2, "consume")],
     ["l:a[E]|F|[5]j:b|C|[-2]d:c", "launch:a[E] |F| [5]junction:b |C| [-2]drain:c"]),
    ([("buffer", "b", "out", 0, "terminate"), ("regulator", "r", "out", 0, "consume"), ("launch", "l", None, 0, "terminate")], ["b:b |C| r:r | l:l"]),
    ([("launch", "a", "exit", 0, "terminate"), ("drain", "x", None, 0, "finish")], ["l:a[X]|F|d:x"]),
]
BADJOINS = ["nonsense", "launch:a", "f:a|", "{\"a\":1}", "[1,2]", "f:a|q:b", "[", "a: b"]


def explicit_list(cs):
    res = []
    for k, (t, n, p, pr, po) in enumerate(cs):
        c = {"component_type": t, "component_name": n}
        if k:
            c.update(breakable=po, priority=pr)
        if p:
            c["output_port"] = p
        res.append(c)
    return res


def canon_conn(v):
    """What a printed connection joins, or None when it is not understood."""
    if isinstance(v, str):
        for k, (_, ss) in enumerate(JOINS):
            if v in ss:
                return "j%d" % (k + 1)
        return "?" + v
    try:
        v2 = [{a: b for a, b in c.items() if b is not None} for c in v]
    except AttributeError:
        return "?"
    for k, (cs, _) in enumerate(JOINS):
        if v2 == explicit_list(cs):
            return "j%d" % (k + 1)
    return "?" + json.dumps(v)


class Concrete:
    """An injective meaning for the symbols of one history."""

    def __init__(self, rng, toks, keys, ids):
        self.val = dict(zip(toks, rng.sample(TEXTS, len(toks))))
        self.key = dict(zip(keys, rng.sample(KEYTEXTS, len(keys))))
        self.id = dict(zip(ids, rng.sample(IDTEXTS, len(ids))))
        self.rv = {v: k for k, v in self.val.items()}
        self.rk = {v: k for k, v in self.key.items()}
        self.ri = {v: k for k, v in self.id.items()}

    def abstract(self, cfg):
        def v(x):
            return self.rv.get(x, "?%r" % (x,)) if isinstance(x, str) else "?%r" % (x,)

        def i(x):
            return self.ri.get(x, "?" + x)
        extra = set(cfg) - {"faucet", "drain", "regulator", "launch", "connection"}
        s = {"faucet": [], "drain": [], "regulator": [], "launch": [], "connection": []}
        if extra:
            s["faucet"].append(["?extra", str(extra)])
        for n, x in sorted(cfg.get("faucet", {}).items()):
            s["faucet"].append([i(n), v(x["source"])])
        for n, x in sorted(cfg.get("drain", {}).items()):
            s["drain"].append([i(n), v(x["destination"])])
        for n, x in sorted(cfg.get("regulator", {}).items()):
            s["regulator"].append([i(n), {"water": x.get("buffered") or [], "mon": [v(m) for m in x.get("monitored_buffers", [])]}])
        for n, x in sorted(cfg.get("launch", {}).items()):
            s["launch"].append([i(n), {"cmd": [v(x["cmd"])] if x.get("cmd") is not None else [], "path": [v(x["path"])] if x.get("path") is not None else [],
                                       "arg": [v(a) for a in x.get("arg", [])],
                                       "env": [[self.rk.get(k, "?" + k), v(e)] for k, e in sorted(x.get("env", {}).items())]}])
        for n, x in sorted(cfg.get("connection", {}).items()):
            s["connection"].append([i(n), canon_conn(x)])
        return s

    def config(self, rng, st):
        if st == "blank":
            return {} if rng.random() < .5 else {"faucet": {}, "drain": {}, "regulator": {}, "launch": {}, "connection": {}}
        v, ids = self.val["v1"], list(self.id.values())
        cs, ss = JOINS[0]
        return {"faucet": {i: {"source": v} for i in ids}, "drain": {i: {"destination": v} for i in ids},
                "regulator": {i: {"buffered": None, "monitored_buffers": [v]} for i in ids},
                "launch": {i: {"cmd": v, "path": v, "arg": [v, v], "env": {k: v for k in self.key.values()}} for i in ids},
                "connection": {i: rng.choice(ss + [explicit_list(cs)]) for i in ids}}


def parse_tla(s):
    """A printed TLA+ value made of sequences, strings and numbers."""
    s = s.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(s)


def edit_args(rng, con, c):
    op, i, v = c["op"], con.id[c["id"]], c["v"]
    sub = {"source": "faucet", "destination": "drain", "watermark": "regulator", "join": "connection"}.get(op, "launch")
    bad = c["bad"]
    if op == "watermark":
        vals = rng.choice([["x", "2"], ["-1", "3"], ["1.5", "2"], ["", "1"], ["1"]]) if bad else [str(x) for x in v]
    elif op == "env":
        vals = rng.choice([["novalue"], ["=x"], ["A=1", "b"], ["A=1", "=2"]]) if bad else [con.key[k] + "=" + con.val[x] for k, x in v]
    elif op == "join":
        if bad:
            vals = [rng.choice(BADJOINS)]
        else:
            cs, ss = JOINS[int(v[0][1:]) - 1]
            e = explicit_list(cs)
            y = "\n".join("- " + "\n  ".join("%s: %s" % kv for kv in x.items()) for x in e)
            vals = [rng.choice(ss + [json.dumps(e), json.dumps(e, indent=1), y])]
    else:
        vals = [con.val[x] for x in v]
    return [sub, "--id=" + i, op, "--"] + vals


def history(rng, con, st, cmds, sid):
    cur = json.dumps(con.config(rng, st))
    try:
        states = [con.abstract(json.loads(cur))]
        out = []
        shown = []
        for c in cmds:
            args = edit_args(rng, con, c)
            with Scratch() as d:
                open(os.path.join(d, "c.json"), "w").write(cur)
                fmt = rng.choice(["json", "yaml"]) if "\x01" not in cur and "\\u" not in cur else "json"
                src = rng.choice(["c.json", "-"])
                pre = ["config"] + (["--config", src] if src != "-" or rng.random() < .5 else []) + (["--format", fmt] if fmt == "json" or rng.random() < .5 else [])
                rc, o, e = pa2(pre + args, d, stdin=cur.encode() if src == "-" else b"")
                left = sorted(os.listdir(d))
                same = open(os.path.join(d, "c.json")).read() == cur and left == ["c.json"]
            shown.append({"args": pre + args, "rc": rc, "err": e.decode("utf8", "replace")[:300]})
            printed = o.decode("utf8", "replace").strip()
            rc = rc if isinstance(rc, int) else -99
            if rc == 0:
                try:
                    new = json.loads(printed)
                except ValueError:
                    new = {"connection": {"?not json": printed}}
                if not same:
                    new["?file"] = "changed the file it read"
                cur = json.dumps(new) if rng.random() < .2 else printed
                states.append(con.abstract(new))
            else:
                states.append(states[-1])
            out.append({"op": c["op"], "id": c["id"], "v": c["v"], "bad": c["bad"], "rc": rc, "printed": printed != ""})
    except (KeyError, TypeError, AttributeError) as x:
        return {"sid": sid, "broken": repr(x)}, shown
    return {"sid": sid, "cmds": out, "states": states}, shown


EDITC = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Ids = %s Vals = %s Keys = %s Joins = %s Water = %s MaxArgs = %d MaxLen = %d Shown = %s\n")


def printed_forms(chk, toks, keys, sid0, count=None, anyhow=False):
    """Clean configurations, as lint prints them."""
    rng = chk.rng
    res = []
    for k in range(count or chk.n(60, 600)):
        con = Concrete(rng, toks, keys, ["i1"])
        con.ri = {n: n for n in ("a", "b", "c", "x", "r", "l")}

        def v():
            return rng.choice(list(con.val.values()))
        cfg = {"faucet": {"a": {"source": v()}}, "drain": {n: {"destination": v()} for n in "bcx"},
               "regulator": {"r": {"buffered": rng.choice([[1, 2], [5, 5], None, [0, 10 ** 9]]), "monitored_buffers": rng.choice([["b"], [], ["b"]])}},
               "launch": {n: {"cmd": v(), "arg": [v() for _ in range(rng.randrange(4))], "env": {x: v() for x in con.key.values() if rng.random() < .5}} for n in "al"},
               "connection": {n: rng.choice(ss + [explicit_list(cs)]) for n, (cs, ss) in zip("abcx", JOINS)}}
        if rng.random() < .5:
            cfg["launch"]["a"]["path"] = v()
        if "b" not in con.rv:
            # monitored buffers are looked up by value
            con.rv["b"] = "b"
        fmt = rng.choice(["json", "yaml"]) if "\x01" not in str(con.val.values()) else "json"
        states = [con.abstract(cfg)]
        if anyhow:
            state = rng.getstate()
            text, args = present(rng, cfg)[:2]
            rng.setstate(state)
            rc, o, e = cli_anyhow(rng, cfg, ["lint"])
        else:
            text, args = "", ["lint", fmt]
            rc, o, e = cli_config(json.dumps(cfg, ensure_ascii=False), ["lint"], fmt=fmt)
        shown = [{"args": args, "text": text, "config": cfg, "rc": rc, "err": e.decode("utf8", "replace")[:500], "out": o.decode("utf8", "replace")}]
        try:
            states.append(con.abstract(json.loads(o)))
        except (ValueError, KeyError, TypeError, AttributeError) as x:
            states.append({s: [["?", repr(x)]] for s in ("faucet", "drain")} | {s: [] for s in ("regulator", "launch", "connection")})
        res.append(({"sid": sid0 + k, "cmds": [{"op": "print", "id": "", "v": [], "bad": False, "rc": rc if isinstance(rc, int) else -99, "printed": o.strip() != b""}],
                     "states": states}, shown))
    return res


def c17(chk):
    rng = chk.rng
    props = "VIEW View\nPROPERTIES OnlyNamed Idempotent NothingElse Independent\n"
    chk.mc("ConfigEditGen", EDITC % (tlaset(["i1"]), tlaset(["v1", "v2"]), tlaset(["k1"]), tlaset(["j1", "j2"]), "{0, 1}", 1, chk.n(4, 6), "FALSE") + props, "commands", workers=1)
    chk.mc("ConfigEditGen", EDITC % (tlaset(["i1", "i2"]), tlaset(["v1", "v2"]), tlaset(["k1"]), tlaset(["j1"]), "{0, 1}", 1, chk.n(2, 3), "FALSE") + props, "commands on two", workers=1)
    toks, keys, ids = ["v%d" % k for k in range(1, 7)], ["k1", "k2", "k3"], ["i1", "i2"]
    count, depth = chk.n(130, 1500), 9
    r = chk.mc("ConfigEditGen", EDITC % (tlaset(ids), tlaset(toks), tlaset(keys), tlaset(["j1", "j2", "j3", "j4"]), "{0, 1, 7, 1000000}", 3, depth, "TRUE")
               , "histories", workers=1, simulate="num=%d" % count)
    hist = {}
    for st, h in tuples(r["out"], "HIST"):
        hist[st + h] = (st.strip('"'), [{"op": o, "id": i, "bad": b, "v": v} for o, i, b, v in parse_tla(json.loads(h))])
    hist = list(hist.values())
    jobs = [(i, st, cmds, Concrete(rng, toks, keys, ids), random.Random(rng.random())) for i, (st, cmds) in enumerate(hist)]
    res = parallel(lambda j: history(j[4], j[3], j[1], j[2], j[0]), jobs)
    res += printed_forms(chk, toks, keys, len(jobs))
    for rec, shown in res:
        if "broken" in rec:
            chk.violation("a printed configuration is not one: " + rec["broken"], {"commands": shown})
    good = [(rec, shown) for rec, shown in res if "broken" not in rec]
    v = judge(chk, "ConfigEditJudge", [g[0] for g in good], "histories")
    for rec, shown in good:
        ok, k = v[str(rec["sid"])]
        if ok != "TRUE":
            k = int(k)
            chk.violation("%s: expected another configuration" % shown[k - 1]["args"], {"commands": shown[:k], "before": rec["states"][k - 1], "after": rec["states"][k]})
    chk.part("histories", commands=sum(len(j[2]) for j in jobs), runs=len(jobs))
    for rec, shown in good[:3]:
        chk.sample({"commands": [s["args"] for s in shown], "last": rec["states"][-1]})


# ---------------------------------------------------------------- C24
def cli_anyhow(rng, cfg, args, mode="config"):
    """pa2 <mode> ... of a configuration which is written and given in some way."""
    text, pre, through, name = present(rng, cfg)
    with Scratch() as d:
        with open(os.path.join(d, name), "w", newline="") as f:
            f.write("" if through else text)
        return pa2([mode] + pre + args, d, stdin=text.encode() if through else b"")


def presented(chk, count):
    """The same configuration written in other ways, and given in other ways."""
    rng = chk.rng
    chk.mc("ConfigEditGen", EDITC % (tlaset(["i1", "i2"]), tlaset(["v1", "v2"]), tlaset(["k1"]), tlaset(["j1"]), "{0, 1}", 1, chk.n(2, 3), "FALSE")
           + "VIEW View\nPROPERTIES OnlyNamed Idempotent NothingElse Independent\n", "commands on two", workers=1)
    res = printed_forms(chk, ["v%d" % k for k in range(1, 7)], ["k1", "k2", "k3"], 0, count=count, anyhow=True)
    v = judge(chk, "ConfigEditJudge", [r for r, _ in res], "presentations")
    for rec, shown in res:
        if v[str(rec["sid"])][0] != "TRUE":
            chk.violation("config %s lint: the configuration printed is not the one given" % " ".join(shown[0]["args"]), {"commands": shown, "before": rec["states"][0], "after": rec["states"][-1]})
    chk.part("presentations", runs=len(res))
    for rec, shown in res[:2]:
        chk.sample(shown[0])


# ---------------------------------------------------------------- C21
class DotError(Exception):
    pass


DOTTOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:[^"\\]|\\.)*")|(-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))(?![A-Za-z_0-9])|([A-Za-z_\u0080-\uffff][A-Za-z_0-9\u0080-\uffff]*)|(->|[\[\]{}=,;:])', re.S)
KEYWORDS = {"graph", "digraph", "subgraph", "node", "edge", "strict"}


def dot_parse(text):
    """The DOT language as far as needed: nested lists of statements."""
    toks, i = [], 0
    while i < len(text):
        m = DOTTOK.match(text, i)
        if not m:
            raise DotError("bad character at %d: %r" % (i, text[i:i + 20]))
        i = m.end()
        if m.group(1) is not None:
            toks.append(("id", m.group(1)[1:-1].replace('\\"', '"').replace("\\\\", "\\")))
        elif m.group(2) is not None:
            toks.append(("id", m.group(2)))
        elif m.group(3) is not None:
            w = m.group(3)
            toks.append(("kw", w.lower()) if w.lower() in KEYWORDS else ("id", w))
        elif m.group(4) is not None:
            toks.append((m.group(4), m.group(4)))
    toks.append(("end", ""))
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take(kind, val=None):
        t = toks[pos[0]]
        if t[0] != kind or (val is not None and t[1] != val):
            raise DotError("expected %s %s, found %s" % (kind, val or "", t))
        pos[0] += 1
        return t[1]

    def attrs():
        a = {}
        while peek()[0] == "[":
            take("[")
            while peek()[0] == "id":
                k = take("id")
                take("=")
                a[k] = take("id")
                if peek()[0] in (",", ";"):
                    pos[0] += 1
            take("]")
        return a

    def stmts(strict):
        res = []
        take("{")
        while peek()[0] != "}":
            k, v = peek()
            if (k, v) == ("kw", "subgraph"):
                take("kw")
                name = take("id") if peek()[0] == "id" else ""
                res.append(("sub", name, stmts(strict)))
            elif k == "kw" and v in ("graph", "node", "edge"):
                take("kw")
                res.append(("default", v, attrs()))
            else:
                a = take("id")
                if peek()[0] == "=":
                    take("=")
                    res.append(("attr", a, take("id")))
                elif peek()[0] == "->":
                    chain = [a]
                    while peek()[0] == "->":
                        take("->")
                        chain.append(take("id"))
                    at = attrs()
                    for x, y in zip(chain, chain[1:]):
                        res.append(("edge", x, y, at))
                else:
                    res.append(("node", a, attrs()))
            if peek()[0] == ";":
                take(";")
        take("}")
        return res

    strict = peek() == ("kw", "strict")
    if strict:
        take("kw")
    take("kw", "digraph")
    if peek()[0] == "id":
        take("id")
    r = stmts(strict)
    take("end")
    return strict, r


def drawing(text):
    """Nodes, edges and legend of DOT output."""
    strict, st = dot_parse(text)
    d = {"nodes": [], "edges": [], "legend": [], "border": False}

    def legendary(name, sub):
        names = [s[1] for s in sub if s[0] == "sub"]
        return any(s[0] == "attr" and s[1] == "label" and s[2] == "Legend" for s in sub) and len(names) > 0

    def fill(a):
        return a.get("fillcolor", "?") if "filled" in a.get("style", "") else "none"

    def walk(sub, group, legend, label):
        lab = next((s[2] for s in sub if s[0] == "attr" and s[1] == "label"), "")
        for s in sub:
            if s[0] == "node":
                a = s[2]
                if legend:
                    d["legend"].append({"key": s[1], "label": lab, "text": a.get("label", s[1]), "shape": a.get("shape", "?"), "fill": fill(a), "box": label.startswith("cluster")})
                else:
                    d["nodes"].append({"key": s[1], "shape": a.get("shape", "ellipse"), "label": a.get("label", s[1]), "fill": fill(a), "group": group})
            elif s[0] == "edge":
                d["edges"].append({"src": s[1], "dst": s[2], "label": s[3].get("label", "").lower()})
            elif s[0] == "sub":
                gl = next((x[2] for x in s[2] if x[0] == "attr" and x[1] == "label"), "")
                if legendary(s[1], s[2]):
                    d["border"] = s[1].startswith("cluster")
                walk(s[2], gl[:-1] if gl.endswith(":") and s[1].startswith("cluster") else group, legend or legendary(s[1], s[2]), s[1])
    walk(st, "", False, "")
    if strict:
        # parallel edges are one, the last label counts
        merged = {}
        for e in d["edges"]:
            merged[e["src"], e["dst"]] = e
        d["edges"] = list(merged.values())
    return d


NAMES = ["a", "b1", "node", "digraph", "1abc", "Graph", "_", "x y", "\u00e9", "a-b", "a\"b", "a\\b", "n:p", "a->b", "strict", "subgraph", "edge", "007", "A", "a;b", "{", "l_a", "<b>", "%"]
CIDS = ["c", "my-c", "node", "1", "x y", "\u00e9", "A\"q", "back\\slash", "a.b", "legend", "diagram", "0c", "c:"]


def graph_config(rng, conns):
    """conns: [{id, comps}] with joins or explicit lists; every setting there."""
    cfg = {"connection": {}, "faucet": {}, "drain": {}, "launch": {}, "regulator": {}}
    for c in conns:
        plain = all(re.fullmatch(r"\w+", x["name"], re.A) for x in c["comps"])
        n = len(c["comps"])
        if plain and rng.random() < .6:
            s = ""
            for k, x in enumerate(c["comps"]):
                if k:
                    s += rng.choice(["|", " | ", "|F|", " |C| "]) + (rng.choice(["", "", "[2]"]))
                s += rng.choice([x["type"], x["type"][0]]) + ":" + x["name"]
                if k + 1 < n:
                    s += {"out": rng.choice(["", "[O]"]), "err": "[E]", "exit": "[X]"}[x["port"]]
            cfg["connection"][c["id"]] = s
        else:
            cfg["connection"][c["id"]] = [explicit_comp(x["type"], x["name"], k, n, port=x["port"]) for k, x in enumerate(c["comps"])]
        for x in c["comps"]:
            if x["type"] == "faucet":
                cfg["faucet"][x["name"]] = {"source": "s"}
            elif x["type"] == "drain":
                cfg["drain"][x["name"]] = {"destination": "d"}
            elif x["type"] == "launch":
                cfg["launch"][x["name"]] = {"cmd": "true"}
            elif x["type"] == "regulator":
                cfg["regulator"][x["name"]] = {"buffered": [1, 2], "monitored_buffers": []}
    # settings without connections are not drawn
    for t, s in (("faucet", {"source": "x"}), ("drain", {"destination": "x"}), ("launch", {"cmd": "x"}), ("regulator", {})):
        if rng.random() < .2:
            cfg[t]["unused_" + t] = s
    return cfg


MODES = [("full", []), ("full", ["--legend-border"]), ("diagram", ["-d", "--legend-border"]), ("diagram", ["--diagram-only"]), ("diagram", ["-d"]), ("legend", ["-l"]),
         ("legend", ["--legend-only", "--legend-border"])]
GRAPHC = "SPECIFICATION Spec\nINVARIANTS Right Sharp\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS TypeMenu = %s NameMenu = %s PortMenu = %s MaxConns = %d MaxComps = %d\n"


def parse_conns(s):
    return json.loads(re.sub(r"(\w+) \|->", r'"\1":', s).replace("<<", "\x01").replace(">>", "\x02").replace("[", "{").replace("]", "}").replace("\x01", "[").replace("\x02", "]"))


def c21(chk):
    rng = chk.rng
    types = list(LAYER)
    lists = []
    for k, (ts, ns, ps, mc, mk) in enumerate([(types, ["a"], ["out", "err", "exit"], 1, 3), (types, ["a", "b"], ["out"], 1, 3),
                                              (["launch", "junction"], ["a"], ["out", "err"], 2, 3 if chk.thorough else 2), (["launch", "drain"], ["a", "b"], ["out", "exit"], 2, 2)]):
        r = chk.mc("GraphGen", GRAPHC % (tlaset(ts), tlaset(ns), tlaset(ps), mc, mk), "drawings %d" % k)
        got = [parse_conns(json.loads(t[0])) for t in tuples(r["out"], "CONNS")]
        lists += rng.sample(got, min(len(got), chk.n(250, 2500)))
    for _ in range(chk.n(350, 3000)):
        names = rng.choice([rng.sample(NAMES, rng.randint(1, 4)), list(rng.choice(RELATED))])
        ids = rng.sample(CIDS, rng.randint(1, 5))
        lists.append([{"id": i, "comps": [{"type": rng.choice(types), "name": rng.choice(names), "port": rng.choice(["out", "out", "err", "exit"])}
                                          for _ in range(rng.randint(2, 5))]} for i in ids])
    jobs = []
    for i, conns in enumerate(lists):
        mode, args = rng.choice(MODES)
        # names of one connection id
        jobs.append((i, conns, mode, args, graph_config(rng, conns)))

    def run(j):
        i, conns, mode, args, cfg = j
        rc, o, e = cli_anyhow(random.Random(i), cfg, args, mode="graph") if i % 3 == 2 else cli_config(cfg, args, mode="graph")
        rec = {"sid": i, "conns": conns, "mode": mode, "border": "--legend-border" in args, "ok": rc == 0, "d": {"nodes": [], "edges": [], "legend": [], "border": False}}
        why = "exit %s" % rc
        if rc == 0:
            try:
                rec["d"] = drawing(o.decode("utf8", "replace"))
            except DotError as x:
                rec["ok"] = False
                why = "not DOT: %s" % x
        for c in rec["conns"]:
            c["comps"][-1]["port"] = "out"
        return rec, why, o.decode("utf8", "replace") + e.decode("utf8", "replace")

    res = parallel(run, jobs)
    v = judge(chk, "GraphJudge", [r[0] for r in res], "graphs")
    for (rec, why, out), j in zip(res, jobs):
        if v[str(rec["sid"])][0] != "TRUE":
            chk.violation("graph %s: %s" % (" ".join(j[3]), why if not rec["ok"] else "the drawing does not show the network"), {"config": j[4], "args": j[3], "output": out, "read": rec["d"]})
    for rec, _, _ in res[:2]:
        chk.sample(rec)


# ---------------------------------------------------------------- C14
MANIPC = "SPECIFICATION Spec\nINVARIANTS Right Sharp\n%sCHECK_DEADLOCK FALSE\nCONSTANTS SrcMenu = %s DstMenu = %s Brs = %s Prs = %s MaxEdges = %d\n"
POLS = {"terminate": "T", "finish": "F", "consume": "C"}


def chains(rng, edges):
    """Group edges into connections: lists of edges, each beginning where the one before ends."""
    rest = list(edges)
    rng.shuffle(rest)
    res = []
    while rest:
        ch = [rest.pop()]
        while rng.random() < .7:
            nxt = [e for e in rest if e["src"] == ch[-1]["dst"]]
            if not nxt:
                break
            e = rng.choice(nxt)
            rest.remove(e)
            ch.append(e)
        res.append(ch)
    return res


CONN_KEYS = ["main", "main_1", "dyn_connection", "dyn_connection_1", "dyn_connection_2", "a", "a_1", "a_1_1", "dyn_connection_1_1", "z", "\u00e9 x", "1"]


def conn_value(rng, ch, join=None):
    """A connection of the configuration: a join string or a list."""
    names = [ch[0]["src"][1]] + [e["dst"][1] for e in ch]
    if (rng.random() < .5 if join is None else join) and all(re.fullmatch(r"\w+", n, re.A) for n in names):
        s = ""
        for k, e in enumerate([None] + ch):
            comp = ch[0]["src"] if e is None else e["dst"]
            if e is not None:
                p = POLS[e["br"]]
                s += rng.choice([" |%s| ", "|%s|"]) % p if p != "T" or rng.random() < .3 else rng.choice(["|", " | "])
                if e["pr"] != 0 or rng.random() < .1:
                    s += "[%d]" % e["pr"]
            s += rng.choice([comp[0], comp[0][0]]) + ":" + comp[1]
            if k < len(ch):
                port = ch[k]["port"]
                s += {"out": rng.choice(["", "", "[O]"]), "err": "[E]", "exit": "[X]"}[port]
        return s
    lst = []
    for k in range(len(ch) + 1):
        t, n = ch[0]["src"] if k == 0 else ch[k - 1]["dst"]
        c = {"component_type": t, "component_name": n}
        if k > 0:
            c.update(breakable=ch[k - 1]["br"], priority=ch[k - 1]["pr"])
        if k < len(ch):
            c["output_port"] = ch[k]["port"]
        lst.append(c)
    return lst


def edge_config(rng, edges, extra=True):
    """A configuration of these edges with settings for all components."""
    cfg = {"connection": {}, "faucet": {}, "drain": {}, "launch": {}, "regulator": {}}
    chs = chains(rng, edges)
    keys = rng.sample(CONN_KEYS, min(len(CONN_KEYS), len(chs)))
    keys += ["k%d" % i for i in range(len(chs) - len(keys))]
    for k, ch in zip(keys, chs):
        cfg["connection"][k] = conn_value(rng, ch)
    comps = {e["src"] for e in edges} | {e["dst"] for e in edges}
    if extra:
        comps |= {(t, n) for t in ("drain", "faucet", "launch", "regulator") for n in rng.sample(["dyn_drain_1", "dyn_drain_2", "junction_1", "spare", "main_1"], rng.choice([0, 0, 1, 2]))}
    bufs = [n for t, n in comps if t == "buffer"]
    for t, n in sorted(comps):
        if t == "faucet":
            cfg[t][n] = {"source": rng.choice(["", "-", "f.txt", "/a b"])}
        elif t == "drain":
            cfg[t][n] = {"destination": rng.choice(["", "-", "_", "d.txt", "/dev/null"])}
        elif t == "launch":
            cfg[t][n] = {"cmd": rng.choice(["true", "/x y"]), "arg": rng.sample(["a", "b c", ""], rng.randint(0, 2)), "env": rng.choice([{}, {"A": "1", "B": "="}]), "path": rng.choice([None, "/tmp"])}
        elif t == "regulator":
            cfg[t][n] = {"buffered": rng.choice([[1, 5], [0, 0]]), "monitored_buffers": sorted(rng.sample(bufs, rng.randint(0, len(bufs))))}
    return cfg


def edges_of(conns):
    """The edges of a printed configuration; None when it is not made of lists."""
    res = []
    for k in sorted(conns):
        v = conns[k]
        if not isinstance(v, list) or len(v) < 2:
            return None
        for a, b in zip(v, v[1:]):
            if "output_port" not in a or "breakable" not in b or "priority" not in b:
                return None
            res.append({"src": [a["component_type"], a["component_name"]], "port": a["output_port"], "dst": [b["component_type"], b["component_name"]],
                        "br": b["breakable"], "pr": b["priority"]})
    return res


def settings_of(c):
    res = {}
    for t in ("faucet", "drain", "launch", "regulator"):
        res[t] = []
        for n in sorted(c.get(t) or {}):
            v = c[t][n]
            if t == "drain":
                txt = v["destination"]
            elif t == "faucet":
                txt = v["source"]
            elif t == "launch":
                txt = json.dumps([v.get("cmd"), v.get("path"), v.get("arg") or [], sorted((v.get("env") or {}).items())])
            else:
                txt = json.dumps([v.get("buffered"), v.get("monitored_buffers") or []])
            res[t].append([n, txt])
    return res


JN = ["junction_1", "junction_2", "junction", "j"]
BN = ["b", "junction_1"]
LN = ["l", "m", "dyn_drain_1", "junction_1"]
FNAMES = ["f", "g", "junction_1"]
DNAMES = ["d", "dyn_drain_1", "dyn_drain_2", "junction_2"]
RN = ["r", "junction_1"]
OUTP = {"faucet": ["out"], "launch": ["out", "out", "err", "exit"], "junction": ["out"], "buffer": ["out"], "regulator": ["out"]}


def random_edges(rng, n, pr=True):
    pool = [("junction", x) for x in JN] + [("buffer", x) for x in BN] + [("launch", x) for x in LN] + [("regulator", x) for x in RN]
    if rng.random() < .3:
        rel = rng.choice(RELATED)
        pool = [(t, x) for t in ("junction", "buffer", "launch", "regulator") for x in rel]
        FN, DN = rel, rel
    else:
        FN, DN = FNAMES, DNAMES
    srcs = rng.sample(pool + [("faucet", x) for x in FN], rng.randint(1, 5))
    srcs = [s for s in srcs] or [("faucet", "f")]
    ds = pool + [("drain", x) for x in DN]
    dsts = rng.sample(ds, min(len(ds), rng.randint(1, 5)))
    res = []
    for _ in range(n):
        s, d = rng.choice(srcs), rng.choice(dsts)
        res.append({"src": s, "port": rng.choice(OUTP[s[0]]), "dst": d, "br": rng.choice(list(POLS)),
                    "pr": rng.choice([0, 0, 3, -2, 7]) if d[0] == "junction" and pr else 0})
    return res


def parse_edges(s):
    v = json.loads(re.sub(r"(\w+) \|->", r'"\1":', s).replace("<<", "\x01").replace(">>", "\x02").replace("[", "{").replace("]", "}").replace("\x01", "[").replace("\x02", "]"))
    for e in v:
        e["src"], e["dst"] = tuple(e["src"]), tuple(e["dst"])
    return v


def manip_models(chk):
    runs = [(2, "flxj", "lyj", ["terminate", "consume", "finish"], "{0, 3}"), (3, "fl", "lj", ["terminate", "consume"], "{0}"),
            (3, "fxj", "ldj", ["terminate"], "{0}"), (3, "lxeb", "mb", ["finish"], "{0}")]
    if chk.thorough:
        runs += [(3, "flxj", "lyj", ["terminate", "consume"], "{0, 3}"), (4, "flj", "ldj", ["terminate"], "{0}"), (4, "fx", "lj", ["terminate", "finish"], "{0}")]
    lists = []
    for k, (mx, s, d, b, p) in enumerate(runs):
        r = chk.mc("ManipGen", MANIPC % ("CONSTRAINT Emit\n", tlaset(s), tlaset(d), tlaset(b), p, mx), "graphs %d" % k)
        got = [parse_edges(json.loads(t[0])) for t in tuples(r["out"], "EDGES")]
        lists += got if chk.thorough and len(got) < 9000 else chk.rng.sample(got, min(len(got), 700))
    return lists


def c14(chk):
    rng = chk.rng
    named_priority(chk)
    lists = manip_models(chk)
    lists += [random_edges(rng, rng.choice([1, 2, 3, 4, 5, 6, 8])) for _ in range(chk.n(500, 6000))]
    recs, jobs = [], []
    for i, edges in enumerate(lists):
        cfg = edge_config(rng, edges)
        op = "light" if rng.random() < .15 else "manip"
        recs.append({"sid": i, "op": op, "s": json.dumps(cfg)})
        jobs.append((edges, cfg, op))
    got = pah("pure", recs)

    def record(i, after, ok):
        edges, cfg, op = jobs[i]
        R = edges_of(after["connection"]) if ok else []
        return {"sid": i, "op": op, "ok": ok and R is not None, "U": [dict(e, src=list(e["src"]), dst=list(e["dst"])) for e in edges], "R": R or [],
                "before": settings_of(cfg), "after": settings_of(after if ok else cfg)}

    out = [record(i, got[i].get("ok"), "ok" in got[i]) for i in range(len(jobs))]
    v = judge(chk, "ManipJudge", out, "manipulated configurations")
    manip_report(chk, v, out, jobs, got)
    # and through the command
    sel = rng.sample(range(len(jobs)), chk.n(60, 600))

    def cli(i):
        rc, o, e = cli_anyhow(random.Random(i), jobs[i][1], ["manipulate"]) if i % 3 == 2 else cli_config(jobs[i][1], ["manipulate"])
        try:
            return i, json.loads(o) if rc == 0 else None, (rc, o.decode("utf8", "replace"), e.decode("utf8", "replace"))
        except ValueError:
            return i, None, (rc, o.decode("utf8", "replace"), e.decode("utf8", "replace"))
    res = parallel(cli, sel)
    recs = [dict(record(i, a, a is not None), op="light") for i, a, _ in res]
    v = judge(chk, "ManipJudge", recs, "pa2 config manipulate")
    manip_report(chk, v, recs, jobs, {i: r for i, _, r in res})
    for r in out[:2]:
        chk.sample({"U": r["U"], "R": r["R"]})


def manip_report(chk, v, recs, jobs, got):
    for r in recs:
        x = v[str(r["sid"])][0]
        if x == "fine":
            continue
        chk.violation("manipulated configuration: %s" % x, {"config": jobs[r["sid"]][1], "U": r["U"], "R": r["R"], "got": got.get(r["sid"])})


def named_priority(chk):
    """Two connections to one drain, one of them with a priority: whether that runs must not depend on how they are called."""
    for keys in (("x", "y"), ("y", "x")):
        cfg = {"connection": {keys[0]: "f:a | [3]d:d", keys[1]: "f:b | d:d"}, "faucet": {"a": {"source": "a"}, "b": {"source": "b"}}, "drain": {"d": {"destination": "-"}}}
        with Scratch() as d:
            for n in "ab":
                open(os.path.join(d, n), "w").write(n + "\n")
            json.dump(cfg, open(os.path.join(d, "c.json"), "w"))
            rc, o, e = pa2(["process", "--config", "c.json", "--format", "json"], d)
        if rc == 0 and sorted(o) == sorted(b"a\nb\n"):
            continue
        known = keys == ("x", "y") and rc == 1 and o == b"" and b"AddInput(Drain:d, UnsupportedPriority(3))" in e
        chk.violation("connections %s, %s to one drain: exit %s" % (keys + (rc,)), {"config": cfg, "stdout": o.decode(), "stderr": e.decode("utf8", "replace")},
                      key="implicit-junction-priority" if known else None)
