"""Scripts for single components."""
import itertools
from comp import fresh, rand_script

POLS = "TFC"
W = {"send": 5, "burst": 1, "close": .5, "recv": 4, "drop": .7, "step": 4, "settle": 2, "pause": 1, "resume": 1}


def one(rng, kind, drops=True, spy=None, length=25, nin=None, nout=None, prios=None, pols=POLS, weights=None, ctl=None):
    n = o = 1
    if kind == "junction":
        n = nin or rng.choice([1, 2, 2, 3])
        o = nout or rng.choice([1, 2, 2, 3])
        pr = prios or rng.choice([[0], [-2, 0, 0, 1, 5], [1, 1, 2]])
        sc = dict(kind=kind, inputs=[dict(prio=rng.choice(pr), cap=rng.choice([1, 2, 4])) for _ in range(n)],
                  outputs=[dict(pol=rng.choice(pols)) for _ in range(o)], size=rng.choice([1, 2, 8]))
    elif kind in ("regulator", "buffer"):
        sc = dict(kind=kind, inputs=[dict(cap=rng.choice([1, 2, 4]))], outputs=[dict(pol=rng.choice(pols))],
                  size=rng.choice([1, 2, 8]), ctl=(rng.random() < .7 if ctl is None else ctl))
    elif kind == "faucet":
        sc = dict(kind=kind, outputs=[dict(pol=rng.choice(pols))], size=rng.choice([1, 2, 8]))
    elif kind == "drain":
        o = 0
        sc = dict(kind=kind, inputs=[dict(cap=rng.choice([1, 2, 4]))])
    else:
        return launch(rng, drops=drops, spy=spy, length=length, pols=pols)
    sc["out_first"] = rng.random() < .5
    w = dict(weights or W)
    sc["spy"] = kind != "drain" and (rng.random() < .3 if spy is None else spy)
    if sc["spy"] or not drops:
        w["drop"] = 0
    sc["script"] = rand_script(rng, n, o, None, length, w, ctl=sc.get("ctl") and kind == "regulator")
    if kind == "drain":
        sc["script"].append(["got", 2])
    return sc


def launch(rng, drops=True, spy=None, length=20, pols=POLS, ports=None, has_in=None, end=None, kill=.3):
    has_in = rng.random() < .7 if has_in is None else has_in
    outs = [dict(port=p, pol=rng.choice(pols)) for p in (ports if ports is not None else ("out", "err", "exit"))
            if ports is not None or rng.random() < .65]
    nin = 1 if has_in else 0
    if not nin and not outs:
        outs = [dict(port="exit", pol="T")]
    m = fresh()
    s = []
    drops = drops and rng.random() < .5
    spy = (not drops and rng.random() < .4) if spy is None else spy
    if spy:
        drops = False
    alive = set(range(nin + 1, nin + len(outs) + 1))
    inopen = nin
    closed = set()
    for _ in range(rng.choice([length // 2, length, length + length // 2])):
        k = rng.choices(["send", "close", "recv", "drop", "step", "settle", "out", "err", "read", "closein", "closeout", "closeerr"],
                        [3, .3, 4, .5 if drops else 0, 3, 3, 3, 3, 3, .2, .2, .2])[0]
        if k == "send" and inopen:
            s.append(["send", 1, m()])
        elif k == "close" and inopen:
            s.append(["close", 1])
            inopen = 0
        elif k == "recv" and alive:
            s.append(["recv", rng.choice(sorted(alive))])
        elif k == "drop" and alive:
            e = rng.choice(sorted(alive))
            alive.discard(e)
            s.append(["drop", e])
        elif k in ("step", "settle"):
            s.append([k])
        elif k in ("out", "err") and k not in closed:
            s.append([k, 0, m()])
        elif k == "read" and "in" not in closed:
            s.append(["read"])
        elif k in ("closein", "closeout", "closeerr") and k[5:] not in closed:
            closed.add(k[5:])
            s.append([k])
    s.append(["settle"])
    code = rng.choice([0, 1, 2, 9, 10, 42, 99, 100, 127, 128, 137, 255, rng.randrange(256)])
    s.append(["kill", 0, rng.choice([9, 15, 1, 2])] if rng.random() < kill else ["exit", 0, code])
    if rng.random() < .85:
        s.append(["settle"])
        for _ in range(14):
            s.append(["step"])
            for e in sorted(alive):
                s.append(["recv", e])
        s.append(["settle"])
        if inopen:
            s += [["close", 1], ["settle"]]
    return dict(kind="launch", inputs=[dict(cap=rng.choice([1, 2, 4]))] * nin, outputs=outs, spy=spy, script=s)


def flush(outs, rounds=4):
    s = []
    for _ in range(rounds):
        s.append(["settle"])
        for o in outs:
            s.append(["recv", o])
    return s


# ---------------------------------------------------------------- systematic

def relay_speeds(kinds=("regulator", "buffer", "junction", "faucet", "drain")):
    """Fast and slow senders and receivers, messages queued at the end."""
    res = []
    for kind in kinds:
        for cap, size in ((1, 1), (2, 1), (1, 2), (4, 8)):
            for style in ("fast", "slow", "late"):
                m = fresh()
                s = []
                o = 2
                n = 9
                if kind == "faucet":
                    i = 1
                elif kind == "drain":
                    i, o = 1, None
                else:
                    i = 1
                for k in range(n):
                    s.append(["send", i, m()])
                    if style == "slow":
                        s.append(["settle"])
                    elif style == "fast":
                        s.append(["step"])
                    if o and style != "late" and k % 2:
                        s.append(["recv", o])
                s.append(["close", i])
                if o:
                    for _ in range(n + 2):
                        s += [["step"], ["recv", o]]
                s.append(["settle"])
                if kind == "drain":
                    s.append(["got", 2])
                sc = dict(kind=kind, size=size, script=s, spy=False, ctl=False)
                if kind != "faucet":
                    sc["inputs"] = [dict(cap=cap)]
                if kind != "drain":
                    sc["outputs"] = [dict(pol="T")]
                res.append(sc)
    return res


def junction_copies():
    """Every combination of policies on two outputs, either or both dropped at
    different moments, and three outputs with one dropped."""
    res = []
    for p, r in itertools.product(POLS, POLS):
        for d in ((3,), (4,), (3, 4), (4, 3)):
            for when in (0, 1, 2):
                m = fresh()
                s = [["send", 1, m()], ["send", 2, m()]]
                pre = [["settle"], ["recv", 3], ["recv", 4]]
                body = [["settle"], ["send", 1, m()], ["send", 2, m()], ["settle"]]
                dr = [["drop", e] for e in d]
                if when == 0:
                    s = dr + s + body
                elif when == 1:
                    s = s + pre + dr + body
                else:
                    s = s + [["settle"]] + dr[:1] + body + dr[1:] + [["send", 1, m()], ["settle"]]
                keep = [e for e in (3, 4) if e not in d]
                s += flush(keep, 3) + [["send", 1, m()], ["settle"], ["close", 1], ["close", 2]] + flush(keep, 4)
                res.append(dict(kind="junction", inputs=[dict(prio=0, cap=2), dict(prio=0, cap=2)],
                                outputs=[dict(pol=p), dict(pol=r)], size=2, spy=False, script=s))
    return res


def junction_prios():
    """All patterns of two and three priorities with everything waiting."""
    res = []
    for n in (2, 3):
        for pr in itertools.product((-1, 0, 2), repeat=n):
            m = fresh()
            s = []
            for rnd in range(2):
                for _ in range(3):
                    for e in range(1, n + 1):
                        s.append(["send", e, m()])
                for _ in range(3 * n + 1):
                    s += [["step"], ["recv", n + 1]]
                s += [["settle"], ["recv", n + 1], ["settle"], ["recv", n + 1]]
            # refill the first one all the time: it may not be starved nor starve
            for k in range(8):
                for e in range(1, n + 1):
                    s.append(["send", e, m()])
                s += [["step"], ["recv", n + 1]]
            for e in range(1, n + 1):
                s.append(["close", e])
            for _ in range(12 + 4 * n):
                s += [["step"], ["recv", n + 1]]
            s.append(["settle"])
            res.append(dict(kind="junction", inputs=[dict(prio=p, cap=4) for p in pr], outputs=[dict(pol="T")], size=1, spy=False, script=s))
    return res


def junction_ends():
    """Inputs end in every order, empty or with messages left."""
    res = []
    for n in (1, 2, 3):
        for order in itertools.permutations(range(1, n + 1)):
            for pr in ((0,) * n, tuple(range(n)), tuple(range(n, 0, -1)), (1,) + (0,) * (n - 1)):
                for left in (False, True):
                    m = fresh()
                    s = [["step"]]
                    for e in order:
                        for f in range(1, n + 1):
                            s.append(["send", f, m()])
                        if not left:
                            s += flush([n + 1], n + 1)
                        s.append(["close", e])
                        s.append(["settle"])
                        s.append(["recv", n + 1])
                    for _ in range(3 * n + 2):
                        s += [["step"], ["recv", n + 1]]
                    s.append(["settle"])
                    res.append(dict(kind="junction", inputs=[dict(prio=p, cap=8) for p in pr], outputs=[dict(pol="T")], size=2, spy=False, script=s))
    return res


def regulator_pauses(rng, count):
    res = []
    for when in range(0, 7):
        for size in (1, 4):
            m = fresh()
            s = []
            for k in range(8):
                if k == when:
                    s += [["pause"]]
                s += [["send", 1, m()], ["step"], ["recv", 2]]
            s += [["settle"], ["recv", 2], ["settle"], ["recv", 2], ["pause"], ["settle"], ["recv", 2], ["send", 1, m()], ["settle"], ["recv", 2],
                  ["resume"], ["step"]] + flush([2], 6) + [["pause"], ["resume"], ["pause"], ["send", 1, m()], ["send", 1, m()], ["settle"]]
            s += flush([2], 3) + [["resume"], ["pause"], ["resume"]] + flush([2], 6) + [["close", 1]] + flush([2], 4) + [["settle"]]
            res.append(dict(kind="regulator", inputs=[dict(cap=4)], outputs=[dict(pol="T")], size=size, ctl=True, spy=False, script=s))
    for _ in range(count):
        w = dict(W, pause=3, resume=2, drop=0, close=.2)
        res.append(one(rng, "regulator", drops=False, weights=w, length=35, ctl=True))
    return res


def buffers(rng, count):
    res = []
    for n in (1, 5, 17, 40):
        for size in (1, 4):
            for when in ("end", "mid", "never"):
                m = fresh()
                s = []
                for k in range(n):
                    s += [["send", 1, m()], ["step"]]
                    if when == "mid" and k % 3 == 0:
                        s += [["settle"], ["recv", 2]]
                s += [["settle"]]
                if when != "never":
                    for _ in range(n // 2):
                        s += [["recv", 2], ["step"]]
                    s += [["settle"]]
                s += [["close", 1], ["settle"]]
                for _ in range(n + 1):
                    s += [["recv", 2], ["step"]]
                s += [["settle"], ["recv", 2], ["settle"]]
                res.append(dict(kind="buffer", inputs=[dict(cap=2)], outputs=[dict(pol="T")], size=size, ctl=True, spy=False, script=s))
    for _ in range(count):
        w = dict(W, recv=2, drop=0, settle=1.5)
        res.append(one(rng, "buffer", drops=False, weights=w, length=30))
    return res


def stalls():
    """Nobody takes the output."""
    res = []
    for kind in ("junction", "regulator", "faucet"):
        for size in (1, 2, 8, None):
            m = fresh()
            s = []
            for _ in range(90):
                s += [["send", 1, m()], ["step"]]
            s += [["settle"]]
            for _ in range(40):
                s += [["send", 1, m()], ["step"]]
            s += [["settle"], ["recv", 2], ["settle"], ["send", 1, m()], ["settle"], ["close", 1]]
            sc = dict(kind=kind, outputs=[dict(pol="T")], spy=False, script=s, ctl=False)
            if size:
                sc["size"] = size
            if kind != "faucet":
                sc["inputs"] = [dict(cap=2)]
            res.append(sc)
    for n in (2, 3):
        m = fresh()
        s = []
        for k in range(120):
            s += [["send", 1 + k % 2, m()], ["step"]]
            for o in range(3, 2 + n):       # the last output is never taken
                s.append(["recv", o])
        s += [["settle"]]
        res.append(dict(kind="junction", inputs=[dict(cap=2), dict(cap=2)], outputs=[dict(pol="T") for _ in range(n)], spy=False, script=s))
    for port in ("out", "err"):
        m = fresh()
        s = []
        for k in range(60):
            s += [[port, 0, m()], ["step"]]
        s += [["settle"], ["recv", 1], ["settle"], ["exit", 0, 0], ["settle"]]
        res.append(dict(kind="launch", outputs=[dict(port=port, pol="T")], spy=False, script=s))
    m = fresh()
    s = []
    for k in range(40):
        s += [["send", 1, m()], ["step"]]
    s += [["settle"], ["exit", 0, 3], ["settle"]]
    res.append(dict(kind="launch", inputs=[dict(cap=2)], outputs=[dict(port="exit", pol="T")], spy=False, script=s))
    return res


def policies(rng, count):
    """A relay with one output which closes at any moment, for each policy."""
    res = []
    for kind in ("regulator", "buffer", "faucet", "junction"):
        for p in POLS:
            for when in (0, 1, 3):
                for size in (1, 8):
                    m = fresh()
                    s = []
                    for k in range(6):
                        if k == when:
                            s.append(["drop", 2])
                        s += [["send", 1, m()], ["settle" if k % 2 else "step"]]
                        if k < when:
                            s.append(["recv", 2])
                    s += [["settle"], ["send", 1, m()], ["settle"], ["send", 1, m()], ["settle"], ["close", 1], ["settle"]]
                    sc = dict(kind=kind, outputs=[dict(pol=p)], spy=False, script=s, size=size, ctl=False)
                    if kind != "faucet":
                        sc["inputs"] = [dict(cap=4)]
                    res.append(sc)
    for port in ("out", "err", "exit"):
        for p in POLS:
            for when in (0, 2):
                m = fresh()
                s = []
                edges = {q: i + 2 for i, q in enumerate(("out", "err", "exit"))}
                for k in range(4):
                    if k == when:
                        s.append(["drop", edges[port]])
                    s += [["out", 0, m()], ["err", 0, m()], ["settle"]] + [["recv", edges[q]] for q in ("out", "err") if not (q == port and k >= when)]
                s += [["exit", 0, 7], ["settle"]]
                for _ in range(3):
                    s += [["recv", edges[q]] for q in edges if q != port] + [["settle"]]
                s += [["close", 1], ["settle"]]
                res.append(dict(kind="launch", inputs=[dict(cap=2)], outputs=[dict(port=q, pol=p if q == port else "T") for q in edges], spy=False, script=s))
    for _ in range(count):
        k = rng.choice(["junction", "junction", "junction", "buffer", "regulator", "faucet", "launch"])
        res.append(one(rng, k, drops=True, spy=False, weights=dict(W, drop=1.6)))
    return res
