"""Component level: scripts for single components, judged by NetTrace."""
import json, os
from core import *

TRACE_CFG = open(os.path.join(SPEC, "NetTrace.cfg")).read()


def validate(chk, records, module="NetTrace", cfg=TRACE_CFG, per=60, timeout=400, name="traces"):
    """Let TLC judge recorded executions. Returns {sid: (accepted, reached, total)}."""
    if not records:
        return {}
    n = max(1, min(NPROC, (len(records) + per - 1) // per))
    # long ones first so that shards are even
    records = sorted(records, key=lambda r: -len(r["ev"]))

    def run(batch):
        with Scratch() as d:
            f = os.path.join(d, "t.ndjson")
            with open(f, "w") as fh:
                for r in batch:
                    r = {k: r[k] for k in ("sid", "net", "ev")}
                    fh.write(json.dumps(r) + "\n")
            return batch, tlc(module, cfg, env={"TRACEFILE": f}, workers=1, timeout=timeout, depth_first=True)

    res = {}
    for batch, r in parallel(run, shards(records, n), n):
        chk.states += r["distinct"]
        chk.transitions += r["states"]
        t = tuples(r["out"], "TRACE")
        if r["rc"] != 0 or len(t) != len(batch):
            if len(batch) == 1:
                raise ToolError("trace checking failed (rc %s)\n%s" % (r["rc"], r["out"][-4000:]))
            raise ToolError("trace checking failed (rc %s)\n%s" % (r["rc"], r["out"][-4000:]))
        for sid, got, total in t:
            sid = int(sid)
            res[sid] = (int(got) == int(total), int(got), int(total))
    chk.part(name, executions=len(records), events=sum(len(r["ev"]) for r in records))
    return res


BOUND = 64


def structural(rec):
    """What makes a recorded execution unacceptable before TLC looks at it."""
    if "died" in rec or "error" in rec:
        return rec.get("died") or rec.get("error")
    for e in rec["net"]["edges"]:
        if e["dst"] == 0 and e["src"] != 0 and e["cap"] == -1 and not rec.get("sink_ok") and rec.get("chan_outs", True):
            pass
    return None


def comp_check(chk, scenarios, name):
    """Run scripts on real components and validate the executions."""
    chk.enough()
    for i, s in enumerate(scenarios):
        s["sid"] = i
    by = {s["sid"]: s for s in scenarios}
    recs = pah("comp", scenarios, timeout=chk.n(150, 900))
    bad = []

    def judge(recs, label):
        out = {}
        ok = []
        for sid, r in recs.items():
            why = structural(r)
            why = why or unbounded(by[sid], r)
            if why:
                out[sid] = why
            else:
                ok.append(r)
        v = validate(chk, ok, name=label)
        for sid, (good, got, total) in v.items():
            if not good:
                out[sid] = "event %d of %d is not explained by the specification" % (got + 1, total)
        return out

    bad = judge(recs, name)
    if bad:
        log("  %s: %d rejected, running these again with more patience" % (name, len(bad)))
        again = [by[s] for s in bad]
        for part in (again[:NPROC * 2], again[NPROC * 2:200]):
            if chk.violations:
                break
            recs2 = pah("comp", part, patience=12, timeout=chk.n(250, 900))
            bad2 = judge(recs2, name + " (again)")
            for sid, why in sorted(bad2.items()):
                r = recs2[sid]
                chk.violation("%s: %s" % (name, why), {"scenario": by[sid], "recorded": r})
    chk.traces += len(recs) - len(bad)
    for s in scenarios[:1] + scenarios[len(scenarios) // 2:len(scenarios) // 2 + 1]:
        chk.sample({"scenario": s, "events": len(recs[s["sid"]].get("ev", []))})
    return recs


def unbounded(sc, r):
    """C09: the channel a component hands out has a small capacity."""
    if "net" not in r:
        return None
    nin = len(sc.get("inputs", []))
    for i, e in enumerate(r["net"]["edges"]):
        hidden = sc["kind"] == "buffer" and i == 2
        pipe = (sc["kind"] in ("faucet",) and i == 0) or (sc["kind"] == "drain" and i == 1)
        chan = e["dst"] == 0 and e["src"] != 0 and not pipe
        if sc["kind"] == "launch" and chan:
            # child pipes follow the channels
            chan = i < nin + len(sc.get("outputs", []))
        if chan and not hidden and not (0 <= e["cap"] <= BOUND):
            return "output channel %d has capacity %s" % (i + 1, e["cap"])
    return None


# ---------------------------------------------------------------- scripts

def fresh():
    n = [0]

    def f():
        n[0] += 1
        return n[0]
    return f


def rand_script(rng, nin, nout, outs, length, weights, settle_every=3, inputs_at=1, closeall=True, ctl=False):
    """A random script over edges 1..nin (inputs) and nin+1.. (outputs)."""
    m = fresh()
    s = []
    opn = set(range(1, nin + 1))
    alive = set(range(nin + 1, nin + nout + 1))
    ops = list(weights)
    for _ in range(length):
        k = rng.choices(ops, [weights[o] for o in ops])[0]
        if k == "send" and opn:
            e = rng.choice(sorted(opn))
            for _ in range(rng.choice([1, 1, 2, 3])):
                s.append(["send", e, m()])
        elif k == "burst" and opn:
            for e in sorted(opn):
                for _ in range(rng.choice([1, 2, 3])):
                    s.append(["send", e, m()])
        elif k == "close" and opn:
            e = rng.choice(sorted(opn))
            opn.discard(e)
            s.append(["close", e])
        elif k == "recv" and alive:
            for _ in range(rng.choice([1, 1, 2, 4])):
                s.append(["recv", rng.choice(sorted(alive))])
        elif k == "drop" and alive:
            e = rng.choice(sorted(alive))
            alive.discard(e)
            s.append(["drop", e])
        elif k in ("pause", "resume") and ctl:
            s.append([k])
        elif k == "step":
            s.append(["step"])
        elif k == "settle":
            s.append(["settle"])
    if closeall:
        s.append(["settle"])
        if ctl:
            s.append(["resume"])
        for e in sorted(opn):
            s.append(["close", e])
        for _ in range(rng.choice([0, 1, 1])):
            s.append(["settle"])
            for e in sorted(alive):
                for _ in range(3):
                    s.append(["recv", e])
        for _ in range(12):
            s.append(["step"])
            for e in sorted(alive):
                s.append(["recv", e])
        s.append(["settle"])
    return s
