"""What each check runs."""
import gen
from core import *
from comp import comp_check
from cfgchecks import *
from flow import endless, consumer_gone
from runs import *
import net as wholenets

NETCFG = open(os.path.join(SPEC, "NetMC.cfg")).read()


def net(chk, name, msgs, drops=True, ctl=0, live=False, expect=None, heap="4g"):
    """Explore a class of small networks completely."""
    s = (NETCFG.replace('"relay"', '"%s"' % name).replace("MaxMsg = 2", "MaxMsg = %d" % msgs)
         .replace("Drops = TRUE", "Drops = %s" % ("TRUE" if drops else "FALSE")).replace("MaxCtl = 2", "MaxCtl = %d" % ctl))
    if live:
        s = s.replace("SPECIFICATION Spec", "SPECIFICATION LiveSpec") + "\nPROPERTIES AllEnd\n"
    return chk.mc("NetMC", s, "%s/%d%s%s" % (name, msgs, "d" if drops else "", "L" if live else ""), expect_violation=expect, heap=heap)


def comps(chk, name, scenarios):
    for n, sc in enumerate(scenarios):
        if sc.get("spy"):
            # whoever listens to the spy may be slow
            sc["spycap"] = (0, 1, 3, 1)[n % 4]
    return comp_check(chk, scenarios, name)


def randoms(chk, kind, count, **kw):
    comps(chk, "random " + kind, [gen.one(chk.rng, kind, **kw) for _ in range(count)])


def nets(chk, name, count, f, **kw):
    wholenets.nets(chk, [f(chk.rng, **kw) for _ in range(count)], name)


def flows(chk, name, count, f):
    execute(chk, [f(chk.rng) for _ in range(count)], name)


def c01(chk):
    net(chk, "relay", chk.n(3, 4))
    net(chk, "buffer", chk.n(3, 4))
    net(chk, "chain", chk.n(1, 2))
    net(chk, "diamond", chk.n(2, 3), drops=False)
    comps(chk, "speeds", gen.relay_speeds())
    for k in ("junction", "regulator", "buffer", "faucet", "drain", "launch"):
        randoms(chk, k, chk.n(30, 600), drops=False)
    flows(chk, "whole runs", chk.n(250, 4000), lambda r: healthy(r, pols="T", pad=r.choice([(0,), (0, 1, 254, 255, 256), (70000,)])))
    flows(chk, "prompt", chk.n(100, 1500), prompt)
    nets(chk, "networks", chk.n(40, 1200), wholenets.general)


def c03(chk):
    net(chk, "junction2", 1)
    net(chk, "junction2", chk.n(1, 2), drops=False)
    comps(chk, "copies", gen.junction_copies())
    randoms(chk, "junction", chk.n(100, 1500))
    flows(chk, "tangled", chk.n(150, 3000), tangled)
    flows(chk, "junctions", chk.n(100, 3000), lambda r: healthy(r, size=r.choice([3, 5, 8]), types=["faucet", "junction", "junction", "launch"]))
    nets(chk, "networks of junctions", chk.n(40, 1200), wholenets.general, types=["junction", "junction", "junction", "launch"])


def c04(chk):
    net(chk, "junction3", chk.n(1, 2), drops=False)
    net(chk, "junction2", 2, drops=False)
    comps(chk, "priorities", gen.junction_prios())
    w = dict(gen.W, drop=0, burst=4, close=.3, step=6)
    for pr in ([0], [0, 1], [-1, 0, 3], [2, 2, 7]):
        randoms(chk, "junction", chk.n(30, 500), drops=False, prios=pr, weights=w, nin=3, nout=1)


def c05(chk):
    net(chk, "junction2", 2, drops=False)
    net(chk, "junction2", 1, drops=False, live=True)
    comps(chk, "ends", gen.junction_ends())
    randoms(chk, "junction", chk.n(80, 1000), drops=False, weights=dict(gen.W, close=2, drop=0))
    flows(chk, "tangled", chk.n(100, 2000), tangled)
    nets(chk, "networks of junctions", chk.n(30, 600), wholenets.general, types=["junction", "junction", "buffer"])


def c06(chk):
    net(chk, "buffer", chk.n(3, 5))
    net(chk, "buffer", 2, live=True)
    comps(chk, "buffers", gen.buffers(chk.rng, chk.n(100, 1500)))
    stalls(chk, chk.n(12, 150), "unbounded")
    stalls(chk, chk.n(2, 8), "unbounded", lines=100000, size=10, kinds=["buffer"])
    flows(chk, "buffers in runs", chk.n(100, 2000), lambda r: healthy(r, size=r.choice([4, 7]), types=["faucet", "buffer", "buffer", "launch", "regulator"]))
    nets(chk, "networks with buffers", chk.n(40, 800), wholenets.general, types=["buffer", "buffer", "junction"])


def c07(chk):
    net(chk, "regulator", chk.n(3, 5), ctl=chk.n(3, 5))
    net(chk, "regulator", 2, ctl=2, live=True)
    comps(chk, "pauses", gen.regulator_pauses(chk.rng, chk.n(150, 2000)))
    nets(chk, "watermarks", chk.n(32, 400), wholenets.watermarks)


MON = ["faucet", "buffer", "buffer", "regulator", "regulator", "launch"]


def c08(chk):
    net(chk, "regulator", 3, ctl=chk.n(3, 5))
    stalls(chk, chk.n(48, 500), "watched")
    flows(chk, "monitored", chk.n(150, 3000), lambda r: healthy(r, size=r.choice([4, 6, 8]), types=MON, lines=[3, 12, 40, 120]))
    flows(chk, "spoiled with monitors", chk.n(100, 3000), lambda r: spoiled(r, size=r.choice([4, 6, 8]), types=MON + ["junction"], lines=[0, 3, 12, 40]))
    nets(chk, "watermarks", chk.n(80, 1500), wholenets.watermarks)
    nets(chk, "networks with monitors", chk.n(30, 600), wholenets.general, types=["buffer", "buffer", "regulator", "junction"])


def c09(chk):
    net(chk, "relay", chk.n(3, 4))
    net(chk, "junction2", 1)
    comps(chk, "stalls", gen.stalls())
    for k in ("junction", "regulator", "faucet", "launch"):
        randoms(chk, k, chk.n(25, 300), drops=False, weights=dict(gen.W, recv=1, drop=0, close=.1))
    stalls(chk, chk.n(32, 400), "bounded")
    nets(chk, "networks", chk.n(40, 800), wholenets.general, types=["junction", "regulator", "launch"])


def c10(chk):
    net(chk, "junction2", 1)
    net(chk, "chain", chk.n(1, 2))
    net(chk, "launch", 1, drops=chk.thorough)
    system(chk, "line")
    if chk.thorough:
        system(chk, "split")
        system(chk, "shared", pols='{"terminate", "finish"}')
    comps(chk, "copies", gen.junction_copies())
    comps(chk, "policies", gen.policies(chk.rng, chk.n(120, 1500)))
    flows(chk, "spoiled", chk.n(120, 4000), lambda r: spoiled(r, pols="TFC"))
    flows(chk, "gone", chk.n(60, 1000), lambda r: consumer_gone(r, r.choice(["terminate", "finish", "consume"]), r.choice([None, "junction", "buffer", "regulator"]), r.random() < .6))
    flows(chk, "endless", chk.n(40, 600), lambda r: endless(r, some(r, r.choice([0, 1, 2]), MIDS)))


def c11(chk):
    system(chk, "merge")
    if chk.thorough:
        for n in ("line", "split"):
            system(chk, n)
        for n in ("program", "streams", "diamond", "quitter"):
            system(chk, n, pols='{"terminate"}')
        for n in ("program", "streams", "both", "diamond", "quitter", "shared"):
            system(chk, n, simulate=1000)
    flows(chk, "healthy", chk.n(250, 5000), healthy)
    flows(chk, "monitored", chk.n(150, 3000), lambda r: healthy(r, size=r.choice([4, 6, 8]), types=MON, lines=[0, 3, 12, 40]))
    flows(chk, "spoiled", chk.n(300, 6000), spoiled)
    flows(chk, "spoiled with monitors", chk.n(150, 3000), lambda r: spoiled(r, size=r.choice([4, 6, 8]), types=["faucet", "buffer", "regulator", "launch", "junction"], lines=[0, 3, 12, 40]))
    flows(chk, "endless", chk.n(40, 600), lambda r: endless(r, some(r, r.choice([0, 1, 2]), MIDS)))
    flows(chk, "gone", chk.n(60, 600), lambda r: consumer_gone(r, r.choice(["terminate", "finish"]), r.choice([None, "junction", "buffer", "regulator"]), r.random() < .6))


def c12(chk):
    net(chk, "launch", 1, drops=chk.thorough)
    comps(chk, "launches", [gen.launch(chk.rng, ports=chk.rng.choice([("exit",), ("out", "exit"), ("err", "exit"), ("out", "err", "exit")])) for _ in range(chk.n(150, 2000))])
    ends = [("exit", i) for i in range(256)] + [("kill", s) for s in (1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 31)]
    chk.rng.shuffle(ends)
    execute(chk, [exits(chk.rng, ends[i:i + 4]) for i in range(0, len(ends), 4)] * chk.n(1, 6), "exit codes", NPROC * 3)
    execute(chk, [unwatched(chk.rng) for _ in range(chk.n(100, 1500))], "waiting", NPROC * 3)


def c13(chk):
    if chk.thorough:
        system(chk, "streams", pols='{"terminate"}')
    net(chk, "launch", 1, drops=False)
    ps = [(), ("out",), ("err",), ("exit",), ("out", "err"), ("out", "exit"), ("err", "exit"), ("out", "err", "exit")]
    comps(chk, "ports", [gen.launch(chk.rng, drops=False, ports=p, has_in=h, spy=s) for p in ps for h in (True, False) if h or p for s in (True, False) for _ in range(chk.n(3, 30))])
    flows(chk, "streams", chk.n(150, 2500), streams)
    flows(chk, "programs", chk.n(100, 2000), lambda r: healthy(r, types=["launch", "launch", "launch", "faucet", "junction"]))


def c18(chk):
    net(chk, "loopbuf", chk.n(2, 3), drops=False)
    net(chk, "loopnobuf", 3, drops=False, expect="NoStuck")
    net(chk, "regulator", 3, ctl=3)
    loops(chk, chk.n(250, 4000))
    floods(chk, chk.n(16, 100), 12000)
    floods(chk, chk.n(3, 12), 100000)
    flows(chk, "monitored", chk.n(100, 2000), lambda r: healthy(r, size=r.choice([4, 6, 8]), types=MON, lines=[3, 12, 40, 120]))
    nets(chk, "loops", chk.n(80, 1500), wholenets.loop)


def c19(chk):
    system(chk, "line")
    flows(chk, "spoiled", chk.n(300, 6000), spoiled)
    flows(chk, "bindings", chk.n(200, 3000), bindings)
    flows(chk, "healthy", chk.n(150, 3000), lambda r: healthy(r, pols="TFC"))
    flows(chk, "tangled", chk.n(60, 1000), tangled)
    refusals(chk, chk.n(80, 800))


def c20(chk):
    for k in ("relay", "junction2"):
        net(chk, k, chk.n(2, 3), drops=False)
    for k in ("junction", "regulator", "buffer", "faucet", "launch"):
        randoms(chk, k, chk.n(60, 900), drops=False, spy=True)
    for k in ("junction", "regulator", "faucet"):
        randoms(chk, k, chk.n(20, 300), drops=False, spy=True, weights=dict(gen.W, recv=1, drop=0, close=.1))
    nets(chk, "networks", chk.n(60, 1500), wholenets.general)
    nets(chk, "loops", chk.n(40, 600), wholenets.loop)


def c22(chk):
    flows(chk, "bindings", chk.n(400, 6000), bindings)
    flows(chk, "healthy", chk.n(80, 2000), lambda r: healthy(r, pad=r.choice([(0, 1, 254, 255, 256), (70000,)])))
    flows(chk, "spoiled", chk.n(80, 2000), lambda r: spoiled(r, types=["faucet", "faucet", "buffer", "junction"]))


def c23(chk):
    launches(chk, chk.n(250, 3000))
    comps(chk, "ends", [gen.launch(chk.rng, drops=False, has_in=True, kill=0) for _ in range(chk.n(60, 800))])
    flows(chk, "prompt", chk.n(120, 1500), prompt)
    flows(chk, "programs", chk.n(100, 2000), lambda r: healthy(r, types=["launch", "launch", "launch", "faucet", "junction"]))


def anyhow(f):
    f.anyhow = True
    return f


def c24(chk):
    presented(chk, chk.n(400, 6000))
    flows(chk, "runs", chk.n(150, 3000), lambda r: anyhow(healthy(r)))
    flows(chk, "failing runs", chk.n(60, 1500), lambda r: anyhow(spoiled(r)))
    flows(chk, "bindings", chk.n(60, 1000), lambda r: anyhow(bindings(r)))


CHECKS = {k[1:].upper() and k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r"c\d\d", k)}

NETNOTE = ("TLC explores the design exhaustively for the network classes named in the evidence (1-4 components, 1-4 messages per input, every "
           "interleaving); real components, driven poll by poll from outside, are recorded and TLC decides whether each execution is a behaviour of "
           "the specification. Trusted: the harness's recording, async-channel, and TLC. Not exhaustive over inputs of the real code.")
NETTECH = "TLA+ specification (spec/Net.tla) model checked with TLC; traces of the real components validated against it with TLC"
CFGNOTE = ("The rule is an explicit TLA+ specification; TLC generates inputs from it and judges what the real code did with each of them. "
           "Exhaustive within the menus named in the evidence, sampled with a fixed seed beyond. Trusted: the recording in Python and TLC.")
CFGTECH = "TLA+ specification %s, inputs generated from it or at random are run through the real code and the results judged by TLC"
NOTES = {k: (NETTECH, NETNOTE) for k in CHECKS}
RUNTECH = "TLA+ specification of outcomes (spec/Flow.tla), derived from the specification of components by model checking compiled configurations (spec/SysMC.tla) with TLC; whole runs of pa2 and traces of components judged by TLC"
RUNNOTE = ("Random configurations with a fixed seed, run by the real program with real programs and files; TLC decides from the specification whether what was seen is "
           "allowed. Outcomes are bounded from above and below where schedules matter. Trusted: the recording in Python, the test program, TLC. Not exhaustive.")
for k in ("C01", "C03", "C05", "C06", "C07", "C08", "C09", "C20"):
    NOTES[k] = (NETTECH + "; logs of whole networks validated against spec/NetLog.tla", NETNOTE)
for k in ("C11", "C12", "C13", "C18", "C19", "C22"):
    NOTES[k] = (RUNTECH, RUNNOTE)
NOTES["C23"] = (CFGTECH % "spec/Launched.tla (and spec/Flow.tla, spec/Net.tla)", RUNNOTE)
NOTES["C18"] = ("TLA+ models of loops with and without a buffer (spec/NetMC.tla) checked with TLC; loops run by pa2 judged by spec/Loop.tla and spec/Flow.tla; logs of looping networks validated against spec/NetLog.tla", RUNNOTE)
NOTES["C24"] = (CFGTECH % "spec/ConfigEdit.tla and spec/Flow.tla", CFGNOTE)
NOTES["C02"] = (CFGTECH % "spec/Framing.tla", CFGNOTE)
for k, m in dict(C15="spec/Join.tla", C16="spec/Lint.tla", C17="spec/ConfigEdit.tla", C14="spec/Manip.tla", C21="spec/Graph.tla").items():
    NOTES[k] = (CFGTECH % m, CFGNOTE)
