"""Records judged by TLC: the specification reads them and prints a verdict for each."""
from core import *

SPECLINE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def judge(chk, module, records, name, cfg="SPECIFICATION Spec\nCONSTRAINT Judge\nCHECK_DEADLOCK FALSE\n", procs=NPROC, timeout=500, heap="2g",
          tag="JUDGE", workers=1):
    """{sid: [values after sid]}; every record must be judged."""
    chk.enough()
    if not records:
        return {}

    def run(batch):
        with Scratch() as d:
            f = os.path.join(d, "t.ndjson")
            with open(f, "w") as fh:
                for r in batch:
                    fh.write(json.dumps(r) + "\n")
            return batch, tlc(module, cfg, env={"TRACEFILE": f}, workers=workers, timeout=timeout, heap=heap)

    res = {}
    n = max(1, min(procs, (len(records) + 39) // 40))
    for batch, r in parallel(run, shards(records, n), n):
        chk.states += r["distinct"]
        chk.transitions += r["states"]
        t = tuples(r["out"], tag)
        got = {x[0].strip('"'): [y.strip('"') for y in x[1:]] for x in t}
        if r["rc"] != 0 or any(str(b["sid"]) not in got for b in batch):
            missing = [b["sid"] for b in batch if str(b["sid"]) not in got][:3]
            raise ToolError("%s: TLC failed (rc %s, missing %s)\n%s" % (module, r["rc"], missing, r["out"][-4000:]))
        res.update(got)
    chk.traces += len(records)
    chk.part(name, judged=len(records))
    return res


def pa2(args, cwd, stdin=b"", env=None, timeout=60):
    """Run pa2 and return (exit code or 'timeout', stdout, stderr)."""
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": cwd, "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0"}
    e.update(env or {})
    try:
        r = subprocess.run([PA2] + args, cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=patience(timeout))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as t:
        hung()
        return "timeout", t.stdout or b"", t.stderr or b""


def cli_config(cfg, args, mode="config", fmt="json"):
    """pa2 <mode> --config <cfg> args..., in a directory of its own."""
    with Scratch() as d:
        with open(os.path.join(d, "c.json"), "w") as f:
            f.write(cfg if isinstance(cfg, str) else json.dumps(cfg))
        return pa2([mode, "--config", "c.json", "--format", fmt] + args, d)


def tlastr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def tlaset(xs):
    return "{" + ", ".join(tlastr(x) for x in xs) + "}"
