"""The same configuration written in many ways."""
import json, os, re

WORDS = {"true", "false", "null", "yes", "no", "on", "off", "y", "n", "~", ""}
PLAIN = re.compile(r"[A-Za-z/][A-Za-z0-9_./ |:\[\]-]*\Z")


def plain(s):
    return (PLAIN.match(s) and s.lower() not in WORDS and ": " not in s and not s.endswith((":", " ")) and "  " not in s)


def scalar(rng, v):
    if v is None:
        return rng.choice(["null", "~"])
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    k = rng.random()
    if plain(v) and k < .5:
        return v
    if k < .75 and v and all(" " <= c <= "~" for c in v):
        return "'" + v.replace("'", "''") + "'"
    return json.dumps(v, ensure_ascii=False)


def flow(rng, v):
    return json.dumps(v, ensure_ascii=False)


def block(rng, v, ind, step, out, first=""):
    pad = " " * ind
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        for n, k in enumerate(ks):
            x = v[k]
            lead = (first if n == 0 and first else pad) + scalar(rng, k) + ":"
            entry(rng, x, ind, step, out, lead)
    else:
        for x in v:
            if isinstance(x, dict) and x and rng.random() < .8:
                block(rng, x, ind + 2, step, out, first=pad + "- ")
            else:
                entry(rng, x, ind, step, out, pad + "-")


def entry(rng, x, ind, step, out, lead):
    if rng.random() < .03:
        out.append(" " * ind + "# a remark")
    if isinstance(x, (dict, list)):
        if not x or rng.random() < .15:
            out.append(lead + " " + flow(rng, x))
            return
        out.append(lead + (" # remark" if rng.random() < .05 else ""))
        block(rng, x, ind + step, step, out)
        return
    if isinstance(x, str) and lead.endswith(":") and rng.random() < .15 and re.fullmatch(r"[!-~][ -~]*[!-~]", x):
        # as a block of its own
        out.append(lead + rng.choice([" |-", " >-"]))
        out.append(" " * (ind + step) + x)
        return
    tail = " # remark" if rng.random() < .05 else ""
    out.append(lead + " " + scalar(rng, x) + tail)


def yaml_text(rng, cfg):
    out = []
    if rng.random() < .3:
        out.append("---")
    if not cfg:
        return "{}\n"
    block(rng, cfg, 0, rng.choice([2, 2, 4, 3]), out)
    nl = "\r\n" if rng.random() < .1 and "\r" not in "".join(out) else "\n"
    return nl.join(out) + rng.choice(["", "\n", "\n\n"]).replace("\n", nl)


def shuffled(rng, v):
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: shuffled(rng, v[k]) for k in ks}
    return [shuffled(rng, x) for x in v] if isinstance(v, list) else v


def present(rng, cfg, stdin_free=True):
    """(text, arguments before the rest, whether it goes to standard input, file name)"""
    if rng.random() < .7:
        text, fmt = yaml_text(rng, cfg), "yaml"
    else:
        text, fmt = json.dumps(shuffled(rng, cfg), ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1, 4])), "json"
        if rng.random() < .5 and "\\u" not in text and "\\/" not in text and "\x7f" not in text:
            fmt = "yaml"
    args = ["--format", fmt] if fmt == "json" or rng.random() < .5 else []
    # the ending of the name says nothing
    name = rng.choice(["c.json", "c.yaml", "config", "a b.yml"])
    if stdin_free and rng.random() < .4:
        return text, rng.choice([[], ["--config", "-"]]) + args, True, name
    return text, rng.choice([["--config", name] + args, args + ["--config=" + name]]), False, name
