"""C36: what patch writes can be read again, and says the same."""
import json
import re
import sys

from kit import dev as devs
from kit import gen, model, patchdiff, ref, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

from . import c31

PID = "C36"
LEVEL = "exploration"
RULE = ("a case counts if a patch was applied and its output read again by the tool and by an independent reader, or if "
        "a patch with an unreadable result was run; two cases are the same if their patches have the same structure "
        "(keys and nesting)")
CASES = {"quick": 2200, "thorough": 70000}
MUST_SEE = ("read_again", "format_config", "enriched", "unreadable:array", "unreadable:number", "unreadable:no", "refused",
            "same_bytes", "texts:edges", "unreadable:text")
ASSUMPTIONS = ["empty texts given to required elements other than names are outside of the property"]


def hurt(rng, pr):
    """A rule that takes the name from something, or gives an array one without a place for the index."""
    y = pr.y
    ps = [p for p in pr.cur["peripherals"] if "derivedFrom" not in p and p["children"] and p["name"] not in y and "%" not in p["name"]]
    if not ps:
        return None
    p = rng.choice(ps)
    b = {}
    k = rng.choice(("name", "strip", "rename", "dims", "index", "copy", "cluster", "field", "irq", "value"))
    rs = [c for c in p["children"] if c["k"] == "register" and "derivedFrom" not in c]
    ar = [r for r in p["children"] if "dim" in r]
    fs = [(r, f) for r in rs for f in r["fields"] if "derivedFrom" not in f]
    if k == "name" and rs:
        b["_modify"] = {gen.esc(rng.choice(p["children"])["name"]): {"name": ""}}
    elif k == "strip" and rs:
        b[rng.choice(["_strip", "_strip_end"])] = gen.esc(rng.choice(rs)["name"])
    elif k == "rename" and ar:
        b["_modify"] = {gen.esc(rng.choice(ar)["name"]): {"name": "PLAIN", "description": "x"}}
    elif k == "dims" and rs:
        b["_modify"] = {gen.esc(rng.choice(rs)["name"]): {"dim": 2, "dimIncrement": 4}}
    elif k == "index" and ar:
        r = rng.choice(ar)
        n = r["dim"]["dim"]
        b["_modify"] = {gen.esc(r["name"]): rng.choice([{"dim": n + 1}, {"dim": max(1, n - 1)}, {
            "dimIndex": [str(i) for i in range(n + rng.choice([0, 1, 2]))]}])}
    elif k == "copy" and rs:
        b["_copy"] = {"COPIED": {"_from": rng.choice(rs)["name"], "addressOffset": 0x800}}
    elif k == "cluster" and ar:
        b["_cluster"] = {"GRP": {gen.esc(rng.choice(ar)["name"]): {"name": "INNER"}}}
    elif k == "field" and fs:
        r, f = rng.choice(fs)
        z = rng.choice([{"_modify": {gen.esc(f["name"]): {"name": ""}}}, {"_strip": gen.esc(f["name"])},
                        {"_modify": {gen.esc(f["name"]): {"dim": 2, "dimIncrement": f["width"]}}},
                        {"_modify": {gen.esc(f["name"]): {"name": "PLAIN_F"}}}])
        b[gen.esc(r["name"])] = z
    elif k == "irq" and p["interrupts"]:
        b["_modify"] = {"_interrupts": {p["interrupts"][0]["name"]: {"name": ""}}}
    elif k == "value" and fs:
        r, f = rng.choice(fs)
        b[gen.esc(r["name"])] = {gen.esc(f["name"]): {"": [0, "nothing"], "B": [1, "b"]}}
    else:
        return None
    y[p["name"]] = b
    return "try:" + k


EDGES = (" %s", "%s  ", "%s\n", "\n%s\n", "\t%s", "%s\r\nmore", "%s\rmore", "a\n%s", "a\t%s", "\n\n%s\n  second\n", "%s ]]> &lt;", "<b>%s</b>")
BARRED = ("%s\x01", "\x1b%s", "%s\x07x", "\x00%s", "%s\x0b", "%s\x0c")


def odd_texts(rng, y):
    """Gives some descriptions white space that reading XML drops, or (rarely) characters XML cannot hold."""
    spots = []

    def walk(v):
        if isinstance(v, dict):
            for k, x in v.items():
                if k == "description" and type(x) is str and x and x != "_original" and "%s" not in x:
                    spots.append(v)
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(y)
    if not spots:
        return None
    barred = rng.random() < 0.2
    for v in rng.sample(spots, min(len(spots), 2)):
        v["description"] = rng.choice(BARRED if barred else EDGES).replace("%s", v["description"])
    return "barred" if barred else "edges"


def plain(raw):
    """Without what reading XML normalises: white space around texts, carriage returns."""
    t = raw.decode("utf8").replace("\r\n", "\n").replace("\r", "\n")
    return re.sub(r"\s*(<|$)", r"\1", re.sub(r">\s*", ">", t))


def stripped(v):
    if isinstance(v, str):
        return v.replace("\r\n", "\n").replace("\r", "\n").strip()
    if isinstance(v, dict):
        return {k: stripped(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(stripped(x) for x in v)
    return v


def case(ctx, rng, i, out):
    mode = i % 4
    rich = mode == 3
    d = devs.make(rng, size=1, enrich=True, unique=rng.random() < 0.5) if rich else None
    pr = patchdiff.make(rng, ALL, rng.randint(0, 2) if mode in (0, 1) else rng.randint(1, 5), refuse=0, dev=d)
    hurt_by = None
    if mode < 2:
        hurt_by = next((h for h in (hurt(rng, pr) for _ in range(8)) if h), None)
        try:
            ref.apply(pr.dev, pr.y, pr.enum_derive, pr.loader)
        except ref.Reject as e:
            if str(e).startswith("unreadable: "):
                hurt_by = str(e).split()[1]
        except ref.Unspecified:
            pass
    texts = odd_texts(rng, pr.y) if rng.random() < 0.4 else None
    args = patchdiff.write_case(ctx, pr)
    opt = []
    if rng.random() < 0.3:
        c = {k: v for k, v in c31.config(rng).items() if not k.endswith("_name")}
        ctx.write("fmt.json", json.dumps(c))
        opt = ["--format-config", "fmt.json"]
    rc, so, er = ctx.run(args + opt)
    cmd = ["svdtools"] + args + opt
    raw = ctx.read("out.svd")
    out.key, out.nontrivial = (patchdiff.shape(pr.y), len(pr.dev["peripherals"])), True
    out.sample = {"patch": dump(pr.y)[:1200], "status": rc}
    if rc:
        if raw is not None:
            raise Violation("the patch was refused with status %d but left an output file" % rc, cmd=cmd)
        out.tags["refused"] += 1
        if hurt_by:
            out.tags["unreadable:" + hurt_by] += 1
        elif texts == "barred":
            out.tags["unreadable:text"] += 1
        return
    try:
        got = model.read_device(raw.decode("utf8"))
        ref.readable(got)
    except (model.ModelError, UnicodeDecodeError, ref.Reject) as e:
        raise Violation("applied, but no reader can accept the output: %s" % e, cmd=cmd)
    if rich:
        out.tags["enriched"] += 1
    if opt:
        out.tags["format_config"] += 1
    ctx.write("again.yaml", dump({"_svd": "out.svd"}))
    args = ["patch", "again.yaml", "out2.svd"] + opt
    rc, so, er = ctx.run(args)
    if rc:
        raise Violation("the tool does not read its own output: %s" % er.decode("utf8", "replace")[-800:], cmd=cmd)
    raw2 = ctx.read("out2.svd")
    x = model.diff(model.norm(stripped(got)), model.norm(stripped(model.read_device(raw2.decode("utf8")))))
    if x:
        raise Violation("reading the output again changes the device: %s" % x, cmd=cmd)
    out.tags["read_again"] += 1
    if texts:
        out.tags["texts:" + texts] += 1
        raw, raw2 = plain(raw), plain(raw2)
    if raw2 != raw:
        raise Violation("an empty patch of the output does not reproduce it byte for byte", cmd=cmd)
    out.tags["same_bytes"] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
