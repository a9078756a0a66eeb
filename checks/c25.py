"""C25: the convert options expand, propagate and drop exactly what they say."""
import itertools
import sys

from kit import dev as devs
from kit import expand, model, rich, runner
from kit.model import diff, norm
from kit.runner import Violation

PID = "C25"
LEVEL = "exploration"
RULE = ("a case counts if at least one option had something to do on the device and the result was compared with the "
        "independently computed one; two cases are the same if they use the same options, formats and devices of the same "
        "structure")
CASES = {"quick": 1800, "thorough": 60000}
MUST_SEE = ("expand", "expand-properties", "ignore-enums", "combined", "chained", "input:json", "input:yaml",
            "had:array", "had:cluster", "had:nested_cluster", "had:derived_peripheral", "had:derived_register",
            "had:derived_field", "had:derived_enum", "had:derived_cluster", "had:far", "had:enum", "had:wc",
            "had:missing_property", "had:peripheral_array", "had:array_in_array_cluster", "unresolved")
COMBOS = [c for n in (1, 2, 3) for c in itertools.combinations(("expand", "expand-properties", "ignore-enums"), n)]


def want(dev, opts, fmt):
    d = dev
    if "ignore-enums" in opts and fmt == "xml":
        d = expand.ignore_enums(d)
    if "expand-properties" in opts:
        d = expand.expand_properties(d)
    if "expand" in opts:
        d = expand.expand(d)
    return d


def look(dev):
    s = set()

    def regs(cs, depth, arr, props):
        for c in cs:
            if "dim" in c:
                s.add("array")
                if arr:
                    s.add("array_in_array_cluster")
            if "derivedFrom" in c:
                s.add("derived_" + c["k"])
                if "." in c["derivedFrom"]:
                    s.add("far")
            if c["k"] == "cluster":
                s.add("cluster" if depth == 0 else "nested_cluster")
                regs(c["children"], depth + 1, arr or "dim" in c, props | set(c))
            else:
                if (set(model.PROPS) & props) - set(c):
                    s.add("missing_property")
                if "wc" in c:
                    s.add("register_wc")
                for f in c["fields"]:
                    if "derivedFrom" in f:
                        s.add("derived_field")
                    if "dim" in f:
                        s.add("array")
                    if f["enums"]:
                        s.add("enum")
                    if "wc" in f:
                        s.add("wc")
                    if any("derivedFrom" in e for e in f["enums"]):
                        s.add("derived_enum")
    for p in dev["peripherals"]:
        if "derivedFrom" in p:
            s.add("derived_peripheral")
        if "dim" in p:
            s.add("peripheral_array")
        regs(p["children"], 0, False, set(dev) | set(p))
    return s


NEEDS = {"expand": {"array", "cluster", "derived_peripheral", "derived_register", "derived_field", "derived_enum",
                    "derived_cluster", "peripheral_array"},
         "expand-properties": {"missing_property"}, "ignore-enums": {"enum", "wc"}}


def run(ctx, src, dst, opts, rng=None):
    args = ["convert"] + ["--" + o for o in (rng.sample(opts, len(opts)) if rng else opts)] + [src, dst]
    if rng and rng.random() < 0.5:
        args = ["convert", src, dst] + ["--" + o for o in opts]
    rc, so, er = ctx.run(args)
    return rc, ["svdtools"] + args, er


def load(ctx, dst, cmd):
    raw = ctx.read(dst)
    if raw is None:
        raise Violation("exit status 0 without output", cmd=cmd)
    if not dst.endswith("svd"):
        rc, c2, er = run(ctx, dst, "final.svd", [])
        if rc != 0:
            raise Violation("the output cannot be read again: %s" % er.decode("utf8", "replace")[-500:], cmd=cmd)
        raw = ctx.read("final.svd")
    try:
        return model.read_device(raw.decode("utf8"))
    except (model.ModelError, UnicodeDecodeError) as e:
        raise Violation("unreadable output: %s" % e, cmd=cmd)


def case(ctx, rng, i, out):
    if i % 20 == 3:
        return dangling(ctx, rng, i, out)
    d = devs.make(rng, plain=True, unique=True, tags=out.tags)
    if rng.random() < 0.25 and rich.crossed(d, rng):
        out.tags["crossed"] += 1
    had = look(d)
    fmt = rng.choice(("xml", "xml", "xml", "yaml", "json"))
    opts = list(rng.choice(COMBOS))
    ctx.write("in.svd", model.write_device(d))
    src = "in.svd"
    if fmt != "xml":
        src = "in." + fmt
        rc, cmd, er = run(ctx, "in.svd", src, [])
        if rc != 0:
            raise Violation("plain conversion failed: %s" % er.decode("utf8", "replace")[-500:], cmd=cmd)
    dst = "out." + rng.choice(("svd", "svd", "yaml", "json"))
    try:
        exp = want(d, opts, fmt)
    except expand.Unresolved as e:
        raise runner.Inconclusive("unresolved %s" % e)
    rc, cmd, er = run(ctx, src, dst, opts, rng)
    if rc != 0:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-800:]), cmd=cmd)
    got = load(ctx, dst, cmd)
    x = diff(norm(exp), norm(got))
    if x:
        raise Violation("result of %s differs:\n  %s" % (" ".join(opts), "\n  ".join(x)), cmd=cmd)
    if "expand" in opts:
        left(got, cmd)
    for o in opts:
        out.tags[o] += 1
    for h in had:
        out.tags["had:" + h] += 1
    out.tags["input:" + fmt] += 1
    if len(opts) > 1:
        out.tags["combined"] += 1
        if rng.random() < 0.4:      # one option after the other
            cur = src
            for n, o in enumerate([o for o in ("ignore-enums", "expand-properties", "expand") if o in opts]):
                nxt = "step%d.svd" % n
                rc, c2, er = run(ctx, cur, nxt, [o])
                if rc != 0:
                    raise Violation("step %s refused: %s" % (o, er.decode("utf8", "replace")[-500:]), cmd=c2)
                cur = nxt
            if diff(norm(model.read_device(ctx.read(cur).decode())), norm(got)):
                raise Violation("options together differ from one after the other: %s" % diff(
                    norm(model.read_device(ctx.read(cur).decode())), norm(got)), cmd=cmd)
            out.tags["chained"] += 1
    out.nontrivial = any(NEEDS[o] & had for o in opts)
    out.key = (tuple(opts), fmt, dst, devs.facts(d))
    out.sample = {"options": opts, "device": model.write_device(d)[:600]}


def left(dev, cmd):
    """Nothing is left to expand."""
    def f(n):
        if isinstance(n, dict):
            if "dim" in n or "derivedFrom" in n or n.get("k") == "cluster":
                raise Violation("%s %s is not expanded" % (n.get("k"), n.get("name")), cmd=cmd)
            for v in n.values():
                f(v)
        elif isinstance(n, list):
            for v in n:
                f(v)
    f(dev["peripherals"])


def dangling(ctx, rng, i, out):
    """References to nothing are refused when they have to be resolved, and kept otherwise."""
    d = devs.make(rng, size=1, plain=True, unique=True, enrich=False)
    places = []

    def walk(cs):
        for c in cs:
            places.append(c)
            if c["k"] == "cluster":
                walk(c["children"])
            else:
                places.extend(c["fields"])
    for p in d["peripherals"]:
        places.append(p)
        walk(p["children"])
    # only elements nothing else is derived from: change of references elsewhere stays resolvable
    n = rng.choice(places)
    n["derivedFrom"] = "NOWHERE_%d" % i
    ctx.write("in.svd", model.write_device(d))
    rc, cmd, er = run(ctx, "in.svd", "out.svd", ["expand"])
    if rc == 0:
        raise Violation("a dangling reference of %s %s was resolved" % (n["k"], n["name"]), cmd=cmd)
    if ctx.read("out.svd") is not None:
        raise Violation("refused but left an output", cmd=cmd)
    rc, cmd, er = run(ctx, "in.svd", "out.svd", ["expand-properties"])
    if rc != 0:
        raise Violation("refused although no reference has to be resolved: %s" % er.decode("utf8", "replace")[-500:], cmd=cmd)
    x = diff(norm(expand.expand_properties(d)), norm(load(ctx, "out.svd", cmd)))
    if x:
        raise Violation("result differs:\n  %s" % "\n  ".join(x), cmd=cmd)
    out.tags["unresolved"] += 1
    out.nontrivial = True
    out.key = ("dangling", n["k"], devs.facts(d))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
