"""C38: large devices, patches and file trees are handled as completely as small ones."""
import json
import math
import os
import sys

from kit import dev as devs
from kit import include, model, patchdiff, pyyaml, ref, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

from . import c20, c25, c26, c27, c28

PID = "C38"
LEVEL = "exploration"
RULE = ("a case counts if a workload of at least 64 KiB of input or output, or with at least 100 elements of a kind, was run "
        "and its whole result compared; two cases are the same if they scale the same thing to the same size")
CASES = {"quick": 190, "thorough": 4000}
TIMEOUT = 120
MODES = ("copies", "rules", "rules", "convert", "expand", "mmap", "interrupts", "html", "include", "chain", "deep", "texts")
MUST_SEE = ["mode:" + m for m in set(MODES)] + [
    "over:64K", "over:256K", "over:1M", "rules:modify", "rules:delete", "rules:add", "rules:array", "rules:cluster", "rules:copy",
    "rules:enum", "rules:farray", "rules:derive", "rules:split", "include:deep", "include:wide", "chain:copy", "chain:derive",
    "entries:each", "entries:one"]
ASSUMPTIONS = ["clusters in each other are tried up to 30 levels (the JSON reader stops at 128 levels of nesting, and says so)"]


def many(rng, lo, hi):
    return int(math.exp(rng.uniform(math.log(lo), math.log(hi))))


def base(name="D"):
    return {"k": "device", "name": name, "version": "1.0", "description": "x", "addressUnitBits": 8, "width": 32, "peripherals": []}


def per(name, addr, kids):
    return {"k": "peripheral", "name": name, "baseAddress": addr, "children": kids, "interrupts": [], "addressBlocks": []}


def reg(name, off, fields=()):
    return {"k": "register", "name": name, "description": "register %s" % name, "addressOffset": off, "size": 32, "fields": list(fields)}


def fld(name, off, width):
    return {"k": "field", "name": name, "description": "field %s" % name, "off": off, "width": width, "enums": []}


def weigh(ctx, out, *names):
    n = max([len(ctx.read(x) or b"") for x in names] + [0])
    for k, v in (("64K", 1 << 16), ("256K", 1 << 18), ("1M", 1 << 20)):
        if n > v:
            out.tags["over:" + k] += 1
    return n




class Copies:
    """A device with one peripheral PPQ made into one with many, and so is whatever else mentions PPQ."""

    def __init__(self, n):
        self.n = n

    def device(self, d):
        assert len(d["peripherals"]) == 1
        text = json.dumps(d["peripherals"][0])
        r = model.clone(d)
        r["peripherals"] = []
        for i in range(self.n):
            p = json.loads(text.replace("PPQ", "PPQ%dX" % i))
            p["baseAddress"] = (p["baseAddress"] + 0x10000 * i) % (1 << 40)
            for x in p["interrupts"]:
                x["name"] = "%s_%d" % (x["name"], i)
            r["peripherals"].append(p)
        return r

    def patch(self, y):
        r = {}
        for i in range(self.n):
            r.update(json.loads(json.dumps(y).replace("PPQ", "PPQ%dX" % i)))
        return r


def single(rng, size=1, enrich=False):
    while True:
        d = devs.make(rng, size=size, plain=True, unique=True, enrich=enrich)
        p = next((p for p in d["peripherals"] if p["children"] and "dim" not in p), None)
        if p is None:
            continue
        text = json.dumps(p)
        old = p["name"]
        if sum(text.count(json.dumps(x)[1:-1] + ".") for x in (q["name"] for q in d["peripherals"]) if x != old):
            continue
        q = json.loads(text.replace('"%s.' % old, '"PPQ.'))
        q["name"] = "PPQ"
        q.pop("derivedFrom", None)
        q["interrupts"] = []
        d["peripherals"] = [q]
        return d


def case(ctx, rng, i, out):
    m = MODES[i % len(MODES)]
    k, at = divmod(i, len(MODES))
    n = globals()["do_" + m](ctx, rng, out, k * MODES.count(m) + MODES[:at].count(m))
    out.tags["mode:" + m] += 1
    out.nontrivial = True
    out.key = (m, n)
    out.sample = {"mode": m, "size": str(n)}


def apply(ctx, out, args, want):
    rc, got, er = patchdiff.outcome(ctx, args)
    cmd = ["svdtools"] + args
    if rc:
        raise Violation("the large patch is refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-600:]), cmd=cmd)
    x = model.diff(model.norm(want), model.norm(got))
    if x:
        raise Violation("result of the large patch differs:\n  %s" % "\n  ".join(x), cmd=cmd)
    weigh(ctx, out, "dev.svd", "patch.yaml", "out.svd")


RULES = ("modify", "delete", "add", "array", "cluster", "copy", "enum", "farray", "derive", "split")
INNER = {k: v for k, v in ALL.items() if not k.startswith("dev_") and k not in ("irq", "copy")}


def do_copies(ctx, rng, out, turn):
    """Many peripherals with the same rules each come out as one with these rules does."""
    while True:
        pr = patchdiff.make(rng, INNER, rng.randint(2, 8), refuse=0, dev=single(rng), other=False)
        if pr.cur["peripherals"][0]["name"] == "PPQ" and len(pr.y) == 1:
            break
    v = list(pr.y.values())[0]
    if "PPQ" in json.dumps(v) or turn % 3 == 0:
        if set(pr.y) != {"PPQ"}:
            return do_copies(ctx, rng, out, turn)
        # an entry for each
        c = Copies(many(rng, 12, 50))
        y = c.patch(pr.y)
    else:
        # one entry for all
        c = Copies(many(rng, 30, 250))
        y = {rng.choice(("*", "PPQ*", "PPQ[0-9]*X")): v}
    ctx.write("dev.svd", model.write_device(c.device(pr.dev)))
    ctx.write("patch.yaml", dump(dict([("_svd", "dev.svd")] + list(y.items()))))
    apply(ctx, out, ["patch"] + (["--enum-derive", pr.ed_arg] if pr.ed_arg else []) + ["patch.yaml", "out.svd"], c.device(pr.cur))
    for k in pr.kept:
        out.tags["rule:" + k] += 1
    out.tags["entries:each" if len(y) > 1 else "entries:one"] += 1
    return c.n


def do_rules(ctx, rng, out, turn):
    """One peripheral with many registers, or one register with many things in it."""
    k = RULES[turn % len(RULES)]
    n = many(rng, 300 if k == "array" else 100, 1200)
    d = base()
    regs = [reg("R%d" % i, 4 * i, [fld("F", 0, 4), fld("G", 8, 8)]) for i in range(n)]
    y = {}
    some = rng.sample(range(n), rng.randint(n // 2, n))
    if k in ("modify", "delete") and rng.random() < 0.5:
        # every name is compared with every pattern
        n = many(rng, 64, 150)
        regs, some = regs[:n], [i for i in some if i < n]
    if k == "modify":
        y["_modify"] = {"R%d" % i: {"description": "new %d" % i, "resetValue": i} for i in some} if n <= 150 else {
            "R%d?" % i: {"description": "new %d" % i, "resetValue": i} for i in range(1, 10)}
    elif k == "delete":
        y["_delete"] = ["R%d" % i for i in some] if n <= 150 else ["R*%d" % rng.randint(0, 9), "R1?", "R2??"][:rng.randint(1, 2)]
    elif k == "add":
        y["_add"] = {"A%d" % i: {"description": "added %d" % i, "addressOffset": 4 * n + 4 * i, "size": 32,
                                 "fields": {"X": {"bitOffset": 0, "bitWidth": i % 31 + 1, "description": "x"}}} for i in some}
    elif k == "array":
        for r in regs:
            r["description"] = "a register"
        y["_array"] = {"R*": {}}
    elif k == "cluster":
        regs = []
        for i in range(n):
            regs += [reg("G%dCR" % i, 16 * i), reg("G%dSR" % i, 16 * i + 4)]
        for r in regs:
            r["description"] = "a register"
        y["_cluster"] = {"GRP%s": {"G*CR": {"name": "CR"}, "G*SR": {"name": "SR"}}}
    elif k == "copy":
        n = min(n, 400)
        regs = regs[:n]
        y["_copy"] = {"C%d" % i: {"_from": "R%d" % i, "addressOffset": 4 * n + 4 * i} for i in range(n)}
    elif k == "derive":
        n = min(n, 100)
        regs = regs[:n]
        y["_derive"] = {"R%d" % i: "R0" for i in range(1, n)}
    elif k == "enum":
        w = rng.choice((7, 9, 10, 10))
        regs = [reg("R", 0, [fld("F", 0, w), fld("G", 16, 8)])]
        y["R"] = {"F": {"V%d" % v: [v, "value %d" % v] for v in rng.sample(range(1 << w), rng.randint(1 << w - 1, 1 << w))}}
    elif k == "farray":
        n = rng.choice((32, 64))
        regs = [dict(reg("R", 0, [fld("B%d" % i, i, 1) for i in range(n)]), size=n)]
        for f in regs[0]["fields"]:
            f["description"] = "a bit"
        y["R"] = {"_array": {"B*": {"OFF": [0, "off"], "ON": [1, "on"]}}}
    elif k == "split":
        regs = [reg("R%d" % i, 4 * i, [fld("F", 0, 32)]) for i in range(min(n, 60))]
        y["R*"] = {"_split": {"F": {"name": "F%s"}}}
    rng.random() < 0.3 and k not in ("array", "cluster") and regs.reverse()
    d["peripherals"] = [per("P", 0x40000000, regs)]
    y = {"P": y}
    ctx.write("dev.svd", model.write_device(d))
    ctx.write("patch.yaml", dump(dict(_svd="dev.svd", **y)))
    apply(ctx, out, ["patch", "patch.yaml", "out.svd"], ref.apply(d, y))
    out.tags["rules:" + k] += 1
    return k, n


def large(rng, lo, hi, enrich=True):
    return Copies(many(rng, lo, hi)).device(single(rng, rng.choice((1, 2)), enrich))


def run(ctx, args):
    rc, so, er = ctx.run(args)
    if rc:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-600:]), cmd=["svdtools"] + args)
    return so


def same(exp, raw, what, cmd):
    try:
        got = model.read_device(raw.decode("utf8"))
    except (model.ModelError, UnicodeDecodeError) as e:
        raise Violation("unreadable XML: %s" % e, cmd=cmd)
    x = model.diff(model.norm(exp), model.norm(got))
    if x:
        raise Violation("%s: %s" % (what, "\n  ".join(x)), cmd=cmd)


def do_convert(ctx, rng, out, turn):
    d = large(rng, 20, 300)
    ctx.write("in.svd", model.write_device(d))
    cur = "in.svd"
    for f in rng.choice((("a.json", "b.svd"), ("a.yaml", "b.svd"), ("a.json", "a.yaml", "b.svd"), ("b.svd",), ("a.yaml", "a.json", "b.svd"))):
        args = ["convert", cur, f]
        run(ctx, args)
        cur = f
    same(d, ctx.read("b.svd"), "the content of the large device changed", ["svdtools"] + args)
    return weigh(ctx, out, "in.svd", "a.json", "a.yaml") // 4096


def do_expand(ctx, rng, out, turn):
    """Arrays with many elements written out."""
    n = many(rng, 100, 1200)
    f = [fld("F%s", 0, 2)]
    f[0]["dim"] = {"dim": 8, "inc": 4}
    r = dict(reg("R%s", 0, f), dim={"dim": n, "inc": 4})
    inner = dict(reg("X[%s]", 0), dim={"dim": 3, "inc": 4})
    c = {"k": "cluster", "name": "C[%s]", "addressOffset": 4 * n, "description": "many", "dim": {"dim": max(2, n // 10), "inc": 16},
         "children": [inner, reg("Y", 12, [fld("A", 0, 1)])]}
    d = base()
    d["peripherals"] = [per("P", 0x40000000, [r, c])] + [dict(per("Q%d" % i, 0x50000000 + 0x10000 * i, []), derivedFrom="P") for i in range(
        rng.choice((0, 1, 2)))]
    ctx.write("in.svd", model.write_device(d))
    args = ["convert", "--expand", "in.svd", "out.svd"]
    run(ctx, args)
    same(c25.want(d, ["expand"], "xml"), ctx.read("out.svd"), "expanded device", ["svdtools"] + args)
    weigh(ctx, out, "out.svd")
    return n


def do_mmap(ctx, rng, out, turn):
    while True:
        d = large(rng, 20, 300)
        if not c26.odd(d):
            break
    ctx.write("dev.svd", model.write_device(d))
    exp = c26.listing(d)
    so = run(ctx, ["mmap", "dev.svd"])
    if c26.lines(so) != exp:
        raise Violation("listing: " + c26.differ(exp, c26.lines(so)), cmd=["svdtools", "mmap", "dev.svd"])
    weigh(ctx, out, "dev.svd")
    return len(exp) // 64


def do_interrupts(ctx, rng, out, turn):
    n = many(rng, 150, 3000)
    d = base()
    vals = rng.sample(range(n + rng.choice((0, 0, 5, n, 20000))), n)
    uniq = rng.random() < 0.5
    while vals:
        k = rng.randint(1, 60)
        p = per("P%d" % len(d["peripherals"]), 0x1000 * len(d["peripherals"]), [reg("R", 0)])
        p["interrupts"] = [{"name": "I%d" % v, "value": v, "description": "interrupt %d" % v} for v in vals[:k]]
        if not uniq:
            p["interrupts"].append({"name": "J%d" % len(vals), "value": vals[0] if rng.random() < 0.5 else 0})
        vals = vals[k:]
        d["peripherals"].append(p)
    ctx.write("dev.svd", model.write_device(d))
    groups, gaps = c27.listing(d, uniq)
    args = ["interrupts", "dev.svd"]
    rc, so, er = ctx.run(args)
    c27.judge("svdtools", ["svdtools"] + args, rc, so, er, groups, gaps)
    weigh(ctx, out, "dev.svd")
    return n


def do_html(ctx, rng, out, turn):
    """Pages for a device with many registers, or for many devices."""
    ds = []
    n = rng.choice((1, 1, many(rng, 8, 24)))
    for j in range(n):
        while True:
            d, exp = c28.device(rng, j)
            if all(r["fits"] for p in exp for r in p["regs"]):
                break
        ds.append((d, exp))
    if n == 1:
        d = base("Big")
        k = many(rng, 40, 160)
        d["peripherals"] = [per("P%d" % i, 0x40000000 + 0x1000 * i, [reg("R%d" % j, 4 * j, [
            fld("F%d" % x, 4 * x, rng.choice((1, 4))) for x in range(rng.randint(1, 8))]) for j in range(k)]) for i in range(rng.choice((1, 3)))]
        ds = [(d, c28.contents(d))]
    fs = []
    for j, (d, exp) in enumerate(ds):
        ctx.write("d%d.svd" % j, model.write_device(d))
        fs.append("d%d.svd" % j)
    rc, so, er, cmd = c28.html(ctx, "html", fs)
    if rc:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-600:]), cmd=cmd)
    rows = []
    for d, exp in ds:
        page = ctx.read("html/%s.html" % d["name"])
        if page is None:
            raise Violation("no page for device %s" % d["name"], cmd=cmd)
        try:
            done, total = c28.judge(d["name"], exp, c28.read_page(c28.tree(page, d["name"] + ".html")), out)
        except Violation as v:
            v.cmd = cmd
            raise
        except (IndexError, StopIteration, KeyError, ValueError, AttributeError) as x:
            raise Violation("page %s.html lacks an expected element: %r" % (d["name"], x), cmd=cmd)
        rows.append((d["name"], done, total))
    c28.index(ctx, rows, cmd)
    weigh(ctx, out, *["html/%s.html" % d["name"] for d, _ in ds])
    return n, sum(len(p["regs"]) for _, exp in ds for p in exp) // 16


def do_include(ctx, rng, out, turn):
    """Hundreds of files that include each other."""
    t = include.Tree(ctx.case)
    n = many(rng, 40, 300)
    deep = turn % 2 == 0
    name = lambda i: "f%d.yaml" % i
    for i in range(n):
        kids = [i + 1] if deep else [] if i else list(range(1, n))
        if deep and rng.random() < 0.1:
            kids.append(min(n, i + rng.randint(1, 9)))
        y = {"_include": [name(j) for j in kids if j < n]} if kids else {}
        y["PER%d" % (i % 50)] = {"_modify": {"REG%d" % i: {"description": "from %d" % i}}, "_delete": ["X%d" % i]}
        t.put(name(i), y)
    t.save()
    main = os.path.join(t.top, name(0))
    want, seen = include.merge(t.files, main)
    args = ["expand-patch", name(0), "all.yaml"]
    run(ctx, args)
    docs = pyyaml.read(ctx.read("all.yaml"))
    if isinstance(docs, str) or len(docs) != 1:
        raise Violation("the output is not one YAML document", cmd=["svdtools"] + args)
    got = pyyaml.drop(docs[0], "_path")
    if not pyyaml.same(got, want, False):
        raise Violation("merged differently: " + pyyaml.where(got, want), cmd=["svdtools"] + args)
    args = ["makedeps", name(0), "deps.d"]
    run(ctx, args)
    got = [os.path.realpath(os.path.join(t.top, w)) for w in c20.parse(ctx.read("deps.d"), "deps.d") or ()]
    miss = [p for p in seen if p not in got]
    if miss:
        raise Violation("dependencies lack %d of %d files: %s" % (len(miss), len(seen), miss[:3]), cmd=["svdtools"] + args)
    out.tags["include:deep" if deep else "include:wide"] += 1
    return deep, n


def do_chain(ctx, rng, out, turn):
    """Rules that build on each other many times over."""
    n = many(rng, 30, 130)
    d = base()
    k = ("copy", "derive")[turn % 2]
    d["peripherals"] = [per("P0", 0x40000000, [reg("R", 0, [fld("F", 0, 4)])])]
    if k == "copy":
        y = {"_copy": {"P%d" % i: {"from": "P%d" % (i - 1)} for i in range(1, n)}}
        y["_modify"] = {"P%d" % i: {"baseAddress": 0x40000000 + 0x1000 * i} for i in range(1, n)}
    else:
        d["peripherals"] += [per("P%d" % i, 0x40000000 + 0x1000 * i, [reg("R", 0)]) for i in range(1, n)]
        y = {"_derive": {"P%d" % i: "P%d" % (i - 1) for i in range(1, n)}}
    y["P0"] = {"R": {"F": {"A": [0, "a"], "B": [1, "b"]}}}
    ctx.write("dev.svd", model.write_device(d))
    ctx.write("patch.yaml", dump(dict(_svd="dev.svd", **y)))
    apply(ctx, out, ["patch", "patch.yaml", "out.svd"], ref.apply(d, y))
    out.tags["chain:" + k] += 1
    return k, n


def do_deep(ctx, rng, out, turn):
    """Clusters in clusters."""
    n = rng.randint(8, 30)
    kids = [reg("R", 0, [fld("F", 0, 4)])]
    y = {"R": {"F": {"A": [0, "a"], "B": [1, "b"]}, "_modify": {"F": {"description": "deep"}}}}
    for i in range(n):
        c = {"k": "cluster", "name": "C%d" % i, "description": "level %d" % i, "addressOffset": rng.choice((0, 4)), "children": kids}
        kids = [c]
        if rng.random() < 0.3:
            kids.append(reg("S%d" % i, 0x100))
        y = {"_clusters": {"C%d" % i: y}}
    d = base()
    d["peripherals"] = [per("P", 0x40000000, kids)]
    ctx.write("dev.svd", model.write_device(d))
    ctx.write("patch.yaml", dump({"_svd": "dev.svd", "P": y}))
    want = ref.apply(d, {"P": y})
    apply(ctx, out, ["patch", "patch.yaml", "out.svd"], want)
    cur = "out.svd"
    for f in ("a.json", "a.yaml", "b.svd"):
        args = ["convert", cur, f]
        run(ctx, args)
        cur = f
    same(want, ctx.read("b.svd"), "nested clusters changed", ["svdtools"] + args)
    exp = c26.listing(want)
    so = run(ctx, ["mmap", "out.svd"])
    if c26.lines(so) != exp:
        raise Violation("listing: " + c26.differ(exp, c26.lines(so)), cmd=["svdtools", "mmap", "out.svd"])
    return n


def do_texts(ctx, rng, out, turn):
    """Long texts and names."""
    n = many(rng, 2000, 200000)
    word = rng.choice(("lorem ipsum ", "é漢 ", "a&b <c> ", "x" * 60 + " "))
    t = (word * (n // len(word) + 1)).strip()
    d = base()
    nm = "N" * rng.choice((1, 200, 900))
    d["peripherals"] = [dict(per("P", 0x40000000, [dict(reg(nm, 0, [dict(fld("F", 0, 4), description=t)]), description=t)]), description=t)]
    y = {"P": {"_modify": {nm: {"description": "now " + t}}, nm: {"F": {"A": [0, t], "B": [1, "b"]}}}}
    ctx.write("dev.svd", model.write_device(d))
    ctx.write("patch.yaml", dump(dict(_svd="dev.svd", **y)))
    want = ref.apply(d, y)
    apply(ctx, out, ["patch", "patch.yaml", "out.svd"], want)
    f = rng.choice(("json", "yaml"))
    run(ctx, ["convert", "out.svd", "a." + f])
    run(ctx, ["convert", "a." + f, "b.svd"])
    same(want, ctx.read("b.svd"), "long texts changed", ["svdtools", "convert", "a." + f, "b.svd"])
    return n // 1000


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
