"""C29: the comparison pages mark, for every part, exactly the elements it has."""
import os
import re
import sys

from kit import dev as devs
from kit import expand, model, runner
from kit.gen import blocks
from kit.runner import Violation

PID = "C29"
LEVEL = "exploration"
RULE = ("a case counts if all pages written for at least two parts that differ were read back and compared with the "
        "independently computed tables; two cases are the same if their parts have the same structure")
CASES = {"quick": 1100, "thorough": 12000}
MUST_SEE = ("parts", "pages", "rows", "marks:yes", "marks:no", "variants", "same_stem", "path_in_path", "moved_peripheral", "had:cluster",
            "had:register_array", "had:derived_peripheral", "had:peripheral_array", "had:field_array", "had:derived_register",
            "one_part", "refused")
YES, NO = '<td align=center bgcolor="#ccffcc">&#10004;</td>', '<td align=center bgcolor="#ffcccc">&#10008;</td>'


def contents(dev):
    """peripheral -> register -> fields, each with its position."""
    d = expand.expand(expand.ignore_enums(dev))
    out = {}
    for p in d["peripherals"]:
        regs = out.setdefault((p["name"], p["baseAddress"]), {})
        for r in p["children"]:
            fs = regs.setdefault((r["addressOffset"], r["name"]), set())
            fs |= {(f["off"], f["width"], f["name"]) for f in r["fields"]}
    return out


def variant(dev, rng, out):
    """Another member of the family."""
    d = model.clone(dev)
    d["name"] = dev["name"] + rng.choice("abcxyz")
    for _ in range(rng.randint(0, 5)):
        k = rng.randint(0, 6)
        p = rng.choice(d["peripherals"])
        bs = [b for b in blocks(p)]
        regs = [c for b in bs for c in b["children"] if c["k"] == "register"]
        if k == 0:
            p["baseAddress"] += 0x10000
            out.tags["moved_peripheral"] += 1
        elif k == 1 and len(d["peripherals"]) > 1:
            if not any(q.get("derivedFrom") == p["name"] for q in d["peripherals"]):
                d["peripherals"].remove(p)
        elif k == 2 and regs:
            rng.choice(regs)["addressOffset"] += 0x400
        elif k == 3 and regs:
            b = rng.choice(bs)
            rs = [c for c in b["children"] if c["k"] == "register"]
            if len(rs) > 1:
                b["children"].remove(rng.choice(rs))
        elif regs:
            r = rng.choice(regs)
            if r["fields"]:
                f = rng.choice(r["fields"])
                if k == 4:
                    r["fields"].remove(f)
                elif k == 5:
                    f["name"] = "NEW_" + f["name"]
                elif f["width"] > 1 and "dim" not in f and not f["enums"]:
                    f["width"] -= 1
    return d


def rows(page, what):
    """(heading, names of the columns, rows of (cells, marks))"""
    t = page.decode("utf8")
    title = re.search(r"<h1>(.*?)</h1>", t, re.S)
    head = re.search(r"<thead>(.*?)</thead>", t, re.S)
    body = re.search(r"<tbody>(.*?)</tbody>", t, re.S)
    if not (title and head and body):
        raise Violation("%s has no table" % what)
    cols = [x.strip() for x in re.findall(r"<th>(.*?)</th>", head.group(1), re.S)]
    out = []
    for tr in re.findall(r"<tr>(.*?)</tr>", body.group(1), re.S):
        cells, marks = [], []
        for attrs, c in re.findall(r"<td([^>]*)>(.*?)</td>", tr, re.S):
            if attrs.strip():
                if c not in ("&#10004;", "&#10008;") or ("ccffcc" in attrs) != (c == "&#10004;"):
                    raise Violation("%s: unexpected cell %r" % (what, (attrs, c)))
                marks.append(c == "&#10004;")
            else:
                a = re.fullmatch(r'<a href="(.*?)">(.*?)</a>', c, re.S)
                cells.append((a.group(2), a.group(1)) if a else c)
        out.append((tuple(cells), tuple(marks)))
    return re.sub(r"</?title>", "", title.group(1)).strip(), cols, out


def table(keys, has, show):
    return [(show(k), tuple(k in h for h in has)) for k in sorted(keys, key=lambda k: [x.encode() if isinstance(x, str) else x
                                                                                     for x in k])]


def case(ctx, rng, i, out):
    if i % 40 == 9:
        return refused(ctx, rng, out)
    for _ in range(300):
        d = devs.make(rng, size=rng.choice([0, 0, 1]), plain=True, unique=True, parts=("per",))
        n = rng.choice([1, 2, 2, 3, 4])
        ds = [d]
        for _ in range(n - 1):
            ds.append(variant(rng.choice(ds), rng, out) if rng.random() < 0.85 else
                      devs.make(rng, size=0, plain=True, unique=True))
        try:
            cs = [contents(x) for x in ds]
        except (expand.Unresolved, TypeError):
            continue
        if any(devs.ambiguous(x) for x in ds):
            continue
        break
    else:
        raise runner.Inconclusive("no devices")
    files = []
    stem = rng.random() < 0.3
    tail = not stem and n > 1 and rng.random() < 0.25
    tails = rng.sample(("dev.svd", "xdev.svd", "p/dev.svd", "p/p/dev.svd", "q/p/dev.svd", "p/dev.svd.old", "p", "dev"), len(ds)) if tail else ()
    while "p" in tails and any(t.startswith("p/") for t in tails):
        tails = ["v" if t == "p" else t for t in tails]
    for k, x in enumerate(ds):
        f = tails[k] if tail else "p%d/%s" % (k, "dev.svd" if stem and rng.random() < 0.5 else "dev.v%d.svd" % k if stem else "part%d.svd" % k)
        ctx.write(f, model.write_device(x))
        files.append(f)
    if stem and n > 1:
        out.tags["same_stem"] += 1
    if any(a != b and (a.endswith(b) or a.startswith(b)) for a in files for b in files):
        out.tags["path_in_path"] += 1
    before = [ctx.read(f) for f in files]
    if rng.random() < 0.4:
        os.makedirs(ctx.path("out/cmp"))
    cmd = ["svdtools", "htmlcompare", "out/cmp"] + files
    rc, so, er = ctx.run(cmd[1:])
    if rc != 0:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-900:]), cmd=cmd)
    if [ctx.read(f) for f in files] != before:
        raise Violation("an input was changed", cmd=cmd)
    exp = pages([x["name"] for x in ds], cs)
    got = {f: ctx.read("out/cmp/" + f) for f in os.listdir(ctx.path("out/cmp"))}
    if set(exp) != set(got):
        raise Violation("pages: missing %s, unexpected %s" % (sorted(set(exp) - set(got))[:4], sorted(set(got) - set(exp))[:4]), cmd=cmd)
    marks = {True: 0, False: 0}
    for f, (title, cols, rs) in exp.items():
        try:
            t, c, r = rows(got[f], f)
        except Violation as v:
            v.cmd = cmd
            raise
        if t != title:
            raise Violation("%s: heading %r, expected %r" % (f, t, title), cmd=cmd)
        if c != cols:
            raise Violation("%s: columns %r, expected %r" % (f, c, cols), cmd=cmd)
        if r != rs:
            raise Violation("%s: rows: %s" % (f, differ(rs, r)), cmd=cmd)
        for cells, ms in r:
            for c in cells:
                if isinstance(c, tuple) and c[1] not in got:
                    raise Violation("%s: link to %s leads nowhere" % (f, c[1]), cmd=cmd)
            for m in ms:
                marks[m] += 1
            out.tags["rows"] += 1
        out.tags["pages"] += 1
    out.tags["marks:yes"] += marks[True]
    out.tags["marks:no"] += marks[False]
    out.tags["parts"] += n
    out.tags["variants" if n > 1 else "one_part"] += 1
    see(ds, out)
    out.nontrivial = n > 1 and marks[False] > 0
    out.key = [devs.facts(x) for x in ds]
    out.sample = {"parts": [x["name"] for x in ds], "index": exp["index.html"][2][:4]}


def differ(exp, got):
    for a, b in zip(exp, got):
        if a != b:
            return "expected %r, found %r" % (a, b)
    return "expected %d, found %d: %r" % (len(exp), len(got), (exp + got)[min(len(exp), len(got)):][:2])


def pages(names, cs):
    exp = {}
    pk = {k for c in cs for k in c}
    exp["index.html"] = ("Compare peripherals", ["Peripheral", "Address"] + names, table(
        pk, cs, lambda k: ((k[0], "%s_0x%08X.html" % k), "0x%08X" % k[1])))
    for p in pk:
        regs = [c.get(p, {}) for c in cs]
        rk = {k for r in regs for k in r}
        pn = "%s_0x%08X" % p
        exp[pn + ".html"] = ("Registers In %s 0x%08X" % p, ["Register", "Offset"] + names, table(
            rk, regs, lambda k: ((k[1], "%s_%s_0x%04X.html" % (pn, k[1], k[0])), "0x%04X" % k[0])))
        for r in rk:
            fs = [x.get(r, set()) for x in regs]
            exp["%s_%s_0x%04X.html" % (pn, r[1], r[0])] = (
                "Fields In %s_%s (0x%08X, 0x%04X)" % (p[0], r[1], p[1], r[0]), ["Field", "Offset", "Width"] + names,
                table({k for f in fs for k in f}, fs, lambda k: (k[2], "%d" % k[0], "%d" % k[1])))
    return exp


def see(ds, out):
    s = set()

    def walk(cs):
        for c in cs:
            if "derivedFrom" in c:
                s.add("derived_" + c["k"])
            if c["k"] == "cluster":
                s.add("cluster")
                walk(c["children"])
            else:
                if "dim" in c:
                    s.add("register_array")
                if any("dim" in f for f in c["fields"]):
                    s.add("field_array")
    for d in ds:
        for p in d["peripherals"]:
            if "derivedFrom" in p:
                s.add("derived_peripheral")
            if "dim" in p:
                s.add("peripheral_array")
            walk(p["children"])
    for x in s:
        out.tags["had:" + x] += 1


def refused(ctx, rng, out):
    """No pages at all if one of the files cannot be read."""
    a = devs.make(rng, size=0, plain=True, unique=True)
    ctx.write("a.svd", model.write_device(a))
    k = rng.choice(("missing", "broken"))
    if k == "broken":
        t = model.write_device(devs.make(rng, size=0))
        ctx.write("b.svd", t[:rng.randint(0, len(t) * 3 // 4)])
    files = ["a.svd", "b.svd"]
    rng.shuffle(files)
    cmd = ["svdtools", "htmlcompare", "out"] + files
    rc, so, er = ctx.run(cmd[1:])
    if rc == 0:
        raise Violation("a %s file was accepted" % k, cmd=cmd)
    if os.path.exists(ctx.path("out")) and os.listdir(ctx.path("out")):
        raise Violation("refused, but pages were written", cmd=cmd)
    out.tags["refused"] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
