"""C26: the memory map lists everything of the device once, at its absolute address."""
import os
import sys

from kit import dev as devs
from kit import expand, gen, model, runner
from kit.runner import Violation

PID = "C26"
LEVEL = "exploration"
RULE = ("a case counts if the whole listing of a device with registers was compared line by line with the independently "
        "computed one; two cases are the same if their devices have the same structure and counts of lines")
CASES = {"quick": 1300, "thorough": 40000}
MUST_SEE = ("rust", "python", "line:PERIPHERAL", "line:REGISTER", "line:CLUSTER", "line:FIELD", "line:INTERRUPT",
            "had:derived_peripheral", "had:chain", "had:own_registers", "had:nested_cluster", "had:array_in_array_cluster",
            "had:peripheral_array", "had:low_address", "had:hostile_text", "had:empty_registers", "had:derived", "refused")
ACC = {"read-only": "ro", "read-write": "rw", "read-writeOnce": "rwonce", "writeOnce": "wonce", "write-only": "wo"}
PY = "/opt/vp/pyvenv/bin/python"
PYMAIN = "import sys, svdtools.mmap as m; print(m.main(sys.argv[1]))"


def text(n):
    return " ".join((n.get("description") or "").split())


def acc(n):
    return " (%s)" % ACC[n["access"]] if "access" in n else ""


def der(n):
    return " (=%s)" % n["derivedFrom"] if "derivedFrom" in n else ""


def source(dev, p, n=0):
    """Where the registers of a peripheral come from."""
    if p["children"] or "derivedFrom" not in p:
        return p
    s = next((x for x in dev["peripherals"] if x["name"] == p["derivedFrom"]), None)
    return source(dev, s, n + 1) if s is not None and n < 50 else {"children": []}


def listing(dev):
    out = []

    def regs(children, base, suffix):
        for c in children:
            if c["k"] == "register":
                for r in expand.array(c, "addressOffset"):
                    a = "0x%08X" % (base + r["addressOffset"])
                    out.append("%s B  REGISTER %s%s%s%s: %s" % (a, r["name"], suffix, der(c), acc(c), text(r)))
                    for f in c["fields"]:
                        for x in expand.array(f, "off"):
                            out.append("%s C   FIELD %02dw%02d %s%s%s: %s" % (a, x["off"], x["width"], x["name"], der(f),
                                                                             acc(f), text(x)))
            else:
                idx = [i for i, _, _ in model.instances(c)]
                for k, x in zip(idx, expand.array(c, "addressOffset")):
                    a = base + x["addressOffset"]
                    out.append("0x%08X B  CLUSTER %s%s: %s" % (a, x["name"], der(c), text(x)))
                    regs(c["children"], a, k or "")
    for p in dev["peripherals"]:
        kids = source(dev, p)["children"]
        for q in expand.array(p, "baseAddress"):
            out.append("0x%08X A PERIPHERAL %s" % (q["baseAddress"], q["name"]))
            for i in p["interrupts"]:
                out.append("INTERRUPT %03d: %s (%s): %s" % (i["value"], i["name"], q["name"], text(i)))
            regs(kids, q["baseAddress"], "")
    return sorted(out, key=lambda s: s.encode())


def odd(dev):
    """Devices whose listing is not specified: names with %s that nothing fills in, peripherals derived from arrays."""
    arrays = {p["name"] for p in dev["peripherals"] if "dim" in p}

    def bad(n):
        if "%s" in n["name"] and "dim" not in n:
            return True
        return any(bad(c) for c in n.get("children", ()) or n.get("fields", ()))
    return any(bad(p) or p.get("derivedFrom") in arrays or "dim" in p and "derivedFrom" in p for p in dev["peripherals"])


def simplify(dev):
    """Stay within what the Python implementation supports."""
    dev["peripherals"] = [p for p in dev["peripherals"] if "dim" not in p]
    for _ in range(9):
        names = {p["name"] for p in dev["peripherals"]}
        dev["peripherals"] = [p for p in dev["peripherals"] if p.get("derivedFrom") in names | {None}]
    vals = set()

    def desc(n):
        n["description"] = n.get("description") or "text"

    def dimmed(n):
        if "dim" in n:
            n["name"] = n["name"].replace("[%s]", "%s")
            if not all(i.isdigit() for i in n["dim"].get("index") or ["0"]) or len(n["dim"].get("index") or ["", ""]) < 2:
                n["dim"].pop("index", None)

    def fields(r):
        dimmed(r)
        desc(r)
        if r.get("access") in ("read-writeOnce", "writeOnce"):
            del r["access"]
        seen, fs = set(), []
        for f in r["fields"]:
            dimmed(f)
            desc(f)
            ns = {x["name"] for x in expand.array(f, "off")}
            if ns & seen:
                continue
            seen |= ns
            fs.append(f)
            if f.get("access") in ("read-writeOnce", "writeOnce"):
                del f["access"]
            if "dim" in f:
                f["br"] = "offset"
        r["fields"] = fs
    for p in dev["peripherals"]:
        ints = []
        for i in p["interrupts"]:
            if i["value"] not in vals:
                vals.add(i["value"])
                ints.append(i)
                desc(i)
        p["interrupts"] = ints
        kids, cn = [], set()
        for c in p["children"]:
            if c["k"] == "cluster":
                if "dim" not in c:
                    continue
                dimmed(c)
                desc(c)
                c["children"] = [r for r in c["children"] if r["k"] == "register" and "dim" not in r]
                for r in c["children"]:
                    fields(r)
                ns = {x["name"] for x in expand.array(c, "addressOffset")}
                if ns & cn:
                    continue
                cn |= ns
            else:
                fields(c)
            kids.append(c)
        p["children"] = kids
    return dev


def lines(so):
    t = so.decode("utf8", "replace")
    return t[:-1].split("\n") if t.endswith("\n") else t.split("\n")


def differ(exp, got):
    a, b = [x for x in exp if x not in set(got)], [x for x in got if x not in set(exp)]
    if a or b:
        return "missing %s, unexpected %s" % (a[:4], b[:4])
    if sorted(exp) != sorted(got):
        from collections import Counter
        return "listed a wrong number of times: %s" % [x for x in (Counter(exp) - Counter(got)) + (Counter(got) - Counter(exp))][:4]
    k = next(i for i in range(len(exp)) if exp[i] != got[i])
    return "wrong order at line %d: expected %r, got %r" % (k + 1, exp[k], got[k])


def case(ctx, rng, i, out):
    py = i % 5 == 4
    if i % 40 == 7:
        return refused(ctx, rng, out)
    while True:
        d = devs.make(rng, unique=rng.random() < 0.5, plain=False)
        if not odd(d):
            break
    if rng.random() < 0.3 and d["peripherals"]:
        d["peripherals"][0]["baseAddress"] = rng.choice([0, 0x100, 0xFFFF000, 0x8000000, 0xE000E000])
        out.tags["had:low_address"] += 1
    names = [p["name"] for p in d["peripherals"] if "dim" not in p and p["children"]]
    derived = [p for p in d["peripherals"] if "derivedFrom" in p and "dim" not in p]
    if derived and rng.random() < 0.4:
        s = rng.choice(derived)
        d["peripherals"].append({"k": "peripheral", "name": "CHAIN", "derivedFrom": s["name"], "baseAddress": 0x50000000,
                                 "children": [], "interrupts": [], "addressBlocks": []})
        out.tags["had:chain"] += 1
        if rng.random() < 0.3:
            d["peripherals"].insert(0, d["peripherals"].pop())
    if derived and rng.random() < 0.15 and not py:
        rng.choice(derived)["children"] = [{"k": "register", "name": "OWN", "addressOffset": 4, "fields": []}]
        out.tags["had:own_registers"] += 1
    for p in d["peripherals"]:
        if "derivedFrom" in p and not p["children"] and rng.random() < 0.2 and not py:
            p["empty_registers"] = True
            out.tags["had:empty_registers"] += 1
    if py:
        d = simplify(d)
        if not d["peripherals"]:
            py = False
            d = devs.make(rng, plain=True, enrich=False, size=0)
            if odd(d):
                return
    exp = listing(d)
    ctx.write("dev.svd", model.write_device(d))
    rc, so, er = ctx.run(["mmap", "dev.svd"])
    cmd = ["svdtools", "mmap", "dev.svd"]
    if rc != 0:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-500:]), cmd=cmd)
    if lines(so) != exp:
        raise Violation("listing: " + differ(exp, lines(so)), cmd=cmd)
    out.tags["rust"] += 1
    if py:
        rc, so, er = ctx.run(["-c", PYMAIN, "dev.svd"], exe=PY, env={"PYTHONPATH": runner.REPO,
                                                                    "PYTHONDONTWRITEBYTECODE": "1"})
        cmd = [PY, "-m", "svdtools", "mmap", "dev.svd"]
        if rc != 0:
            raise Violation("Python: refused: %s" % er.decode("utf8", "replace")[-500:], cmd=cmd)
        if lines(so) != exp:
            raise Violation("Python listing: " + differ(exp, lines(so)), cmd=cmd)
        out.tags["python"] += 1
    see(d, exp, out)
    out.nontrivial = any(" REGISTER " in x for x in exp)
    out.key = (devs.facts(d), len(exp), py)
    out.sample = {"listing": exp[:12]}


def see(d, exp, out):
    for x in exp:
        for k in ("PERIPHERAL", "CLUSTER", "REGISTER", "FIELD"):
            if " %s " % k in x[:24]:
                out.tags["line:" + k] += 1
                break
        else:
            out.tags["line:INTERRUPT"] += x.startswith("INTERRUPT")
    s = set()

    def walk(cs, depth, arr):
        for c in cs:
            if "derivedFrom" in c or any("derivedFrom" in f for f in c.get("fields", ())):
                s.add("derived")
            if c["k"] == "register" and "dim" in c and arr:
                s.add("array_in_array_cluster")
            if c["k"] == "cluster":
                if depth:
                    s.add("nested_cluster")
                walk(c["children"], depth + 1, "dim" in c)
            if c.get("description", "") != text(c):
                s.add("hostile_text")
    for p in d["peripherals"]:
        if "dim" in p:
            s.add("peripheral_array")
        if "derivedFrom" in p:
            s.add("derived_peripheral")
        walk(p["children"], 0, False)
    for x in s:
        out.tags["had:" + x] += 1


def refused(ctx, rng, out):
    k = rng.choice(("missing", "broken"))
    if k == "broken":
        t = model.write_device(devs.make(rng, size=0))
        ctx.write("dev.svd", t[:rng.randint(0, len(t) * 3 // 4)])
    rc, so, er = ctx.run(["mmap", "dev.svd"])
    if rc == 0:
        raise Violation("%s file was listed" % k, cmd=["svdtools", "mmap", "dev.svd"])
    out.tags["refused"] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
