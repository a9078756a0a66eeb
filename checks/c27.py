"""C27: the interrupts listing has every declared interrupt once, in order, and reports exactly the gaps."""
import sys

from kit import dev as devs
from kit import model, runner
from kit.runner import Violation

PID = "C27"
LEVEL = "exploration"
RULE = ("a case counts if the complete listing of a device with at least two interrupts was compared with the independently "
        "computed one; two cases are the same if they have the same sequence of numbers per peripheral and the same options")
CASES = {"quick": 1500, "thorough": 60000}
MUST_SEE = ("rust", "python", "gaps", "no_gaps", "had:duplicate", "had:hex", "had:binary", "had:newline", "had:no_description", "had:empty_description",
            "had:array", "had:derived", "had:no_interrupts", "had:zero", "had:big", "had:huge", "had:huge_gaps", "had:spaced", "had:unsorted", "refused:missing",
            "refused:broken", "refused:value")
PY = "/opt/vp/pyvenv/bin/python"
PYMAIN = "import sys, svdtools.interrupts as m; print(m.main(sys.argv[1], sys.argv[2] == '1'))"


def desc(i):
    return i.get("description", "").strip().replace("\r\n", " ").replace("\n", " ")


def listing(dev, unique, want_gaps=True):
    got = {}
    for p in dev["peripherals"]:
        for i in p["interrupts"]:
            line = "%d %s: %s (in %s)" % (i["value"], i["name"], desc(i), p["name"])
            got.setdefault(i["value"], []).append(line)
    vals = sorted(got)
    gaps = [str(v) for v in range(vals[-1] if vals and want_gaps else 0) if v not in got]
    return [got[v] for v in vals], "Gaps: " + ", ".join(gaps)


def case(ctx, rng, i, out):
    if i % 30 == 11:
        return refused(ctx, rng, out)
    py, had = i % 4 == 3, set()
    d = devs.make(rng, size=0, parts=("per",))
    style = rng.choice(("dense", "sparse", "sparse", "few", "asis", "big", "crowd"))
    free = list(range({"dense": 12, "sparse": 90, "few": 200, "asis": 60, "big": 5000, "crowd": 30}[style]))
    rng.shuffle(free)
    huge = not py and i % 6 == 2
    gaps = rng.random() < 0.7 and (not huge or i % 60 == 2)
    if huge:
        top = 80000 if gaps else 1 << 32
        free = [v for v in (0, 1, 5, 255, 256, 65535, 65536, 65537, 65541, 65792, 70000, 79999, 0x10000000, 0x7fffffff, 0x80000000,
                            0x80000001, 0xfffffffe, 0xffffffff) + tuple(rng.randrange(1 << 32) for _ in range(40)) if v < top]
        free = rng.sample(free, len(free)) if len(set(free)) == len(free) else free[:15]
        had.add("huge_gaps" if gaps else "huge")
    uniq = py or rng.random() < 0.5
    seen = []
    n = 0
    for p in d["peripherals"]:
        if style != "asis":
            k = rng.choice([0, 1, 1, 2, 3, 6]) if style != "crowd" else rng.randint(6, 16)
            p["interrupts"] = [{"name": "I%d_%s" % (j, rng.choice(("A", "B", "x"))), "value": 0} for j in range(k)]
        for x in p["interrupts"]:
            if not free:
                free = list(range(5000, 5030))
            x["value"] = free.pop() if uniq or not seen or rng.random() < (0.3 if style == "crowd" else 0.8) else rng.choice(seen)
            r = rng.random()
            if r < 0.5:
                x["description"] = rng.choice(("Global interrupt", "a  b", "EXTI & <x> \"q\"", "é 漢", "x: y (in z)"))
            elif r < 0.7:
                x["description"] = rng.choice(("line one\nline two", "a\n\n   b", "x \n y"))
                had.add("newline")
            elif r < 0.75:
                x["description"] = ""
                had.add("empty_description")
            else:
                x.pop("description", None)
                had.add("no_description")
            if seen and x["value"] < seen[-1]:
                had.add("unsorted")
            if x["value"] in seen:
                had.add("duplicate")
            had.add("big" if x["value"] > 255 else "zero" if x["value"] == 0 else "small")
            seen.append(x["value"])
            n += 1
        had |= {"array"} if "dim" in p and p["interrupts"] else set()
        had |= {"derived"} if "derivedFrom" in p and p["interrupts"] else set()
    if not n:
        had.add("no_interrupts")
    notation = rng.choice(("dec", "dec", "mixed"))
    spaced = not py and rng.random() < 0.2

    def fmt(v, key):
        if key == "value" and spaced and rng.random() < 0.5:
            had.add("spaced")
            return rng.choice(("\n  %s\n ", " %s", "%s ", "\t%s\t")) % plain(v, key)
        return plain(v, key)

    def plain(v, key):
        if key == "value" and notation == "mixed":
            k = rng.choice(("dec", "hex", "HEX", "bin"))
            if k == "bin":
                had.add("binary")
                return "#" + bin(v)[2:]
            if k != "dec":
                had.add("hex")
                return ("0x%x" if k == "hex" else "0X%02X") % v
            return str(v)
        return model.default_fmt(v, key)
    ctx.write("dev.svd", model.write_device(d, fmt))
    args = ["interrupts", "dev.svd"] + ([] if gaps else ["--no-gaps"])
    if not gaps and rng.random() < 0.5:
        args = ["interrupts", "--no-gaps", "dev.svd"]
    groups, gapline = listing(d, uniq, gaps)
    rc, so, er = ctx.run(args)
    judge("svdtools", ["svdtools"] + args, rc, so, er, groups, gapline if gaps else None)
    out.tags["rust"] += 1
    out.tags["gaps" if gaps else "no_gaps"] += 1
    if py:
        a = ["-c", PYMAIN, "dev.svd", "1" if gaps else "0"]
        rc, so, er = ctx.run(a, exe=PY, env={"PYTHONPATH": runner.REPO, "PYTHONDONTWRITEBYTECODE": "1"})
        if not groups and not gaps:
            so = so.replace(b"\n", b"", 1)
        judge("Python", [PY] + a, rc, so, er, groups, gapline if gaps else None)
        out.tags["python"] += 1
    for h in had:
        out.tags["had:" + h] += 1
    out.tags["interrupts_listed"] += n
    out.nontrivial = n > 1
    out.key = ([[x["value"] for x in p["interrupts"]] for p in d["peripherals"]], gaps, notation, py)
    out.sample = {"listing": [x for g in groups for x in g][:6] + [gapline]}


def judge(who, cmd, rc, so, er, groups, gapline):
    if rc != 0:
        raise Violation("%s: refused with status %d: %s" % (who, rc, er.decode("utf8", "replace")[-500:]), cmd=cmd)
    got = so.decode("utf8", "replace").split("\n")
    if got.pop() != "":
        raise Violation("%s: output does not end with a line end" % who, cmd=cmd)
    k = 0
    for g in groups:
        part = got[k:k + len(g)]
        if part != g:
            raise Violation("%s: line %d: expected %r, listed %r" % (who, k + 1, g, part), cmd=cmd)
        k += len(g)
    rest = [] if gapline is None else [gapline]
    if [x.rstrip() for x in got[k:]] != [x.rstrip() for x in rest]:
        raise Violation("%s: after the interrupts: expected %r, listed %r" % (who, rest, got[k:]), cmd=cmd)


def refused(ctx, rng, out):
    k = rng.choice(("missing", "broken", "value"))
    if k == "broken":
        t = model.write_device(devs.make(rng, size=0))
        ctx.write("dev.svd", t[:rng.randint(0, len(t) * 3 // 4)])
    elif k == "value":
        d = devs.make(rng, size=0)
        d["peripherals"][0]["interrupts"] = [{"name": "I", "value": 77}]
        t = model.write_device(d)
        bad = rng.choice(("abc", "-1", "", "0x", "4294967296", "1.5", "0xfffffffff", "#2", "1 2", "12h"))
        ctx.write("dev.svd", t.replace("<value>77</value>", "<value>%s</value>" % bad, 1))
        if "<value>77</value>" not in t:
            return
    rc, so, er = ctx.run(["interrupts", "dev.svd"])
    if rc == 0:
        raise Violation("file with %s was listed" % k, cmd=["svdtools", "interrupts", "dev.svd"])
    out.tags["refused:" + k] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
