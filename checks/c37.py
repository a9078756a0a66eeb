"""C37: device descriptions with a malformed part are refused by every command that reads the part."""
import json
import sys
import xml.etree.ElementTree as ET

from checks import c28
from kit import dev as devs
from kit import gen, model, runner
from kit.runner import Violation
from kit.yamlout import dump

PID = "C37"
LEVEL = "exploration"
RULE = ("a case counts if a command accepted a description and was then run on the same description with one malformed "
        "part; two cases are the same if they agree in the damage, the place and the devices' structure")
CASES = {"quick": 1300, "thorough": 60000}

REQUIRED = {"addressBlock": "offset size usage", "cluster": "name addressOffset",
            "cpu": "name revision endian nvicPrioBits vendorSystickConfig", "device": "name", "enumeratedValue": "name",
            "field": "name bitOffset bitWidth bitRange lsb msb", "interrupt": "name value", "peripheral": "name baseAddress",
            "range": "minimum maximum", "register": "name addressOffset"}
REQUIRED = {(p, t) for p, ts in REQUIRED.items() for t in ts.split()}
U32 = {"addressOffset", "offset", "dim", "dimIncrement", "bitOffset", "bitWidth", "lsb", "msb", "nvicPrioBits", "width",
       "addressUnitBits", "sauNumRegions", "deviceNumInterrupts"}
U64 = {"baseAddress", "resetValue", "resetMask", "minimum", "maximum"}
WORDS = {"access", "usage", "endian", "modifiedWriteValues", "readAction", "dataType", "bitRange", "dimIndex", "protection",
         "vendorSystickConfig", "fpuDP", "dspPresent", "vtorPresent", "icachePresent", "dcachePresent",
         "itcmPresent", "dtcmPresent"}
BADNUM = ("abc", "-1", "1.5", "0x", "", "0xG", "12 34", "18446744073709551616", "1e3", "0b2")
BADWORD = ("nonsense", "read only", "2", "", "READ_ONLY", "-")
# parts that some commands do not look at
NOENUM = {"enumeratedValue", "enumeratedValues", "writeConstraint", "range"}
ALLCMD = ("patch", "convert", "expand", "properties", "mmap", "html", "htmlcompare", "info")
KINDS = ("required", "number", "word", "derived", "fit", "interrupts", "json", "yaml", "placeholder")
MUST_SEE = tuple("kind:" + k for k in KINDS) + tuple("refused:" + c for c in ALLCMD) + ("refused:interrupts", "one_of_several")
ASSUMPTIONS = ["a panic with its message (status 101) counts as a refusal; death by a signal and hanging do not"]


def isnum(p, t):
    return t in U32 or t in U64 or (p, t) in (("interrupt", "value"), ("enumeratedValue", "value"), ("addressBlock", "size"),
                                            ("register", "size"), ("peripheral", "size"), ("device", "size"), ("cluster", "size"))


def places(root):
    out = []
    for e in root.iter():
        for c in e:
            if not len(c):
                out.append((e, c))
    return out


def spot(rng, xs):
    """Every kind of place equally often, however many there are of it."""
    ks = sorted({(e.tag, c.tag) for e, c in xs})
    if not ks:
        return None
    k = rng.choice(ks)
    return rng.choice([(e, c) for e, c in xs if (e.tag, c.tag) == k])


def damage(rng, kind, root):
    """Break one part of the XML tree; returns (place, commands that must refuse) or None."""
    ps = places(root)
    if kind == "required":
        x = spot(rng, [(e, c) for e, c in ps if (e.tag, c.tag) in REQUIRED])
        if not x:
            return None
        x[0].remove(x[1])
        what = "without"
    elif kind == "number":
        x = spot(rng, [(e, c) for e, c in ps if isnum(e.tag, c.tag)])
        if not x:
            return None
        bad = BADNUM + (("4294967296", "0x100000000") if x[1].tag in U32 else ())
        if (x[0].tag, x[1].tag) == ("enumeratedValue", "value"):
            bad = tuple(b for b in bad if b != "0b2")
        x[1].text = rng.choice(bad)
        what = repr(x[1].text)
    elif kind == "word":
        x = spot(rng, [(e, c) for e, c in ps if c.tag in WORDS])
        if not x:
            return None
        x[1].text = rng.choice(["A,B,C,D,E,F,G,H,I", "0-99"] if x[1].tag == "dimIndex" else [b for b in BADWORD if b != "2" or x[1].tag in (
            "access", "usage", "endian", "bitRange")])
        what = repr(x[1].text)
    elif kind == "placeholder":
        xs = [(e, c) for e, c in ps if c.tag == "name" and "%s" in (c.text or "") and e.find("dim") is not None]
        x = spot(rng, xs)
        if not x:
            return None
        x[1].text = x[1].text.replace("[%s]", "").replace("%s", "") or "N"
        what = "no %s"
    elif kind == "derived":
        return derived(rng, root)
    elif kind == "fit":
        return fit(rng, root)
    cmds = [c for c in ALLCMD if not (x[0].tag in NOENUM and c in ("htmlcompare", "info"))]
    return (x[0].tag, x[1].tag, what), cmds


def derived(rng, root):
    pers = list(root.find("peripherals"))
    tag = rng.choice(("peripheral", "register", "cluster", "field", "enumeratedValues"))
    how = rng.choice(("missing", "missing", "self", "circle"))
    parents = {"peripheral": [root.find("peripherals")], "register": [r for r in root.iter("registers")],
               "cluster": [r for r in root.iter("registers")], "field": list(root.iter("fields"))}
    if tag == "enumeratedValues":
        fs = [f for f in root.iter("field") if f.find("enumeratedValues") is None and "derivedFrom" not in f.attrib and
              f.find("dim") is None]
        if not fs:
            return None
        e = ET.SubElement(rng.choice(fs), tag)
        ET.SubElement(e, "name").text = "ZZ_E"
        e.set("derivedFrom", "NOWHERE_E" if how != "self" else "ZZ_E")
        return (tag, how, ""), ["expand", "html"]
    if not parents[tag]:
        return None
    b = rng.choice(parents[tag])
    n = 2 if how == "circle" else 1
    names = ["ZZ_%d" % i for i in range(n)]
    for i, nm in enumerate(names):
        e = ET.Element(tag)
        ET.SubElement(e, "name").text = nm
        if tag == "peripheral":
            ET.SubElement(e, "baseAddress").text = "0x7000%d000" % i
        elif tag in ("register", "cluster"):
            ET.SubElement(e, "addressOffset").text = "0x%d00" % (7 + i)
        else:
            ET.SubElement(e, "bitRange").text = "[%d:%d]" % (30 + i, 30 + i)
        to = "NOWHERE" if how == "missing" else names[(i + 1) % n]
        if how == "missing" and tag in ("register", "cluster") and rng.random() < 0.3:
            to = pers[0].find("name").text + ".NOWHERE"
        e.set("derivedFrom", to)
        b.insert(rng.randint(0, len(b)), e)
    return (tag, how, ""), ["expand", "html", "htmlcompare"]


def fit(rng, root):
    """Values that do not fit; patch reads them (it may be there to repair them)."""
    if rng.random() < 0.5:
        xs = []
        for f in root.iter("field"):
            for v in f.iter("enumeratedValue"):
                if v.find("value") is not None and f.find("dim") is None and f.findtext("name") != "ALL":
                    xs.append(v)
        if not xs:
            return None
        rng.choice(xs).find("value").text = "0x1%08X" % rng.getrandbits(30)
        return ("enumeratedValue", "value", "too large"), ["convert", "expand", "properties", "mmap", "html", "!patch"]
    rs = [r for r in root.iter("register")]
    if not rs:
        return None
    r = rng.choice(rs)
    for t in ("size", "resetValue", "resetMask"):
        for e in r.findall(t):
            r.remove(e)
    n = next((i for i, e in enumerate(r) if e.tag == "fields"), len(r))
    for t, v in (("size", "16"), ("resetValue", "0x10000")):
        e = ET.Element(t)
        e.text = v
        r.insert(n, e)
        n += 1
    return ("register", "resetValue", "too large"), ["convert", "expand", "properties", "mmap", "html", "!patch"]


def commands(ctx, rng, c, inp, good):
    """Arguments, name of the output whose state is judged or None."""
    if c == "patch":
        ctx.write("p.yaml", dump({"_svd": inp}))
        return ["patch", "p.yaml", "o.out"], "o.out"
    if c in ("convert", "expand", "properties"):
        o = "o." + rng.choice(["svd", "json", "yaml"])
        return ["convert"] + {"convert": [], "expand": ["--expand"], "properties": ["--expand-properties"]}[c] + [inp, o], o
    if c == "mmap":
        return ["mmap", inp], None
    if c == "interrupts":
        return ["interrupts", "--no-gaps", inp], None
    if c == "info":
        return ["info", inp, "device-name"], None
    fs = [inp]
    if rng.random() < 0.6:
        fs.insert(rng.randint(0, 1), good)
    return [c, "dir_" + c] + fs, None


def fresh(ctx, c):
    import os
    import shutil
    for n in ("dir_html", "dir_htmlcompare"):
        shutil.rmtree(ctx.path(n), ignore_errors=True)
        os.mkdir(ctx.path(n))
    for n in ("o.out", "o.svd", "o.json", "o.yaml"):
        if os.path.exists(ctx.path(n)):
            os.unlink(ctx.path(n))


def judge(ctx, rng, out, c, what, bad, ok, src, good):
    """The command accepts src as it is and must refuse it with the damage."""
    ctx.write(src, ok)
    fresh(ctx, c)
    args, o = commands(ctx, rng, c, src, good)
    rc, so, er = ctx.run(args)
    cmd = ["svdtools"] + args
    if rc != 0:
        out.tags["base_refused"] += 1
        out.tags["base_refused:" + c] += 1
        return False
    fresh(ctx, c)
    ctx.write(src, bad)
    old = None
    if o and rng.random() < 0.5:
        old = b"kept"
        ctx.write(o, old)
    rc, so, er = ctx.run(args)
    if rc == 0:
        raise Violation("a description with a malformed part (%s) was accepted" % (what,), cmd=cmd)
    if rc < 0 or rc not in (1, 101):
        raise Violation("ended with status %d on a description with a malformed part (%s)" % (rc, what), cmd=cmd)
    if not er.strip():
        raise Violation("refused without a message (%s)" % (what,), cmd=cmd)
    if so.strip() and not c.startswith("html"):
        raise Violation("refused (%s), but something was printed: %r" % (what, so[:200]), cmd=cmd)
    if o and ctx.read(o) != old:
        raise Violation("refused (%s), but the output was written" % (what,), cmd=cmd)
    out.tags["refused:" + c] += 1
    if len(args) == 4 and c.startswith("html"):
        out.tags["one_of_several"] += 1
    return True


def tree_damage(rng, t):
    """Break one part of a JSON/YAML device."""
    nodes = []

    def walk(v, key):
        if isinstance(v, dict):
            nodes.append((key, v))
            for k, x in v.items():
                walk(x, k)
        elif isinstance(v, list):
            for x in v:
                walk(x, key)
    walk(t, "device")
    kind = rng.choice(("required", "number", "word"))
    req = {"registers": ("name", "addressOffset"), "peripherals": ("name", "baseAddress"), "interrupts": ("name", "value"),
           "interrupt": ("name", "value"), "addressBlocks": ("offset", "size", "usage"), "device": ("name",)}
    xs = []
    for key, v in nodes:
        for k, x in v.items():
            if kind == "required" and k in req.get(key, ()):
                xs.append((key, v, k))
            elif kind == "number" and isinstance(x, int) and not isinstance(x, bool) and k in (
                    "addressOffset", "baseAddress", "bitOffset", "bitWidth", "resetValue", "size"):
                xs.append((key, v, k))
            elif kind == "word" and k in ("access", "usage", "modifiedWriteValues", "readAction", "endian"):
                xs.append((key, v, k))
    if not xs:
        return None
    ks = sorted({(a, k) for a, _, k in xs})
    z = rng.choice(ks)
    key, v, k = rng.choice([x for x in xs if (x[0], x[2]) == z])
    if kind == "required":
        del v[k]
    elif kind == "number":
        v[k] = rng.choice(["abc", -1, 1.5, [1], 1 << 64] + ([1 << 32] if k in U32 else []) +
                          ([None] if k in ("addressOffset", "baseAddress") else []))
    else:
        v[k] = rng.choice(["nonsense", 5, "READ_ONLY", ["read-only"]])
    return (key, k, kind)


def case(ctx, rng, i, out):
    kind = KINDS[i % len(KINDS)]
    page = kind not in ("json", "yaml", "interrupts") and rng.random() < 0.4    # devices that html shows
    for _ in range(40):
        if page:
            d = c28.device(rng, 0)[0]
        else:
            d = devs.make(rng, size=1, enrich=rng.random() < 0.6, unique=True, plain=True)
        if devs.rich_enough(d):
            break
    ok = model.write_device(d)
    out.key = None
    if kind in ("json", "yaml"):
        ctx.write("src.svd", ok)
        rc, so, er = ctx.run(["convert", "src.svd", "mid.json"])
        if rc:
            return
        t = json.loads(ctx.read("mid.json"))
        src = "in." + kind
        ok = json.dumps(t, ensure_ascii=False)
        what = tree_damage(rng, t)
        if what is None:
            return
        bad = json.dumps(t, ensure_ascii=False)
        if judge(ctx, rng, out, rng.choice(("convert", "expand")), what, bad, ok, src, None):
            out.tags["kind:" + kind] += 1
            out.nontrivial = True
            out.key = (kind, what, devs.facts(d))
        return
    root = ET.fromstring(ok)
    if kind == "interrupts":
        xs = [(e, c) for e, c in places(root) if (e.tag, c.tag) in (("interrupt", "name"), ("interrupt", "value"),
                                                                  ("peripheral", "name"))]
        if not xs:
            return
        e, c = spot(rng, xs)
        if c.tag == "value" and rng.random() < 0.7:
            c.text = rng.choice(("abc", "-1", "1.5", "0x", "4294967296", "0xG", "1 2", "", "#12"))
            what = (e.tag, c.tag, c.text)
        else:
            e.remove(c)
            what = (e.tag, c.tag, "without")
        cmds = ["interrupts"]
    else:
        x = damage(rng, kind, root)
        if x is None:
            return
        what, cmds = x
    bad = ET.tostring(root, encoding="unicode")
    good = None
    g = gen.Gen(rng, 0).device(1)
    g["name"] = "OTHER"
    from kit import rich
    rich.plain_refs(g)
    ctx.write("good.svd", model.write_device(g))
    good = "good.svd"
    if "!patch" in cmds:
        cmds.remove("!patch")
        ctx.write("in.svd", bad)
        ctx.write("p.yaml", dump({"_svd": "in.svd"}))
        rc, so, er = ctx.run(["patch", "p.yaml", "o.out"])
        if rc:
            raise Violation("patch refuses a description it could repair (%s)" % (what,), cmd=["patch", "p.yaml", "o.out"])
        out.tags["repairable"] += 1
    n = 0
    some = rng.sample(cmds, min(len(cmds), 3))
    if page and "html" in cmds and "html" not in some:
        some[0] = "html"
    for c in some:
        n += judge(ctx, rng, out, c, what, bad, ok, "in.svd", good)
    if n:
        out.tags["kind:" + kind] += 1
        out.nontrivial = True
        out.key = (what, devs.facts(d))
        out.sample = {"damage": what, "commands": cmds}


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
