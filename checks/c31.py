"""C31: a format configuration changes number notation, letter case of names and sibling order as it says, nothing else."""
import json
import re
import sys
import xml.etree.ElementTree as ET

from kit import dev as devs
from kit import model, patchdiff, runner
from kit.runner import Violation
from kit.yamlout import dump

PID = "C31"
LEVEL = "exploration"
RULE = ("a case counts if a configuration with at least one key was applied and its output compared element by element "
        "with the unformatted output, or if a configuration that must be refused was; two cases are the same if they use "
        "the same command, configuration keys and values and devices of the same structure")
CASES = {"quick": 1200, "thorough": 40000}
NUMS = ("UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin")
CASESTYLE = ("Camel", "Pascal", "Snake", "Constant")
NUMKEYS = {"peripheral_base_address": "UpperHex8", "address_block_offset": "UpperHex", "address_block_size": "UpperHex",
           "cluster_address_offset": "UpperHex", "register_address_offset": "UpperHex", "register_size": "LowerHex",
           "register_reset_value": "UpperHex16", "register_reset_mask": "UpperHex16", "enumerated_value_value": "Dec",
           "dim_dim": "Dec", "dim_increment": "UpperHex"}
NAMEKEYS = ("peripheral_name", "interrupt_name", "cluster_name", "register_name", "field_name", "enumerated_values_name",
            "enumerated_value_name", "dim_array_index_header_enum_name")
SORTS = ("", "Offset", "OffsetReversed", "Name")
BITS = ("BitRange", "OffsetWidth", "MsbLsb")
MUST_SEE = ("convert", "patch", "default_format", "json_config", "yaml_config", "no_effect_on_yaml_json", "refused:value",
            "refused:extension", "refused:missing", "refused:syntax", "unknown_key", "reordered", "recased") + tuple(
    "key:" + k for k in list(NUMKEYS) + list(NAMEKEYS) + ["peripheral_sorting", "register_cluster_sorting",
                                                          "field_sorting", "field_bit_range"])


def number(v, f):
    if f == "Dec":
        return "%d" % v
    if f == "Bin":
        return "0b" + bin(v)[2:]
    s = ("%X" if f.startswith("Upper") else "%x") % v
    if f.endswith("8"):
        s = s.rjust(8, "0")
    if f.endswith("16"):
        s = s.rjust(16 if v >> 32 else 8, "0")
    return "0x" + s


def config(rng):
    c = {}
    for k in NUMKEYS:
        if rng.random() < 0.35:
            c[k] = rng.choice(NUMS)
    for k in NAMEKEYS:
        if rng.random() < 0.3:
            c[k] = rng.choice(CASESTYLE)
    if rng.random() < 0.35:
        c["field_bit_range"] = rng.choice(BITS)
    for k in ("peripheral_sorting", "register_cluster_sorting", "field_sorting"):
        if rng.random() < 0.35:
            ps = [rng.choice(SORTS), rng.choice(("", "DerivedLast"))]
            if k.startswith("reg"):
                ps.append(rng.choice(("", "RegistersFirst", "ClustersFirst")))
            rng.shuffle(ps)
            c[k] = ",".join(p for p in ps if p)
    return c


class Name:
    """A name that may be written in another case."""
    def __init__(self, text, style):
        self.text, self.style = text, style


def fold(s):
    return re.sub(r"[-_ ]", "", s).lower()


def fits(n, got):
    if n.style is None:
        return got == n.text
    if fold(got) != fold(n.text):
        return False
    g = got.replace("%s", "")
    if n.style == "Snake":
        return g == g.lower()
    if n.style == "Constant":
        return g == g.upper()
    if "_" in g or "-" in g or " " in g:
        return False
    a = next((c for c in g if c.isalpha()), None)
    if a is None or not g[0].isalpha():
        return True
    return g[0].islower() if n.style == "Camel" else g[0].isupper()


def val(e, tag):
    return model.parse_num(e.find(tag).text)


def name(e):
    return e.find("name").text or ""


def bitoff(e):
    if e.find("bitRange") is not None:
        return int(e.find("bitRange").text.strip()[1:-1].split(":")[1])
    if e.find("lsb") is not None:
        return val(e, "lsb")
    return val(e, "bitOffset")


def order(nodes, how, key, enum_too=False):
    parts = how.split(",")
    if "DerivedLast" in parts:
        def derived(n):
            return "derivedFrom" in n.attrib or enum_too and any("derivedFrom" in x.attrib
                                                                 for x in n.findall("enumeratedValues"))
        rest = ",".join(p for p in parts if p != "DerivedLast")
        return order([n for n in nodes if not derived(n)], rest, key) + order([n for n in nodes if derived(n)], rest, key)
    if "Offset" in parts:
        return sorted(nodes, key=key)
    if "OffsetReversed" in parts:
        return sorted(nodes, key=lambda n: -key(n))
    if "Name" in parts:
        return sorted(nodes, key=lambda n: name(n).encode())
    return list(nodes)


def tree(e, c, parent=None):
    """What the configuration makes of a node: (tag, attributes, text or None, children)."""
    t = e.tag
    kids = list(e)
    at = {}
    for k, v in e.attrib.items():
        st = {"peripheral": "peripheral_name", "cluster": "cluster_name", "register": "register_name",
              "field": "field_name", "enumeratedValues": "enumerated_values_name"}.get(t)
        at[k] = Name(v, c.get(st)) if k == "derivedFrom" else v
    if not kids:
        text = e.text or ""
        nk = {("peripheral", "baseAddress"): "peripheral_base_address", ("addressBlock", "offset"): "address_block_offset",
              ("addressBlock", "size"): "address_block_size", ("cluster", "addressOffset"): "cluster_address_offset",
              ("register", "addressOffset"): "register_address_offset",
              ("enumeratedValue", "value"): "enumerated_value_value"}.get((parent, t))
        if parent in ("device", "peripheral", "cluster", "register"):
            nk = nk or {"size": "register_size", "resetValue": "register_reset_value",
                        "resetMask": "register_reset_mask"}.get(t)
        nk = nk or {"dim": "dim_dim", "dimIncrement": "dim_increment"}.get(t)
        if nk:
            return t, at, number(model.parse_num(text), c.get(nk, NUMKEYS[nk])), []
        st = {("peripheral", "name"): "peripheral_name", ("peripheral", "alternatePeripheral"): "peripheral_name",
              ("peripheral", "prependToName"): "peripheral_name", ("peripheral", "appendToName"): "peripheral_name",
              ("peripheral", "headerStructName"): "peripheral_name", ("interrupt", "name"): "interrupt_name",
              ("cluster", "name"): "cluster_name", ("cluster", "alternateCluster"): "cluster_name",
              ("register", "name"): "register_name", ("register", "alternateRegister"): "register_name",
              ("field", "name"): "field_name", ("enumeratedValues", "name"): "enumerated_values_name",
              ("enumeratedValue", "name"): "enumerated_value_name",
              ("dimArrayIndex", "headerEnumName"): "dim_array_index_header_enum_name"}.get((parent, t))
        if st:
            return t, at, Name(text, c.get(st)), []
        return t, at, text, []
    if t == "peripherals":
        kids = order(kids, c.get("peripheral_sorting", ""), lambda p: val(p, "baseAddress"))
    elif t == "fields":
        kids = order(kids, c.get("field_sorting", ""), bitoff, True)
    elif t == "registers":
        how = c.get("register_cluster_sorting", "")

        def key(x):
            return val(x, "addressOffset")
        ps = how.split(",")
        if "RegistersFirst" in ps or "ClustersFirst" in ps:
            a = order([k for k in kids if k.tag == "register"], how, key)
            b = order([k for k in kids if k.tag == "cluster"], how, key)
            kids = a + b if "RegistersFirst" in ps else b + a
        else:
            kids = order(kids, how, key)
    out = [tree(k, c, t) for k in kids]
    if t == "field" and "field_bit_range" in c:
        out = bits(e, out, c["field_bit_range"])
    return t, at, None, out


def bits(e, out, how):
    off = bitoff(e)
    if e.find("bitRange") is not None:
        hi = int(e.find("bitRange").text.strip()[1:-1].split(":")[0])
    elif e.find("msb") is not None:
        hi = val(e, "msb")
    else:
        hi = off + val(e, "bitWidth") - 1
    tags = ("bitRange", "lsb", "msb", "bitOffset", "bitWidth")
    at = next(i for i, x in enumerate(out) if x[0] in tags)
    rest = [x for x in out if x[0] not in tags]
    new = {"BitRange": [("bitRange", "[%d:%d]" % (hi, off))], "MsbLsb": [("lsb", "%d" % off), ("msb", "%d" % hi)],
           "OffsetWidth": [("bitOffset", "%d" % off), ("bitWidth", "%d" % (hi - off + 1))]}[how]
    return rest[:at] + [(a, {}, b, []) for a, b in new] + rest[at:]


def compare(exp, got, path=""):
    t, at, text, kids = exp
    p = "%s/%s" % (path, t)
    if got.tag != t:
        return "%s: found <%s>" % (p, got.tag)
    if set(at) != set(got.attrib):
        return "%s: attributes %s, expected %s" % (p, sorted(got.attrib), sorted(at))
    for k, v in at.items():
        if isinstance(v, Name) and not fits(v, got.attrib[k]) or not isinstance(v, Name) and v != got.attrib[k]:
            return "%s@%s: %r written as %r (%s)" % (p, k, getattr(v, "text", v), got.attrib[k], getattr(v, "style", None))
    g = list(got)
    if text is not None:
        if g:
            return "%s: unexpected children" % p
        gt = got.text or ""
        if isinstance(text, Name):
            if not fits(text, gt):
                return "%s: name %r written as %r (%s)" % (p, text.text, gt, text.style)
        elif gt != text:
            return "%s: expected %r, got %r" % (p, text, gt)
        return None
    if len(g) != len(kids):
        return "%s: %d children, expected %d" % (p, len(g), len(kids))
    for a, b in zip(kids, g):
        r = compare(a, b, p)
        if r:
            return r
    return None


def raw_number(base, dev_numbers):
    """Does the unformatted output use the default notations?"""
    return compare(tree(base, {}), base)


def case(ctx, rng, i, out):
    cmdname = "patch" if i % 3 == 1 else "convert"
    c = config(rng)
    if i % 10 == 9:
        return refused(ctx, rng, cmdname, c, out)
    if cmdname == "patch":
        pr = patchdiff.make(rng, {"modify": 2, "add": 2, "delete": 1, "f_modify": 2, "f_enum": 1, "array": 1, "copy": 1}, 3,
                            size=1, refuse=0, other=False)
        args = patchdiff.write_case(ctx, pr, None)
        d = pr.dev
    else:
        d = devs.make(rng, parts=("text", "dai", "ai", "far", "clu", "prot", "cpu", "per"))
        if rng.random() < 0.3:
            rng.shuffle(d["peripherals"])
            for p in d["peripherals"]:
                rng.shuffle(p["children"])
        ctx.write("dev.svd", model.write_device(d))
        args = ["convert", "dev.svd"]
    rc, so, er = ctx.run(args + ["base.svd"])
    if rc != 0:
        if cmdname == "patch":
            out.tags["base_refused"] += 1
            return
        raise Violation("plain run refused: %s" % er.decode("utf8", "replace")[-500:], cmd=["svdtools"] + args)
    base = ET.fromstring(ctx.read("base.svd"))
    r = compare(tree(base, {}), base)
    if r:
        raise Violation("without configuration: %s" % r, cmd=["svdtools"] + args)
    out.tags["default_format"] += 1
    js = rng.random() < 0.5
    cf = "fmt." + (rng.choice(("json", "JSON")) if js else rng.choice(("yaml", "yml", "YAML")))
    full = dict(c)
    if rng.random() < 0.1:
        full["not_a_key"] = "UpperHex"
        out.tags["unknown_key"] += 1
    ks = list(full)
    rng.shuffle(ks)
    full = {k: full[k] for k in ks}
    ctx.write(cf, json.dumps(full) if js else dump(full) if full else "{}\n")
    out.tags["json_config" if js else "yaml_config"] += 1
    before = {n: ctx.read(n) for n in (cf, "dev.svd")}
    opt = ["--format-config", cf]
    a = [args[0]] + opt + args[1:] + ["out.svd"] if rng.random() < 0.5 else args + ["out.svd"] + opt
    rc, so, er = ctx.run(a)
    cmd = ["svdtools"] + a
    if rc != 0:
        raise Violation("refused with a configuration: %s" % er.decode("utf8", "replace")[-500:], cmd=cmd)
    if ctx.read("out.svd") is None:
        raise Violation("no output", cmd=cmd)
    try:
        got = ET.fromstring(ctx.read("out.svd"))
    except ET.ParseError as e:
        raise Violation("output is not XML: %s" % e, cmd=cmd)
    r = compare(tree(base, c), got)
    if r:
        raise Violation("%s with configuration %s: %s" % (cmdname, c, r), cmd=cmd)
    for n, b in before.items():
        if ctx.read(n) != b:
            raise Violation("%s was changed" % n, cmd=cmd)
    out.tags[cmdname] += 1
    for k in c:
        out.tags["key:" + k] += 1
    if [x.tag + name(x) for x in base.iter() if x.tag in ("register", "field", "peripheral")] != [
            x.tag + name(x) for x in got.iter() if x.tag in ("register", "field", "peripheral")]:
        out.tags["recased" if not any("sorting" in k for k in c) else "reordered"] += 1
    if cmdname == "convert" and rng.random() < 0.25:
        for f in ("yaml", "json"):
            ctx.run(["convert", "dev.svd", "p." + f])
            rc, so, er = ctx.run(["convert", "dev.svd", "q." + f] + opt)
            if rc != 0 or ctx.read("p." + f) != ctx.read("q." + f):
                raise Violation("the configuration changed the %s output" % f, cmd=["convert", "dev.svd", "q." + f] + opt)
        out.tags["no_effect_on_yaml_json"] += 1
    out.nontrivial = bool(c)
    out.key = (cmdname, tuple(sorted(c.items())), devs.facts(d))
    out.sample = {"configuration": c, "command": cmdname}


def refused(ctx, rng, cmdname, c, out):
    d = devs.make(rng, size=0)
    ctx.write("dev.svd", model.write_device(d))
    ctx.write("patch.yaml", dump({"_svd": "dev.svd"}))
    args = ["convert", "dev.svd"] if cmdname == "convert" else ["patch", "patch.yaml"]
    k = rng.choice(("value", "extension", "missing", "syntax"))
    cf, body = "fmt.yaml", dump(c) if c else "{}\n"
    if k == "value":
        bad = rng.choice([("register_size", "hex"), ("field_name", "upper"), ("peripheral_name", "camel"),
                          ("dim_dim", "UpperHex32"), ("field_bit_range", "offset"), ("enumerated_value_value", ""),
                          ("register_name", "Constants")])
        c[bad[0]] = bad[1]
        body = dump(c)
    elif k == "extension":
        cf = rng.choice(("fmt", "fmt.txt", "fmt.toml", "fmt.yaml.bak", "fmt.Json"))
    elif k == "syntax":
        cf, body = rng.choice([("fmt.json", "{\"dim_dim\": "), ("fmt.yaml", "- dim_dim\n"), ("fmt.json", "register_size: Dec\n"),
                               ("fmt.yaml", "dim_dim: [Dec]\n")])
    if k != "missing":
        ctx.write(cf, body)
    old = b"kept\n" if rng.random() < 0.5 else None
    if old:
        ctx.write("out.svd", old)
    args += ["out.svd", "--format-config", cf]
    rc, so, er = ctx.run(args)
    cmd = ["svdtools"] + args
    if rc == 0:
        raise Violation("a bad configuration (%s: %s) was accepted" % (cf, body.strip()), cmd=cmd)
    if ctx.read("out.svd") != old:
        raise Violation("refused because of its configuration (%s), but the output was touched" % k, cmd=cmd)
    out.tags["refused:" + k] += 1
    out.nontrivial = True
    out.key = ("refused", cmdname, k, cf, body)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
