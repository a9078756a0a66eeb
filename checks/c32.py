"""C32: post-validation rejects exactly the invalid results and leaves valid ones unchanged."""
import re
import sys
import xml.etree.ElementTree as ET

from kit import dev as devs
from kit import gen, model, patchdiff, runner
from kit.runner import Violation
from kit.yamlout import dump

PID = "C32"
LEVEL = "exploration"
RULE = ("a case counts if the same patch was run with and without post-validation and the written result was judged by an "
        "independent validator; two cases are the same if they have the same findings and devices of the same structure")
CASES = {"quick": 2400, "thorough": 80000}
KINDS = ("name:peripheral", "name:cluster", "name:register", "name:field", "name:value", "name:values",
         "name:alternateGroup", "name:alternateRegister", "derived:peripheral", "derived:register", "derived:field",
         "derived:cluster", "derived:values", "empty:registers", "empty:cluster", "empty:values", "empty:device",
         "zero_width", "value_range", "no_value", "value_and_default", "usages", "constraint_range", "constraint_order",
         "reset_value", "reset_mask", "mask_conflict")
MUST_SEE = ("valid", "invalid", "from_patch", "from_source") + tuple("found:" + k for k in KINDS)
DIMABLE = re.compile(r"(%s|%s[_A-Za-z][_A-Za-z0-9]*|[_A-Za-z][_A-Za-z0-9]*(\[%s\])?|[_A-Za-z][_A-Za-z0-9]*(%s)?[_A-Za-z0-9]*)\Z")
PLAIN = re.compile(r"[_A-Za-z0-9]*\Z")
BADNAMES = ("BAD-NAME", "1ABC", "A.B", "A%sB%s", "A B", "x[%s]y", "[%s]", "A(1)", "%s1", "Ä", "A$", "A[1]", "9")
BADPLAIN = ("a-b", "a b", "x.y", "V+", "%s", "a/b", "é", "(x)")


def props(n, add):
    size, rv, rm = n.get("size"), n.get("resetValue"), n.get("resetMask")
    if size is not None and rv is not None and rv.bit_length() > size:
        add("reset_value")
    if size is not None and rm is not None and rm.bit_length() > size:
        add("reset_mask")
    if rv is not None and rm is not None and rv & ~rm:
        add("mask_conflict")


def dotted(s):
    return all(DIMABLE.match(x) for x in s.split("."))


def usage(e):
    return None if "derivedFrom" in e else e.get("usage", "read-write")


def field(f, add):
    if not DIMABLE.match(f["name"]):
        add("name:field")
    if not dotted(f.get("derivedFrom", "A")):
        add("derived:field")
    if f["width"] <= 0:
        add("zero_width")
    top = 1 << f["width"] if f["width"] < 64 else 1 << 64
    for e in f["enums"]:
        if not PLAIN.match(e.get("name", "")):
            add("name:values")
        if not dotted(e.get("derivedFrom", "A")):
            add("derived:values")
        elif "derivedFrom" not in e and not e["values"]:
            add("empty:values")
        for v in e["values"]:
            if not PLAIN.match(v["name"]):
                add("name:value")
            if "value" not in v and not v.get("isDefault"):
                add("no_value")
            if "value" in v and v.get("isDefault"):
                add("value_and_default")
            if "value" in v and v["value"] >= top:
                add("value_range")
    es = [usage(e) for e in f["enums"]]
    if len(es) > 2:
        add("usages")
    elif len(es) == 2 and not any(a in (None, "read") and b in (None, "write") for a, b in (es, es[::-1])):
        add("usages")
    wc = f.get("wc")
    if wc and wc[0] == "range" and f["width"] < 64:
        if wc[1] > wc[2]:
            add("constraint_order")
        elif wc[2] >= top:
            add("constraint_range")


def block(children, add, skip):
    for c in children:
        props(c, add)
        if c["k"] == "register":
            if not DIMABLE.match(c["name"]):
                add("name:register")
            if not PLAIN.match(c.get("alternateGroup", "")):
                add("name:alternateGroup")
            if not DIMABLE.match(c.get("alternateRegister", "A")):
                add("name:alternateRegister")
            if not dotted(c.get("derivedFrom", "A")):
                add("derived:register")
            for f in c["fields"]:
                field(f, add)
        else:
            if not DIMABLE.match(c["name"]):
                add("name:cluster")
            if not dotted(c.get("derivedFrom", "A")):
                add("derived:cluster")
            if "derivedFrom" not in c and not c["children"]:
                add("empty:cluster")
            block(c["children"], add, skip)


def judge(d, raw):
    s = set()
    add = s.add
    props(d, add)
    if not d["peripherals"]:
        add("empty:device")
    empty = set()
    for p in ET.fromstring(raw).find("peripherals"):
        r = p.find("registers")
        if r is not None and not len(r) and "derivedFrom" not in p.attrib:
            add("empty:registers")
    for p in d["peripherals"]:
        props(p, add)
        if not DIMABLE.match(p["name"]):
            add("name:peripheral")
        if not DIMABLE.match(p.get("derivedFrom", "A")):
            add("derived:peripheral")
        block(p["children"], add, empty)
    return s


def clean(d):
    """A device the validator has nothing to say about (as far as possible)."""
    def f(n):
        if isinstance(n, dict):
            if n.get("k") in ("device", "peripheral", "cluster", "register"):
                if "resetValue" in n:
                    m = (1 << min(n.get("size", 64), 64)) - 1
                    n["resetValue"] &= m
                    if "resetMask" in n:
                        n["resetMask"] &= m
                        n["resetValue"] &= n["resetMask"]
                elif "resetMask" in n and "size" in n:
                    n["resetMask"] &= (1 << n["size"]) - 1
                if n.get("k") == "cluster" and not n["children"] and "derivedFrom" not in n:
                    n["children"].append({"k": "register", "name": "FILL", "addressOffset": 0, "fields": []})
            if n.get("k") == "field":
                if n.get("wc", [0])[0] == "range":
                    t = (1 << n["width"]) - 1
                    n["wc"] = ["range", min(n["wc"][1], t), min(max(n["wc"][1:]), t)]
                for e in n["enums"]:
                    e["values"] = [v for v in e["values"] if v.get("value", 0) < 1 << n["width"]]
                    for v in e["values"]:
                        if "value" in v:
                            v.pop("isDefault", None)
                    if not e["values"] and "derivedFrom" not in e:
                        e["values"] = [{"name": "Z", "value": 0}]
                if len(n["enums"]) == 2 and not any("derivedFrom" in e for e in n["enums"]):
                    n["enums"][0]["usage"], n["enums"][1]["usage"] = "read", "write"
            for v in n.values():
                f(v)
        elif isinstance(n, list):
            for v in n:
                f(v)
    f(d)
    d["peripherals"] = d["peripherals"] or []


def collect(d):
    r = {"peripheral": [], "cluster": [], "register": [], "field": []}

    def walk(cs):
        for c in cs:
            r[c["k"]].append(c)
            if c["k"] == "register":
                r["field"].extend(c["fields"])
            else:
                walk(c["children"])
    for p in d["peripherals"]:
        r["peripheral"].append(p)
        walk(p["children"])
    return r


def poison(rng, d, k):
    """Break one rule in the device; False if there is no place for it."""
    n = collect(d)
    w = k.split(":")[-1]
    big = [1, rng.choice([2, 3, 8, 1 << 16])]
    fs = n["field"]
    ch = rng.choice
    if k.startswith("name:") and w in n or k.startswith("derived:") and w in n:
        if not n[w]:
            return False
        x = ch(n[w])
        b = ch(BADNAMES)
        if k.startswith("name:"):
            x["name"] = b
        else:
            x["derivedFrom"] = b if w == "peripheral" else ch([b, "AA." + b, b + ".BB"]).replace("A.B", "A-B")
        return True
    if k in ("name:alternateGroup", "name:alternateRegister"):
        if not n["register"]:
            return False
        ch(n["register"])[w] = ch(BADPLAIN if w == "alternateGroup" else BADNAMES)
        return True
    if k == "empty:registers":
        ps = [p for p in n["peripheral"] if "derivedFrom" not in p]
        if not ps:
            return False
        p = ch(ps)
        p["children"], p["empty_registers"] = [], True
        return True
    if k == "empty:cluster":
        cs = [c for c in n["cluster"] if "derivedFrom" not in c]
        if not cs:
            return False
        ch(cs)["children"] = []
        return True
    if k in ("reset_value", "reset_mask", "mask_conflict"):
        x = ch(n["peripheral"] + n["register"] + n["cluster"] + [d])
        if k == "mask_conflict":
            x["resetValue"], x["resetMask"] = 5, ch([1, 4, 0xF0, 0])
            x["size"] = 32
        elif k == "reset_value":
            x["size"], x["resetValue"] = ch([8, 16, 32]), 0
            x["resetValue"] = 1 << x["size"] + ch([0, 0, 3])
            x.pop("resetMask", None)
        else:
            x["size"], x["resetValue"] = ch([8, 16, 32]), 0
            x["resetMask"] = 1 << x["size"] + ch([0, 0, 3])
        return True
    es = [(f, e) for f in fs for e in f["enums"] if e["values"]]
    if k in ("name:values", "derived:values", "empty:values", "name:value", "no_value", "value_and_default",
             "value_range") and not es:
        return False
    if k == "name:values":
        ch(es)[1]["name"] = ch(BADPLAIN)
    elif k == "derived:values":
        e = ch(es)[1]
        e["derivedFrom"], e["values"] = ch(["A-B", "A.1", "X.Y Z", "R.F.E%"]), []
    elif k == "empty:values":
        ch(es)[1]["values"] = []
    elif k == "name:value":
        ch(ch(es)[1]["values"])["name"] = ch(BADPLAIN)
    elif k == "no_value":
        v = ch(ch(es)[1]["values"])
        v.pop("value", None)
        v.pop("isDefault", None)
        if rng.random() < 0.3:
            v["isDefault"] = False
    elif k == "value_and_default":
        v = ch(ch(es)[1]["values"])
        v["value"], v["isDefault"] = 0, True
    elif k == "value_range":
        f, e = ch(es)
        if f["width"] > 60:
            return False
        v = ch(e["values"])
        v.pop("isDefault", None)
        v["value"] = (1 << f["width"]) + ch([0, 0, 1, 5])
    elif k == "zero_width":
        fs = [f for f in fs if not f["enums"] and "wc" not in f]
        if not fs:
            return False
        f = ch(fs)
        f["width"], f["br"] = 0, "offset"
    elif k == "usages":
        f, e = ch(es) if es else (None, None)
        if f is None:
            return False
        e = model.clone(e)
        e.pop("derivedFrom", None)
        a, b = ch([("read", "read"), ("write", "write"), ("read-write", "write"), ("read", "read-write"),
                   (None, "read"), (None, None)])
        f["enums"] = [model.clone(e), model.clone(e)]
        for x, u in zip(f["enums"], (a, b)):
            x.pop("usage", None)
            if u:
                x["usage"] = u
        if rng.random() < 0.2:
            f["enums"][0]["usage"], f["enums"][1]["usage"] = "read", "write"
            f["enums"].append(model.clone(e))
    elif k in ("constraint_range", "constraint_order"):
        fs = [f for f in fs if 1 < f["width"] < 60]
        if not fs:
            return False
        f = ch(fs)
        t = 1 << f["width"]
        f["wc"] = ["range", 0, t + ch([0, 0, 1])] if k == "constraint_range" else ["range", 2, ch([0, 1])]
    else:
        return False
    return True


def by_patch(rng, d):
    """A patch that makes something invalid (or nearly)."""
    n = collect(d)
    ps = [p for p in n["peripheral"] if "dim" not in p and "derivedFrom" not in p and p["children"]]
    if not ps:
        return None
    p = rng.choice(ps)
    regs = [c for c in p["children"] if c["k"] == "register"]
    k = rng.choice(("name", "delete", "narrow", "reset", "enum", "size", "field_name", "value_name", "wc", "all"))
    if k == "all":
        return {"_delete": ["*"]}
    if k == "delete":
        return {p["name"]: {"_delete": {"_registers": ["*"], "_clusters": ["?~*"]}}}
    if not regs:
        return None
    r = rng.choice(regs)
    if k == "name":
        return {p["name"]: {"_modify": {r["name"]: {"name": rng.choice(BADNAMES + ("FINE", "_x9", "A%s"))}}}}
    if k == "reset":
        return {p["name"]: {"_modify": {r["name"]: {"size": rng.choice([8, 16]), "resetValue": rng.choice(
            [255, 256, 65535, 65536, 0])}}}}
    if k == "size":
        return {p["name"]: {"_modify": {r["name"]: {"size": rng.choice([8, 16, 32])}}}}
    fs = [f for f in r["fields"] if "dim" not in f]
    if not fs:
        return None
    f = rng.choice(fs)
    if k == "narrow":
        return {p["name"]: {r["name"]: {"_modify": {f["name"]: {"bitWidth": rng.choice([0, 1, max(1, f["width"] - 1)])}}}}}
    if k == "field_name":
        return {p["name"]: {r["name"]: {"_modify": {f["name"]: {"name": rng.choice(BADNAMES + ("OKAY",))}}}}}
    if k == "wc":
        return {p["name"]: {r["name"]: {f["name"]: [rng.choice([0, 3]), rng.choice([1, 2, 1 << f["width"], (1 << f["width"]) - 1])]}}}
    nm = rng.choice(["ok", "V+1", "9", "a-b"]) if k == "value_name" else "v"
    v = rng.choice([0, (1 << f["width"]) - 1, 1 << f["width"]])
    return {p["name"]: {r["name"]: {f["name"]: {nm: [v, "text"]}}}}


def case(ctx, rng, i, out):
    d = devs.make(rng, size=rng.choice([0, 1, 1]), enrich=rng.random() < 0.3, unique=True)
    clean(d)
    y = {"_svd": "dev.svd"}
    mode = i % 4
    if mode == 0:
        p = by_patch(rng, d)
        if p:
            y.update(p)
        out.tags["from_patch"] += 1
    elif mode in (1, 2):
        k = KINDS[(i // 4 * 2 + mode - 1) % len(KINDS)]
        if k == "empty:device":
            y["_delete"] = ["*"]
        else:
            poison(rng, d, k)
        out.tags["from_source"] += 1
    else:
        pr = patchdiff.make(rng, {"modify": 3, "f_modify": 3, "f_add": 2, "f_enum": 3, "add": 2, "f_wc": 2, "delete": 1}, 3,
                            size=1, refuse=0, other=False, dev=d)
        y.update(pr.y)
    ctx.write("dev.svd", model.write_device(d))
    ctx.write("patch.yaml", dump(y))
    rc0, so, er0 = ctx.run(["patch", "patch.yaml", "plain.svd"])
    if rc0 != 0:
        out.tags["base_refused"] += 1
        rc, so, er = ctx.run(["patch", "--post-validate", "patch.yaml", "val.svd"])
        if rc == 0:
            raise Violation("refused without, but accepted with post-validation", cmd=["patch", "patch.yaml"])
        return
    raw = ctx.read("plain.svd")
    try:
        m = model.read_device(raw.decode("utf8"))
    except (model.ModelError, UnicodeDecodeError) as e:
        raise Violation("unreadable output: %s" % e, cmd=["patch", "patch.yaml"])
    bad = judge(m, raw)
    emptied = {c["name"] for c in collect(d)["register"] if c["fields"]} & {
        c["name"] for c in collect(m)["register"] if not c["fields"] and "derivedFrom" not in c}
    old = b"kept\n" if rng.random() < 0.4 else None
    if old:
        ctx.write("val.svd", old)
    args = ["patch", "--post-validate", "patch.yaml", "val.svd"]
    if rng.random() < 0.5:
        args = ["patch", "patch.yaml", "val.svd", "--post-validate"]
    rc, so, er = ctx.run(args)
    cmd = ["svdtools"] + args
    got = ctx.read("val.svd")
    if bad:
        if rc == 0:
            raise Violation("an invalid result (%s) passed post-validation" % ", ".join(sorted(bad)), cmd=cmd)
        if got != old:
            raise Violation("the result was refused (%s) but written" % ", ".join(sorted(bad)), cmd=cmd)
        if not er.strip():
            raise Violation("refused without a diagnostic", cmd=cmd)
        out.tags["invalid"] += 1
        for b in bad:
            out.tags["found:" + b] += 1
    elif rc != 0:
        if emptied:
            out.tags["emptied_fields"] += 1
            return
        raise Violation("a valid result was refused: %s" % er.decode("utf8", "replace")[-500:], cmd=cmd)
    else:
        if got != raw:
            raise Violation("post-validation changed the result", cmd=cmd)
        out.tags["valid"] += 1
    out.nontrivial = True
    out.key = (tuple(sorted(bad)), devs.facts(m))
    out.sample = {"findings": sorted(bad), "patch": dump(y)[:500]}


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
