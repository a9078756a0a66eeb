"""Makes a generated device richer: texts that need quoting, array descriptions, references across blocks, derived
clusters, protection, headers of enumerations, further cpu attributes."""
from .gen import blocks
from .model import clone

TEXTS = ["a & b <c> \"q\" 'x'", "two  spaces", "line1\nline2", "line\n\n  indented", "tab\tx", "yes", "null", "~", "123",
         "0x10", "1e3", "- item", "key: v", "# hash", "*ref", "&anc", "!tag", "%pct", "{a}", "[b]", "a: b # c", "é ü 漢",
         "\U0001f680", "'quoted'", '"dq"', "back\\slash", "true", "2020-01-01", ".5", "=", "|", "> f", "@", "`x`", "]]>",
         "a\u2028b", "end:", "? q", ".inf", "007", "1_000", "No", "off", "1:30", "<<", "---", "...", "[", "{",
         ",", "-", "a\u00a0b", "\\n", "-1", "+1", "0.0", "NaN", "Null", "very " * 40 + "long", "x", "\u00b5s", "a\n", "%s",
         "0", "-.5", "1.", "'", '"', "''", "a''b", "#", ":", "- - a", "!!str x", "&amp;", "&#65;", "<!-- c -->"]


def enrich(g, dev, hostile=0.3, parts=("text", "dai", "far", "clu", "prot", "cpu", "per")):
    """Changes dev in place; returns the kinds of things added."""
    seen = set()

    def text(n, k):
        if k in n and g.p(hostile):
            n[k] = g.ch(TEXTS).strip() or "x"
            seen.add("text")
    for k in ("vendor", "description", "licenseText", "series"):
        text(dev, k)
    if "prot" in parts and g.p(0.15):
        dev["protection"] = g.ch("snp")
        seen.add("protection")
    if "cpu" in parts and "cpu" in dev:
        for k in ("icachePresent", "dcachePresent", "itcmPresent", "dtcmPresent"):
            if g.p(0.3):
                dev["cpu"][k] = g.p(0.5)
                seen.add("cpu")
        if g.p(0.2):
            dev["cpu"]["sauNumRegions"] = g.r.randint(0, 200)
    pers = [p for p in dev["peripherals"] if "dim" not in p and p["children"] and "derivedFrom" not in p]
    for p in dev["peripherals"]:
        text(p, "description")
        if "per" in parts:
            if "derivedFrom" not in p and g.p(0.1):
                p["alternatePeripheral"] = g.ch(["ALT", "OTHER"])
                seen.add("alternatePeripheral")
            if g.p(0.08):
                p["appendToName"] = "_X"
        if "prot" in parts:
            if g.p(0.08) and "derivedFrom" not in p:
                p["protection"] = g.ch("snp")
                seen.add("protection")
            for a in p["addressBlocks"]:
                if g.p(0.1):
                    a["protection"] = g.ch("snp")
        for i in p["interrupts"]:
            text(i, "description")
        for b in blocks(p):
            if b is not p:
                text(b, "description")
            regs = [c for c in b["children"] if c["k"] == "register"]
            for c in b["children"]:
                if "dim" in c and "dai" in parts:
                    if g.p(0.25):
                        c["dim"]["name"] = "DimName"
                        seen.add("dimName")
                if "dim" in c and "ai" in parts and g.p(0.2):
                    n = c["dim"]["dim"]
                    c["dim"]["arrayIndex"] = {"values": [
                        {"name": "I%d" % k, "value": k} for k in range(n) if g.p(0.9)] or [{"name": "I0", "value": 0}]}
                    if g.p(0.5):
                        c["dim"]["arrayIndex"]["headerEnumName"] = "IdxEnum"
                    if g.p(0.5):
                        c["dim"]["arrayIndex"]["values"][0]["description"] = g.ch(TEXTS).strip() or "x"
                    seen.add("dimArrayIndex")
                if c["k"] == "register":
                    text(c, "description")
                    if "prot" in parts and g.p(0.05):
                        c["protection"] = g.ch("snp")
                        seen.add("protection")
                    if g.p(0.04) and "derivedFrom" not in c:
                        c["size"], c["resetValue"] = 64, g.r.getrandbits(62)
                        seen.add("wide")
                    for f in c["fields"]:
                        text(f, "description")
                        for e in f["enums"]:
                            if "hdr" in parts and g.p(0.15):
                                e["headerEnumName"] = "HdrEnum"
                                seen.add("headerEnumName")
                            for v in e["values"]:
                                text(v, "description")
                    if "far" in parts and g.p(0.06) and regs and "derivedFrom" not in c and len(pers) > 1:
                        far(g, dev, pers, p, c, seen)
            clus = [c for c in b["children"] if c["k"] == "cluster"]
            if "clu" in parts and clus and g.p(0.3):
                s = g.ch(clus)
                off = max(c["addressOffset"] for c in b["children"]) + 0x400
                nm = "DC%s" if "dim" in s and g.p(0.5) else "DCLU"
                if not any(c["name"] == nm for c in b["children"]):
                    n = {"k": "cluster", "name": nm, "derivedFrom": s["name"], "addressOffset": off, "children": []}
                    if nm == "DC%s":
                        n["dim"] = {"dim": 2, "inc": 0x100}
                        if g.p(0.5):
                            n["dim"]["index"] = ["0", "1"]
                    if g.p(0.4):
                        n["description"] = g.text()
                    b["children"].append(n)
                    seen.add("derived_cluster")
    return seen


def users(dev, p, r):
    """Is something derived from this register by its name?"""
    for q in dev["peripherals"]:
        for b in blocks(q):
            for c in b["children"]:
                if (c.get("derivedFrom") or "").split(".")[-1] == r["name"]:
                    return True
    return False


def far(g, dev, pers, p, r, seen):
    """Derive a register from one of another peripheral."""
    q = g.ch([x for x in pers if x is not p] or pers)
    ss = [c for c in q["children"] if c["k"] == "register" and "derivedFrom" not in c and "dim" not in c]
    if not ss or q is p or users(dev, p, r) or "dim" in r:
        return
    s = g.ch(ss)
    if any("derivedFrom" in f or any("derivedFrom" in e for e in f["enums"]) for f in s["fields"]):
        return
    r["derivedFrom"] = "%s.%s" % (q["name"], s["name"])
    r["fields"] = []
    seen.add("far_register")


def crossed(dev, rng):
    """A field derived from one of another register, whose values are derived from those of its neighbour there."""
    ps = [p for p in dev["peripherals"] if p["children"] and "%" not in p["name"]]
    if not ps:
        return False
    p, q = rng.choice(ps), rng.choice(ps)

    def evs(n):
        return {"name": n, "values": [{"name": "%s_%d" % (n, v), "value": v} for v in rng.sample(range(4), rng.randint(1, 4))]}

    def fld(n, off, **k):
        return dict({"k": "field", "name": n, "off": off, "width": 2, "br": "offset", "enums": []}, **k)
    two = rng.random() < 0.5
    a = [fld("XF", 0, enums=[evs("XEV")]), fld("XG", 2, enums=[{"derivedFrom": "XF.XEV" if two else "XEV", "values": []}]),
         fld("XH", 4)]
    h = fld(rng.choice(("XI", "XF", "XG")), 4, derivedFrom="%s.XSRC.XG" % p["name"])
    b = [h]
    if rng.random() < 0.6:      # of the same name as what is meant
        b.insert(0, fld("XF" if h["name"] != "XF" else "XJ", 0, enums=[evs("XEV")]))
    if rng.random() < 0.3:
        a[2]["derivedFrom"] = "XG"
    rs = [{"k": "register", "name": "XSRC", "addressOffset": 0xF40, "size": 32, "fields": a},
          {"k": "register", "name": "XDST", "addressOffset": 0xF48, "size": 32, "fields": b}]
    p["children"].append(rs[0])
    q["children"].insert(rng.choice((0, len(q["children"]))), rs[1])
    return True


def plain_refs(dev):
    """REGISTER.FIELD references are left to those who can resolve them."""
    def fx(n):
        if isinstance(n, dict):
            if n.get("k") == "field" and n.get("derivedFrom", "").count(".") == 1:
                n["derivedFrom"] = n["derivedFrom"].split(".")[1]
            for v in n.values():
                fx(v)
        elif isinstance(n, list):
            for v in n:
                fx(v)
    fx(dev)
    return dev
