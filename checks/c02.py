"""C02: a rule name selects exactly the elements whose whole name matches the pattern, in every section."""
import sys

from kit import gen, model, patchdiff, ref, runner
from kit.prop import Prop
from kit.yamlout import dump

PID = "C02"
LEVEL = "exploration"
RULE = ("a case counts if its patterns select some, but not all, of the names at their place; two cases are the same if "
        "they use the same sections with the same shapes of patterns (names replaced by letters)")
CASES = {"quick": 1800, "thorough": 100000}
ALPHA = "AB01_a"
SECTIONS = ("per_delete", "per_modify", "per_modify2", "per_key", "per_clear", "irq_delete", "irq_modify", "reg_delete",
            "reg_delete2", "clu_delete", "reg_modify", "reg_modify2", "clu_modify", "clu_modify2", "reg_key", "clu_key",
            "clu_key2", "reg_clear", "fld_delete", "fld_modify", "fld_clear", "fld_range", "fld_enum", "fld_read",
            "fld_mwv", "reg_derive", "fld_derive", "expand_array", "expand_cluster", "merge", "split", "array", "farray",
            "cluster")
MUST_SEE = SECTIONS


def slow_match(p, n):
    """Independent matcher of one pattern (backtracking, no regular expressions); None: not defined here."""
    if not p:
        return not n
    c = p[0]
    if c == "*":
        return any(slow_match(p[1:], n[i:]) for i in range(len(n) + 1))
    if c == "?":
        return bool(n) and slow_match(p[1:], n[1:])
    if c == "\\":
        return n[:1] == p[1] and slow_match(p[2:], n[1:])
    if c == "[":
        j = p.index("]", 2 if p[1] not in "!^" else 3)
        body, neg = p[1:j], False
        if body[0] in "!^":
            body, neg = body[1:], True
        if not n:
            return False
        hit, k = False, 0
        while k < len(body):
            if k + 2 < len(body) and body[k + 1] == "-":
                hit |= body[k] <= n[0] <= body[k + 2]
                k += 3
            else:
                hit |= n[0] == body[k]
                k += 1
        return hit != neg and slow_match(p[j + 1:], n[1:])
    if c == "{":
        depth, parts, cur, j = 0, [], "", 0
        while True:
            ch = p[j]
            if ch == "\\":
                cur += p[j:j + 2]
                j += 2
                continue
            if ch == "{":
                depth += 1
                if depth > 1:
                    cur += ch
            elif ch == "}":
                depth -= 1
                if depth == 0:
                    parts.append(cur)
                    break
                cur += ch
            elif ch == "," and depth == 1:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
            j += 1
        return any(slow_match(x + p[j + 1:], n) for x in parts)
    return n[:1] == c and slow_match(p[1:], n[1:])


def slow(spec, n):
    if "{" in spec:
        return slow_match(spec, n)
    return any(slow_match(s, n) for s in spec.split(","))


def name(rng):
    n = rng.choice("ABa_") + "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 4)))
    return n


def names(rng, n):
    s = []
    while len(s) < n:
        if s and rng.random() < 0.6:      # a neighbour of a name that is there
            o = rng.choice(s)
            k = rng.randint(0, 4)
            i = rng.randrange(len(o))
            x = (o + rng.choice(ALPHA) if k == 0 else o[:-1] if k == 1 else o[:i] + rng.choice(ALPHA) + o[i + 1:]
                 if k == 2 else rng.choice("AB_a") + o if k == 3 else o.swapcase())
        else:
            x = name(rng)
        if x and len(x) < 8 and x not in s and x[0] not in "01":
            s.append(x)
    return s


def atom(rng, ns, braces, depth=0):
    """A pattern from pieces of the names."""
    if rng.random() < 0.2:
        return "".join(rng.choice(list(ALPHA) + ["*", "?"]) for _ in range(rng.randint(1, 4))).replace("**", "*")
    n = rng.choice(ns)
    out, i = "", 0
    while i < len(n):
        k = rng.random()
        c = n[i]
        if k < 0.45:
            out += c
        elif k < 0.58:
            out += "?"
        elif k < 0.70:
            if not out.endswith("*"):
                out += "*"
            i += rng.randint(0, 2)
            i -= 1
            if i + 1 >= len(n):
                break
        elif k < 0.86:
            other = rng.choice(ALPHA)
            if c.isdigit():
                out += rng.choice(["[0-9]", "[01]", "[!%s]" % rng.choice("AB_"), "[0-%s]" % c, "[%s%s]" % (c, other)])
            elif c in "AB":
                out += rng.choice(["[A-Z]", "[AB]", "[!%s]" % rng.choice("01_"), "[%s-Z]" % c, "[%s%s]" % (c, other),
                                   "[A-C_]", "[^0-9]"])
            else:
                out += rng.choice(["[_%s]" % c, "[a-z_]", "[%s%s]" % (c, other)])
        elif braces and depth < 2:
            m = rng.choice(ns)
            alts = [c, rng.choice([other_piece(rng, m), rng.choice(ALPHA)])]
            if rng.random() < 0.3:
                alts.append(atom(rng, ns, braces, depth + 1))
            rng.shuffle(alts)
            out += "{%s}" % ",".join(alts)
        else:
            out += c
        i += 1
    return out or "*"


def other_piece(rng, m):
    i = rng.randrange(len(m))
    return m[i:i + rng.randint(1, 3)]


def pattern(rng, ns):
    k = rng.random()
    if k < 0.15:
        return rng.choice(ns)
    if k < 0.3:
        return ",".join(atom(rng, ns, False) for _ in range(rng.randint(2, 3)))
    return atom(rng, ns, rng.random() < 0.4)


def device(rng):
    d = {"k": "device", "name": "D", "version": "1.0", "description": "d", "addressUnitBits": 8, "width": 32}
    ps, ia = [], 0
    for pi, pn in enumerate(names(rng, rng.randint(4, 8))):
        p = {"k": "peripheral", "name": pn, "description": "p%d" % pi, "baseAddress": 0x40000000 + 0x1000 * pi,
             "addressBlocks": [], "interrupts": [], "children": [], "hasregs": True}
        for nm in names(rng, rng.randint(1, 5)):
            p["interrupts"].append({"name": nm, "value": ia})
            ia += 1
        p["children"] = block(rng, 0 if pi else 1)
        ps.append(p)
    d["peripherals"] = ps
    return d


def block(rng, clu):
    out = []
    for i, nm in enumerate(names(rng, rng.randint(4, 9))):
        if rng.random() < 0.25 and clu >= 0 or clu == 1 and i < 2:
            c = {"k": "cluster", "name": nm, "description": "c", "addressOffset": 0x40 * i, "children": block(rng, -1)}
            if rng.random() < 0.4:
                c["name"] += "%s"
                c["dim"] = {"dim": 2, "inc": 0x400}
        else:
            c = {"k": "register", "name": nm, "description": "r", "addressOffset": 0x40 * i, "size": 32, "fields": []}
            if rng.random() < 0.3:
                c["name"] += rng.choice(["%s", "[%s]"])
                c["dim"] = {"dim": 2, "inc": 4}
            for j, fn in enumerate(names(rng, rng.randint(2, 6))):
                f = {"k": "field", "name": fn, "description": "f", "off": 3 * j, "width": 2, "enums": []}
                if rng.random() < 0.4:
                    f["enums"] = [{"name": fn, "values": [{"name": "V", "description": "v", "value": 1}]}]
                if rng.random() < 0.3:
                    f["wc"] = ["range", 0, 3]
                c["fields"].append(f)
        out.append(c)
    return out


def esc(n):
    return n.replace("[", "\\[").replace("]", "\\]")


def rule(rng, y, dev, sec):
    """Add one rule of a section; returns (pattern, names it is matched against)."""
    ps = dev["peripherals"]
    pn = [p["name"] for p in ps]
    mark = {"description": "marked"}
    if sec == "per_delete":
        s = pattern(rng, pn)
        y["_delete"] = [s]
        return s, pn
    if sec in ("per_modify", "per_modify2"):
        s = pattern(rng, pn)
        m = y.setdefault("_modify", {})
        if sec == "per_modify2":
            m = m.setdefault("_peripherals", {})
        m[s] = dict(mark)
        return s, pn
    if sec == "per_key":
        s = pattern(rng, pn)
        y[s] = {"_modify": {"*": dict(mark)}}
        return s, pn
    if sec == "per_clear":
        s = pattern(rng, pn)
        y["_clear_fields"] = [s]
        return s, pn
    p = rng.choice(ps) if not sec.startswith(("clu", "expand_cluster")) else ps[0]
    b = y.setdefault(p["name"], {})
    if sec.startswith("irq"):
        ns = [i["name"] for i in p["interrupts"]]
        s = pattern(rng, ns)
        if sec == "irq_delete":
            b["_delete"] = {"_interrupts": [s]}
        else:
            b["_modify"] = {"_interrupts": {s: dict(mark)}}
        return s, ns
    if rng.random() < 0.25 and not sec.startswith(("expand_cluster", "reg_clear")):
        cs = [c for c in p["children"] if c["k"] == "cluster" and "dim" not in c]
        if cs:
            p = rng.choice(cs)
            b = b.setdefault(p["name"], {})
    ch = p["children"]
    rn = [c["name"] for c in ch if c["k"] == "register"]
    cn = [c["name"] for c in ch if c["k"] == "cluster"]
    both = [c["name"] for c in ch]
    if sec.startswith("clu") and not cn or not rn:
        return None
    plain = lambda ns: [n.replace("%s", "").replace("[]", "") for n in ns]
    if sec == "reg_delete":
        s = pattern(rng, plain(both))
        b["_delete"] = [s]
        return s, both
    if sec == "reg_delete2":
        s = pattern(rng, plain(rn))
        b["_delete"] = {"_registers": [s]}
        return s, rn
    if sec == "clu_delete":
        s = pattern(rng, plain(cn))
        b["_delete"] = {"_clusters": ["?~" + s]}
        return s, cn
    if sec in ("reg_modify", "clu_modify"):
        s = pattern(rng, plain(both))
        b["_modify"] = {s: dict(mark)}
        return s, both
    if sec in ("reg_modify2", "clu_modify2"):
        k, ns = ("_registers", rn) if sec[0] == "r" else ("_clusters", cn)
        s = pattern(rng, plain(ns))
        b["_modify"] = {k: {s: dict(mark)}}
        return s, ns
    if sec in ("reg_key", "clu_key", "clu_key2"):
        s = pattern(rng, plain(both if sec != "clu_key2" else cn))
        if sec == "clu_key2":
            b["_clusters"] = {s: {"_modify": {"*": dict(mark)}}}
            return s, cn
        b[s] = {"_modify": {"*": dict(mark)}} if sec == "clu_key" else {"_add": {"NEWF": {"bitOffset": 31, "bitWidth": 1}}}
        return s, both
    if sec == "reg_clear":
        s = pattern(rng, plain(rn))
        b["_clear_fields"] = [s]
        return s, rn
    if sec == "reg_derive":
        src = rng.choice(rn)
        s = pattern(rng, plain([n for n in rn if n != src] or rn))
        if ref.match(src, s):
            return None
        b["_derive"] = {s: src}
        return s, rn
    if sec == "expand_array":
        ns = [c["name"] for c in ch if c["k"] == "register" and "dim" in c]
        if not ns:
            return None
        s = pattern(rng, plain(ns)) + rng.choice(["", "*", "%s", "\\[%s\\]"])
        b["_expand_array"] = {s: {}}
        return s, ns
    if sec == "expand_cluster":
        ns = [c["name"] for c in ch if c["k"] == "cluster" and "dim" in c]
        if not ns:
            return None
        s = pattern(rng, plain(ns)) + rng.choice(["", "*", "%s"])
        b["_expand_cluster"] = {s: {}}
        return s, ns
    if sec in ("array", "cluster"):
        ns = [c["name"] for c in ch if c["k"] == "register" and "dim" not in c]
        t = template(rng, ns)
        if t is None:
            return None
        s, h = t
        h["description"] = "arr"
        if sec == "array":
            b["_array"] = {s: h}
        else:
            b["_cluster"] = {"CL%s": {s: {"name": "IN"}}}
        return s, ns
    r = rng.choice([c for c in ch if c["k"] == "register"])
    ns = [f["name"] for f in r["fields"]]
    rb = b.setdefault(esc(r["name"]), {})
    if not isinstance(rb, dict):
        return None
    if sec == "farray":
        t = template(rng, ns)
        if t is None:
            return None
        s, h = t
        h["description"] = "arr"
        rb["_array"] = {s: h}
        return s, ns
    s = pattern(rng, ns)
    if sec == "fld_delete":
        rb["_delete"] = [s]
    elif sec == "fld_modify":
        rb["_modify"] = {s: dict(mark)}
    elif sec == "fld_clear":
        rb["_clear"] = [s]
    elif sec == "fld_range":
        rb[s] = [1, 2]
    elif sec == "fld_enum":
        rb[s] = {"_replace_enum": {"N": [2, "n"]}}
    elif sec == "fld_read":
        rb[s] = {"_RM": {}}
    elif sec == "fld_mwv":
        rb[s] = {"_W1C": {}}
    elif sec == "fld_derive":
        src = rng.choice(ns)
        if ref.match(src, s):
            return None
        rb["_derive"] = {s: src}
    elif sec == "merge":
        rb["_merge"] = {"MRG": s}
    elif sec == "split":
        rb["_split"] = {s: {"name": "S%s"}}
    return s, ns


def template(rng, ns):
    """A pattern with exactly one index token."""
    if not ns:
        return None
    n = rng.choice(ns)
    i = rng.randrange(len(n))
    tok = rng.choice(["?", "*", "[0-9]", "[01]", "[A-Z]", "[AB]", "[0-1]"])
    s = n[:i] + tok + n[i + rng.randint(0, 1):]
    return s, {"name": "ARR%s"}


def shape(s):
    return "".join("a" if c.isalnum() or c == "_" else c for c in s)


def case(ctx, rng, i, out):
    g = gen.Gen(rng, 1)
    dev = device(rng)
    pr = Prop(g, dev)
    pr.ed_arg = None
    ids, some = [], False
    for _ in range(30):
        if len(ids) >= 3:
            break
        sec = SECTIONS[(i + len(ids) * 7) % len(SECTIONS)] if rng.random() < 0.6 else rng.choice(SECTIONS)
        y = model.clone(pr.y)
        x = rule(rng, y, dev, sec)
        if x is None:
            continue
        s, ns = x
        for n in ns:
            if slow(s, n) != ref.match(n, s):
                raise runner.Inconclusive("the two matchers of the harness disagree on %r %r" % (s, n))
        hit = [n for n in ns if ref.match(n, s)]
        try:
            new = ref.apply(dev, y, pr.enum_derive, pr.loader)
        except ref.Unspecified:
            continue
        except ref.Reject as e:
            if rng.random() < 0.25 and not hit:
                pr.y, pr.reject = y, (sec, str(e))
                ids.append((sec, shape(s)))
                pr.kept.append(sec)
                break
            continue
        pr.y, pr.cur = y, new
        pr.kept.append(sec)
        out.tags["names_selected"] += len(hit)
        out.tags["names_not_selected"] += len(ns) - len(hit)
        some |= 0 < len(hit) < len(ns)
        ids.append((sec, shape(s)))
    patchdiff.check(ctx, pr, out)
    out.key, out.nontrivial = tuple(sorted(ids)), some or bool(pr.reject)
    out.sample = {"patch": dump(pr.y)[:600]}


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
