"""Independent resolution of derivedFrom references and of arrays and clusters in a device model.

Works on the plain model of kit.model.  Paths follow the SVD schema: a bare name is looked for among the siblings
(of the block the element comes from), otherwise the path is absolute (PERIPHERAL.CLUSTER.REGISTER.FIELD)."""
from .model import PROPS, clone, dim_array_index, expand_names


class Unresolved(Exception):
    pass


def sub(s, i):
    return s.replace("[%s]", i).replace("%s", i)


def fill(d, s, keys):
    for k in keys:
        if k not in d and k in s:
            d[k] = s[k]


def names(n):
    """Names a node answers to: its own and, for arrays, those of its elements."""
    r = [n["name"]]
    if "dim" in n:
        r += [x for _, x in expand_names(n["name"], n["dim"])]
    return r


def find(nodes, name, kind=None):
    hit = [n for n in nodes if (kind is None or n.get("k") == kind) and name in names(n)]
    exact = [n for n in hit if n["name"] == name]
    return (exact or hit or [None])[0]


def block_of(dev, path):
    """(peripheral or cluster, its path) of an absolute block path."""
    b = find(dev["peripherals"], path[0])
    for c in path[1:]:
        if b is None:
            raise Unresolved(".".join(path))
        b = find(b["children"], c, "cluster")
    if b is None:
        raise Unresolved(".".join(path))
    return b


def derive_dim(d, s):
    if "dim" not in s:
        return
    if "dim" in d:
        if d["dim"]["dim"] == s["dim"]["dim"] and d["dim"].get("index") is None and s["dim"].get("index") is not None:
            d["dim"]["index"] = list(s["dim"]["index"])
        if "name" not in d["dim"] and "name" in s["dim"]:
            d["dim"]["name"] = s["dim"]["name"]
    elif "%s" in d["name"]:
        d["dim"] = {k: clone(v) for k, v in s["dim"].items() if k != "name"}


def resolve_peripheral(dev, p):
    """Returns (peripheral without derivedFrom, path its registers come from)."""
    p = clone(p)
    path = [p["name"]]
    seen = set()
    src = p.pop("derivedFrom", None)
    while src is not None:
        if src in seen:
            raise Unresolved(src)
        seen.add(src)
        s = find(dev["peripherals"], src)
        if s is None:
            raise Unresolved(src)
        fill(p, s, ("version", "description", "groupName", "prependToName", "appendToName", "headerStructName") + PROPS)
        for k in ("children", "addressBlocks", "interrupts"):
            if not p.get(k):
                p[k] = clone(s.get(k, []))
                if k == "children" and p[k]:
                    path = [s["name"]]
        derive_dim(p, s)
        src = s.get("derivedFrom")
    return p, path


def resolve_register(dev, r, path):
    r = clone(r)
    rpath = path + [r["name"]]
    src = r.pop("derivedFrom", None)
    n = 0
    while src is not None:
        n += 1
        if n > 20:
            raise Unresolved(src)
        parts = src.split(".")
        if len(parts) > 1:
            path = parts[:-1]
        b = block_of(dev, path)
        s = find(b["children"], parts[-1], "register")
        if s is None:
            raise Unresolved(src)
        fill(r, s, ("description",) + PROPS + ("wc", "readAction", "modifiedWriteValues"))
        if not r["fields"] and s["fields"]:
            r["fields"] = clone(s["fields"])
            rpath = path + [s["name"]]
        derive_dim(r, s)
        src = s.get("derivedFrom")
    return r, rpath


def resolve_field(dev, f, rpath):
    f = clone(f)
    fpath = rpath + [f["name"]]
    src = f.pop("derivedFrom", None)
    n = 0
    while src is not None:
        n += 1
        if n > 20:
            raise Unresolved(src)
        parts = src.split(".")
        if len(parts) == 2:
            parts = rpath[:-1] + parts
        if len(parts) > 1:
            rpath = parts[:-1]
        b = block_of(dev, rpath[:-1])
        s = find(find(b["children"], rpath[-1], "register")["fields"], parts[-1])
        if s is None:
            raise Unresolved(src)
        fill(f, s, ("description", "access", "wc", "readAction", "modifiedWriteValues"))
        if not f["enums"] and s["enums"]:
            f["enums"] = clone(s["enums"])
            fpath = rpath + [s["name"]]
        derive_dim(f, s)
        src = s.get("derivedFrom")
    for e in f["enums"]:
        resolve_enum(dev, e, fpath)
    return f


def resolve_enum(dev, e, fpath):
    src = e.pop("derivedFrom", None)
    n = 0
    while src is not None:
        n += 1
        if n > 20:
            raise Unresolved(src)
        parts = src.split(".")
        rp = fpath[:-1]
        fname = None
        if len(parts) == 2:
            fname = parts[0]
        elif len(parts) == 3:
            rp, fname = fpath[:-2] + [parts[0]], parts[1]
        elif len(parts) > 3:
            rp, fname = parts[:-2], parts[-2]
        r = find(block_of(dev, rp[:-1])["children"], rp[-1], "register")
        s = None
        for f in r["fields"]:
            if fname is None or fname in names(f):
                for x in f["enums"]:
                    if x.get("name") == parts[-1]:
                        s, fpath = x, rp + [f["name"]]
                        break
            if s:
                break
        if s is None:
            raise Unresolved(src)
        fill(e, s, ("usage",))
        if not e["values"]:
            e["values"] = clone(s["values"])
        src = s.get("derivedFrom")


def array(n, key):
    """Single instances of a node."""
    if "dim" not in n:
        return [n]
    out = []
    dim = n["dim"]
    named = dim_array_index(dim)
    for k, (i, nm) in enumerate(expand_names(n["name"], dim)):
        x = clone(n)
        del x["dim"]
        x["name"] = nm
        x[key] = n[key] + k * dim["inc"]
        for t in ("description", "displayName"):
            if t in x and (t == "description" or n["k"] in ("register", "peripheral")):
                x[t] = sub(x[t], i)
        if "description" in named.get(i, ()):
            x["description"] = named[i]["description"]
        out.append(x)
    return out


def resolve_cluster(dev, c, path):
    c = clone(c)
    cpath = path + [c["name"]]
    src = c.pop("derivedFrom", None)
    n = 0
    while src is not None:
        n += 1
        if n > 20:
            raise Unresolved(src)
        parts = src.split(".")
        if len(parts) > 1:
            path = parts[:-1]
        s = find(block_of(dev, path)["children"], parts[-1], "cluster")
        if s is None:
            raise Unresolved(src)
        fill(c, s, PROPS + ("headerStructName",))
        if not c["children"] and s["children"]:
            c["children"] = clone(s["children"])
            cpath = path + [s["name"]]
        derive_dim(c, s)
        src = s.get("derivedFrom")
    return c, cpath


def flat(dev, children, path):
    out = []
    for c in children:
        if c["k"] == "register":
            r, rpath = resolve_register(dev, c, path)
            fs = []
            for f in r["fields"]:
                fs.extend(array(resolve_field(dev, f, rpath), "off"))
            r["fields"] = fs
            out.extend(array(r, "addressOffset"))
        else:
            cl, cpath = resolve_cluster(dev, c, path)
            inner = flat(dev, cl["children"], cpath)
            cl["children"] = []
            for x in array(cl, "addressOffset"):
                for r in inner:
                    r = clone(r)
                    r["name"] = x["name"] + "_" + r["name"]
                    r["addressOffset"] += x["addressOffset"]
                    out.append(r)
    return out


def expand(dev):
    """Arrays, clusters and references replaced by plain elements."""
    d = clone(dev)
    d["peripherals"] = []
    for p in dev["peripherals"]:
        q, path = resolve_peripheral(dev, p)
        q["children"] = flat(dev, q["children"], path)
        d["peripherals"].extend(array(q, "baseAddress"))
    return d


PROP5 = PROPS


def expand_properties(dev):
    """Registers take what they lack from the blocks around them."""
    d = clone(dev)

    def walk(children, props):
        for c in children:
            if "derivedFrom" in c:
                continue
            if c["k"] == "register":
                fill(c, props, PROP5)
            else:
                p = {k: c[k] for k in PROP5 if k in c}
                fill(p, props, PROP5)
                walk(c["children"], p)
    top = {k: d[k] for k in PROP5 if k in d}
    for p in d["peripherals"]:
        if "derivedFrom" in p:
            continue
        q = {k: p[k] for k in PROP5 if k in p}
        fill(q, top, PROP5)
        walk(p["children"], q)
    return d


def ignore_enums(dev):
    d = clone(dev)

    def walk(children):
        for c in children:
            if c["k"] == "register":
                for f in c["fields"]:
                    f["enums"] = []
                    f.pop("wc", None)
            else:
                walk(c["children"])
    for p in d["peripherals"]:
        walk(p["children"])
    return d
