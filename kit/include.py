"""Trees of patch files that include each other: independent merge, generation, splitting of a patch into files."""
import os

from .yamlout import dump


class Refused(Exception):
    pass


def merge(files, path, pick=None):
    """files: content by real path (None: no rules).  Returns (merged content, files read besides the first, in order)."""
    if path not in files:
        raise Refused("no file %s" % path)
    return block(files, copy(files[path]), path, (path,))


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return [copy(x) for x in v] if isinstance(v, list) else v


def block(files, top, path, chain):
    seen = []
    for k, v in top.items():
        if not k.startswith("_") and isinstance(v, dict) and "_include" in v:
            top[k], inner = block(files, v, path, chain)
            seen += inner
    inc = top.get("_include", [])
    inc = [inc] if isinstance(inc, str) else inc
    if not isinstance(inc, list) or not all(isinstance(x, str) for x in inc):
        raise Refused("_include is no list of texts")
    for rel in inc:
        p = os.path.realpath(os.path.join(os.path.dirname(path), rel))
        if p in seen:
            continue
        if p not in files:
            raise Refused("no file %s" % p)
        if p in chain:
            raise Refused("%s includes itself" % p)
        seen.append(p)
        if files[p] is None:
            continue
        if not isinstance(files[p], dict):
            raise Refused("%s holds no rules" % p)
        child, inner = block(files, copy(files[p]), p, chain + (p,))
        seen += inner
        join(top, child)
    top.pop("_include", None)
    return top, seen


def join(a, b):
    """The including file comes first and wins."""
    for k, v in b.items():
        if k in ("_include", "_path"):
            continue
        if k not in a:
            a[k] = v
            continue
        o = a[k]
        if same(o, v):
            continue
        if isinstance(o, list):
            if isinstance(v, list):
                a[k] = o + v
            elif isinstance(v, str) and not any(same(v, x) for x in o):
                a[k] = o + [v]
        elif isinstance(o, dict):
            if not isinstance(v, dict):
                raise Refused("%s: no mapping" % k)
            join(o, v)
        elif isinstance(o, str) and isinstance(v, list) and not any(same(o, x) for x in v):
            a[k] = [o] + v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


DIRS = ["", "a", "a/b", "lib", "lib/x-1"]


class Tree:
    def __init__(self, top):
        self.top = os.path.realpath(top)
        self.files = {}       # real path -> content
        self.links = {}

    def put(self, rel, content):
        self.files[os.path.join(self.top, rel)] = content

    def save(self):
        for p, c in self.files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("# nothing here\n" if c is None else dump(c))

    def rel(self, rng, frm, to, links=True):
        """Some way to write the path of one file in another."""
        r = os.path.relpath(to, os.path.dirname(frm))
        k = rng.random()
        if k < 0.15:
            return to
        if k < 0.3:
            return "./" + r
        if k < 0.4:
            return os.path.join("..", os.path.basename(os.path.dirname(frm)), r)
        if k < 0.5 and links and self.links:
            for name, target in self.links.items():
                t = os.path.join(self.top, target)
                if to.startswith(t + "/"):
                    return os.path.relpath(os.path.join(self.top, name) + to[len(t):], os.path.dirname(frm))
        return r


WORDS = ["alpha", "b c", "D_*", "0x10", "yes", "Some text: with colon", "x,y", "?~N", "é", "~", "1.5", "#h"]
SECTIONS = ["_modify", "_delete", "_add", "_strip", "_copy", "_derive", "_merge", "GPIO*", "TIM1", "ADC", "?~X", "_S1"]


def content(rng, depth=0, plain=False):
    """Random rules, built so that files often have the same keys."""
    out = {}
    names = SECTIONS if depth == 0 else ["_modify", "_delete", "R1", "R2*", "name", "n", "_array", "k x"]
    for k in rng.sample(names, rng.randint(0 if depth else 1, 5 if depth == 0 else 4)):
        out[k] = value(rng, k, depth, plain)
    return out


def value(rng, k, depth, plain):
    kind = "l" if k in ("_delete", "_strip", "_merge") else "s" if k in ("name", "n", "k x") else "m"
    if not plain and rng.random() < 0.2:
        kind = rng.choice("lsmin")
    if kind == "m" and depth < 3:
        return content(rng, depth + 1, plain)
    if kind == "l":
        few = rng.random() < 0.5
        if few and not plain and rng.random() < 0.4:
            return rng.choice(WORDS[:4])
        return [rng.choice(WORDS[:4] if few else WORDS) if plain or rng.random() < 0.85 else
                rng.choice([3, {"a": 1}, True, ["q"]]) for _ in range(rng.randint(1 if plain else 0, 4 if few else 3))]
    if kind == "i":
        return rng.choice([0, 1, 4096, True, False, -7])
    if kind == "n":
        return None
    return rng.choice(WORDS)


def random_tree(rng, top, plain=False, refuse=False):
    """Returns (tree, path of the main file, what it has)."""
    t = Tree(top)
    n = rng.choice([1, 2, 3, 4, 5, 7])
    names = []
    for i in range(n):
        d = rng.choice(DIRS)
        names.append(os.path.join(t.top, d, "%s%d%s" % (rng.choice(("f", "inc.", "p_")), i, rng.choice((".yaml", ".yml", "")))))
    had = set()
    if not plain and rng.random() < 0.5:
        t.links["lnk"] = "lib"
    for i, p in enumerate(names):
        if i and not plain and rng.random() < 0.08:
            t.files[p] = None
            had.add("empty_file")
            continue
        c = content(rng, plain=plain)
        later = names[i + 1:]
        if later and (i == 0 or rng.random() < 0.7):
            inc = [t.rel(rng, p, q, not plain) for q in rng.choices(later, k=rng.choice([1, 1, 2, 3]))]
            had.add("include_list")
            if len(inc) == 1 and rng.random() < 0.5:
                inc = inc[0]
                had.add("include_text")
            where = rng.choice(("top", "top", "per", "both", "deep"))
            if where in ("top", "both"):
                put_first(c, "_include", inc, rng)
            if where != "top":
                k = rng.choice(["GPIO*", "TIM1", "ADC"])
                if not isinstance(c.get(k), dict):
                    c[k] = {}
                put_first(c[k], "_include", t.rel(rng, p, rng.choice(later), not plain), rng)
                had.add("include_in_peripheral")
                if where == "deep":
                    q = rng.choice(["R1", "R2*"])
                    if not isinstance(c[k].get(q), dict):
                        c[k][q] = {"_modify": {"n": "5"}}
                    put_first(c[k][q], "_include", [t.rel(rng, p, rng.choice(later), not plain)], rng)
                    had.add("include_in_register")
        t.files[p] = c
    if refuse:
        p = rng.choice([p for p in names if t.files[p] is not None])
        k = rng.choice(("missing", "kind", "cycle"))
        had.add("bad:" + k)
        t.files[p]["_include"] = {"missing": rng.choice(["none.yaml", ["../no/such"]]), "kind": rng.choice([5, {"a": "b"}, [1]]),
                                  "cycle": os.path.relpath(rng.choice(names[:names.index(p) + 1]), os.path.dirname(p))}[k]
    return t, names[0], had


def put_first(d, k, v, rng):
    if rng.random() < 0.5:
        old = dict(d)
        d.clear()
        d[k] = v
        d.update(old)
    else:
        d[k] = v


def split(rng, t, y, path, depth=0, texts=True):
    """Spread rules over files so that merging gives them back in order."""
    keys = list(y)
    own, rest = {}, {}
    cut = rng.randint(0, len(keys))
    for i, k in enumerate(keys):
        (own if i < cut else rest)[k] = y[k]
    if cut and rng.random() < 0.6:
        k = keys[cut - 1]
        v = y[k]
        if isinstance(v, dict) and len(v) > 1:
            ks = list(v)
            m = rng.randint(0, len(ks) - 1)
            own[k] = {x: v[x] for x in ks[:m]}
            rest = {k: {x: v[x] for x in ks[m:]}, **rest}
        elif isinstance(v, list) and len(v) > 1:
            m = rng.randint(1, len(v) - 1)
            own[k] = v[:m]
            rest = {k: v[m:] if m < len(v) - 1 or rng.random() < 0.5 or not texts or not isinstance(v[-1], str) else v[-1], **rest}
    for k, v in list(own.items()):
        if not k.startswith("_") and isinstance(v, dict) and depth < 3 and len(v) > 1 and rng.random() < 0.4:
            ks = list(v)
            m = rng.randint(0, len(ks) - 1)
            f = new(rng, t)
            split(rng, t, {x: v[x] for x in ks[m:]}, f, depth + 1, texts)
            own[k] = {"_include": [t.rel(rng, path, f)], **{x: v[x] for x in ks[:m]}}
    if rest:
        f = new(rng, t)
        if depth < 3:
            split(rng, t, rest, f, depth + 1, texts)
        else:
            t.files[f] = rest
        put_first(own, "_include", t.rel(rng, path, f) if rng.random() < 0.5 else [t.rel(rng, path, f)], rng)
    t.files[path] = own


def new(rng, t):
    f = os.path.join(t.top, rng.choice(DIRS), "part%d.yaml" % len(t.files))
    t.files[f] = {}
    return f
