"""Conservation monitors: facts computed from the device before and after the rules of one family, independently of the
reference interpreter."""
from collections import Counter

from .model import instances, reg_map
from .runner import Violation


def fields_of(r):
    """(bit offset, width, name) of every field instance."""
    out = []
    for f in r["fields"]:
        for _, nm, delta in instances(f):
            out.append((f["off"] + delta, f["width"], nm))
    return sorted(out)


def layout(r):
    return tuple((o, w) for o, w, _ in fields_of(r))


def bits(r):
    return frozenset(o + i for o, w, _ in fields_of(r) for i in range(w))


def facts(dev, fn):
    c = Counter()
    for p in dev["peripherals"]:
        for a, path, node in reg_map(p["children"]):
            c[(p["name"], a) + fn(path, node)] += 1
    return c


def conserve(before, after, fn, what, out, tag):
    a, b = facts(before, fn), facts(after, fn)
    out.tags["monitor:" + tag] += 1
    out.tags["monitor:%s:facts" % tag] += sum(a.values())
    if a != b:
        lost = list((a - b).items())[:6]
        new = list((b - a).items())[:6]
        raise Violation("%s not conserved: lost %s, appeared %s" % (what, lost, new))


def rules(y, key):
    """Every (spec, value) below sections called key."""
    if isinstance(y, dict):
        for k, v in y.items():
            if k == key and isinstance(v, dict):
                yield from v.items()
            yield from rules(v, key)
    elif isinstance(y, list):
        for v in y:
            yield from rules(v, key)
