"""Devices for the checks of the commands that take whole devices."""
import glob
import os

from . import gen, model, rich

REAL = sorted(glob.glob("/repo/res/*/*.svd"))
BIG = "/repo/example/stm32l4x2.svd"


def ambiguous(dev):
    """Do two siblings answer to one name once arrays are written out?"""
    def dup(nodes):
        ns = [x for n in nodes for x in {n["name"], *(m for _, m, _ in model.instances(n))}]
        return len(ns) != len(set(ns)) or any(dup(n.get("children") or n.get("fields") or ()) for n in nodes)
    return dup(dev["peripherals"])


def make(rng, size=None, unique=False, **kw):
    while True:
        d = make_any(rng, size, **kw)
        if not unique or not ambiguous(d):
            return d


def make_any(rng, size=None, enrich=True, plain=False, tags=None, hdr=False, **kw):
    g = gen.Gen(rng, rng.choice([0, 1, 1, 2]) if size is None else size)
    d = g.device()
    if plain:
        rich.plain_refs(d)
    if enrich:
        seen = rich.enrich(g, d, **kw)
        if tags is not None:
            for s in seen:
                tags["with:" + s] += 1
    return d


def facts(dev):
    """Identity of a device: kinds, names and nesting without values."""
    def f(n):
        return (n["k"][0], "d" if "derivedFrom" in n else "", "a" if "dim" in n else "",
                tuple(f(c) for c in n.get("children", ())), tuple(
                    (len(x["enums"]), "d" if "derivedFrom" in x else "", "a" if "dim" in x else "")
                    for x in n.get("fields", ())))
    return tuple(f(p) for p in dev["peripherals"])


def rich_enough(dev):
    return any(c["k"] == "cluster" or c.get("fields") for p in dev["peripherals"] for c in p["children"])


def real(rng):
    with open(rng.choice(REAL), "rb") as f:
        return f.read()


def has_real():
    return bool(REAL)


__all__ = ["make", "facts", "real", "model", "os"]
