"""C13: expansion keeps every register at its address with its bit layout."""
import sys

from kit import focus, gen, maps, runner
from kit.runner import Violation

PID = "C13"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_expand_array, _expand_cluster) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 150000}
FOCUS = {"expand_array": 1, "expand_cluster": 1}
CTX = focus.context({"expand_array": 1, "expand_cluster": 1}, ("array", "f_array", "cluster"))
MUST_SEE = ("expand_array", "expand_cluster", "refused", "monitor:address_map", "monitor:placeholders", "derived_inner_clusters")


def extra(ctx, pr, got, out):
    maps.conserve(pr.ctx_cur, got, lambda path, r: (maps.layout(r), r.get("readAction"), r.get("dataType")),
                  "registers with their fields", out, "address_map")
    # nothing new carries a placeholder without being an array
    def bad(dev):
        n = 0
        for p in dev["peripherals"]:
            todo = list(p["children"])
            while todo:
                c = todo.pop()
                n += "dim" not in c and "%s" in c["name"]
                todo += c.get("children", ())
        return n
    out.tags["monitor:placeholders"] += 1
    if bad(got) > bad(pr.ctx_cur):
        raise Violation("a placeholder is left in the name of an expanded element")


def nest(g, d):
    """Clusters in clusters, some of them derived from the cluster next to them."""
    done = False
    for p in d["peripherals"]:
        for b in gen.blocks(p):
            for c in [x for x in b["children"] if x["k"] == "cluster" and x["children"]]:
                if any(x["k"] == "cluster" for x in c["children"]) or g.p(0.4):
                    continue
                off = gen.extent(c["children"])
                s = {"k": "cluster", "name": g.ch(["INN", "INN%s"]), "addressOffset": off, "children": [g.register("IR", 0)]}
                g.props(s, 0.3)
                if "%" in s["name"]:
                    s["dim"] = {"dim": 2, "inc": 8}
                c["children"].append(s)
                for nm in ("DER", "DER2"):
                    if g.p(0.6):
                        off += 0x20
                        x = {"k": "cluster", "name": nm, "addressOffset": off, "children": [],
                             "derivedFrom": g.ch([s["name"], s["name"], "X." + s["name"], "NOWHERE"])}
                        if g.p(0.5):
                            x["children"] = [g.register("OWN", 0)]
                        c["children"].append(x)
                if g.p(0.2):
                    g.r.shuffle(c["children"])
                if "dim" in c:
                    c["dim"]["inc"] = off + 0x40
                done = True
    return done


def case(ctx, rng, i, out):
    d = None
    if rng.random() < 0.35:
        g = gen.Gen(rng, 1)
        d = g.device()
        if nest(g, d):
            out.tags["derived_inner_clusters"] += 1
    focus.run(ctx, rng, out, FOCUS, extra=extra, ctx_weights=CTX, nfocus=(1, 2), dev=d)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
