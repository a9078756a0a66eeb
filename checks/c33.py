"""C33: placeholders in descriptions expand to the path of the element the rule is applied to."""
import re
import sys

from kit import focus, gen, runner
from kit.model import diff, norm
from kit.runner import Violation

PID = "C33"
LEVEL = "exploration"
RULE = ("a case counts if descriptions with placeholders reached elements; two cases are the same if their patches have the "
        "same structure (keys and nesting)")
CASES = {"quick": 4000, "thorough": 100000}
FOCUS = {"modify": 6, "add": 6, "derive": 4, "copy": 3, "f_modify": 5, "f_add": 4, "f_derive": 3,
         "array": 2, "cluster": 3, "f_split": 1, "dev_add": 2, "dev_per": 2, "dev_derive": 1, "dev_copy": 1}
HOLES = ("`peripheral`", "`block_path`", "`register`", "`register_path`")
NEAR = ("`Peripheral`", "`peripherals`", "` register`", "`register", "register`", "``", "`field`", "`", "`block path`",
        "peripheral", "`register_paths`", "$1", "\\1", "{}", "%s", "`periph")
MUST_SEE = ("modify", "add", "derive", "copy", "f_modify", "f_add", "f_derive", "expanded:peripheral",
            "expanded:block_path", "expanded:register", "expanded:register_path", "expanded:repeated",
            "expanded:in_cluster", "expanded:nested_cluster", "kept:near_miss")


def text(pr):
    g = pr.g
    s = []
    for _ in range(g.r.randint(1, 5)):
        k = g.r.random()
        s.append(g.ch(HOLES) if k < 0.55 else g.ch(NEAR) if k < 0.75 else g.text())
    if g.p(0.3):
        s.append(g.ch(s))
    t = g.ch(["", " ", " ", "-"]).join(s)
    return t if t.strip() else "x"


def case(ctx, rng, i, out):
    pr_box = []

    def setup(pr):
        pr.placeholders, pr.clu = 1.0, 0.6
        pr.text = lambda kind=None: text(pr)
        pr_box.append(pr)
    g = gen.Gen(rng, 1)
    pr, got = focus.run(ctx, rng, out, FOCUS, size=rng.choice([1, 1, 2]), setup=setup, nfocus=(2, 5), refuse=0.02, alone=0.8)
    if got is None:
        return
    seen = 0
    for what, t in texts(pr.y):
        for h in HOLES:
            n = t.count(h)
            if n:
                seen += 1
                out.tags["expanded:" + h.strip("`")] += 1
            if n > 1:
                out.tags["expanded:repeated"] += 1
        if any(x in t for x in NEAR[:7]):
            out.tags["kept:near_miss"] += 1
        if what:
            out.tags["expanded:in_cluster"] += 1
    cl = [0]

    def walk(n, d):
        for c in n.get("children", ()):
            if c["k"] == "cluster":
                walk(c, d + 1)
            if d >= 2 and "." in (c.get("description") or ""):
                cl[0] += 1
    for p in got["peripherals"]:
        walk(p, 0)
    if cl[0]:
        out.tags["expanded:nested_cluster"] += 1
    out.nontrivial = seen > 0


def texts(y, inclu=False):
    if isinstance(y, dict):
        for k, v in y.items():
            if k == "description" and isinstance(v, str):
                yield inclu, v
            else:
                yield from texts(v, inclu or k == "_clusters")
    elif isinstance(y, list):
        for v in y:
            yield from texts(v, inclu)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
