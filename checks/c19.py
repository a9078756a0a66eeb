"""C19: included files are merged into the including one as documented."""
import os
import sys

from kit import include, model, patchdiff, pyyaml, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

PID = "C19"
LEVEL = "exploration"
RULE = ("a case counts if at least one file was included and the merged patch, or the patched device, was compared with the "
        "independently computed one; two cases are the same if their merged patches have the same structure")
CASES = {"quick": 2200, "thorough": 90000}
MUST_SEE = ("expanded", "to_file", "patched", "refused:missing", "refused:kind", "refused:cycle", "had:include_list",
            "had:include_text", "had:include_in_peripheral", "had:include_in_register", "had:empty_file", "had:diamond",
            "had:repeated", "had:link", "other_directory", "files_3", "merge:lists", "merge:list_text", "merge:text_list",
            "merge:kept", "merge:nested", "merge:refused")


def tags_of(files, main):
    s = set()
    orig = include.join

    def join(a, b):
        for k, v in b.items():
            if k in a and k not in ("_include", "_path"):
                o = a[k]
                if include.same(o, v):
                    s.add("merge:equal")
                elif isinstance(o, list) and isinstance(v, list):
                    s.add("merge:lists")
                elif isinstance(o, list) and isinstance(v, str):
                    s.add("merge:list_text")
                elif isinstance(o, str) and isinstance(v, list):
                    s.add("merge:text_list")
                elif isinstance(o, dict):
                    s.add("merge:nested" if isinstance(v, dict) else "merge:refused")
                else:
                    s.add("merge:kept")
        orig(a, b)
    include.join = join
    try:
        return include.merge(files, main) + (s,)
    except include.Refused as e:
        return None, str(e), s
    finally:
        include.join = orig


def place(ctx, rng, t, main):
    """Working directory and how the main file is named there."""
    for d in include.DIRS:
        os.makedirs(os.path.join(t.top, d), exist_ok=True)
    for name, target in t.links.items():
        os.symlink(os.path.join(t.top, target), os.path.join(t.top, name))
    t.save()
    k = rng.random()
    if k < 0.3:
        return t.top, main
    cwd = os.path.join(t.top, rng.choice(include.DIRS))
    return cwd, os.path.relpath(main, cwd)


def case(ctx, rng, i, out):
    if i % 5 == 4:
        return patched(ctx, rng, out)
    bad = i % 12 == 7
    t, main, had = include.random_tree(rng, ctx.case, refuse=bad)
    cwd, name = place(ctx, rng, t, main)
    merged, seen, how = tags_of(t.files, main)
    to_file = rng.random() < 0.4
    args = ["expand-patch", name] + (["all.yaml"] if to_file else [])
    rc, so, er = ctx.run(args, cwd=cwd)
    cmd = "cd %s; svdtools %s" % (cwd, " ".join(args))
    for h in how:
        out.tags[h] += 1
    if merged is None:
        if rc == 0:
            raise Violation("must be refused (%s) but was merged" % seen, cmd=cmd)
        if to_file and os.path.exists(os.path.join(cwd, "all.yaml")):
            raise Violation("refused (%s) but output was written" % seen, cmd=cmd)
        for h in had:
            if h.startswith("bad:"):
                out.tags["refused:" + h[4:]] += 1
        out.key = ("refused", sorted(had), patchdiff.shape(t.files[main]))
        return
    if rc:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-600:]), cmd=cmd)
    raw = so
    if to_file:
        with open(os.path.join(cwd, "all.yaml"), "rb") as f:
            raw = f.read()
        out.tags["to_file"] += 1
    docs = pyyaml.read(raw)
    if isinstance(docs, str) or len(docs) != 1:
        raise Violation("the output is not one YAML document: %s\n%s" % (docs if isinstance(docs, str) else len(docs),
                                                                        raw.decode("utf8", "replace")[:1500]), cmd=cmd)
    got = pyyaml.drop(docs[0], "_path")
    # a text that becomes a list moves to the end of its mapping: only keys that are lists of names do that, their order
    # does not matter
    if not pyyaml.same(got, nopath(merged), "merge:text_list" not in how):
        raise Violation("merged differently: " + pyyaml.where(got, nopath(merged)), cmd=cmd)
    out.tags["expanded"] += 1
    for h in had:
        out.tags["had:" + h] += 1
    if len(seen) > 2:
        out.tags["files_3"] += 1
    if len(seen) != len(set(seen)):
        out.tags["had:diamond"] += 1
    if t.links:
        out.tags["had:link"] += 1
    if any(len(x) != len(set(x)) for x in incs(t)):
        out.tags["had:repeated"] += 1
    if cwd != os.path.dirname(main):
        out.tags["other_directory"] += 1
    out.nontrivial = bool(seen)
    out.key = patchdiff.shape(merged)
    out.sample = {"files": {os.path.relpath(p, t.top): c for p, c in t.files.items()}, "merged": merged}


def incs(t):
    for p, c in t.files.items():
        if isinstance(c, dict) and isinstance(c.get("_include"), list) and all(isinstance(x, str) for x in c["_include"]):
            yield [os.path.realpath(os.path.join(os.path.dirname(p), x)) for x in c["_include"]]


def nopath(v):
    if isinstance(v, dict):
        return {k: nopath(x) for k, x in v.items() if k != "_path"}
    return [nopath(x) for x in v] if isinstance(v, list) else v


def patched(ctx, rng, out):
    """A patch spread over files does what the whole does."""
    for _ in range(20):
        pr = patchdiff.make(rng, ALL, rng.randint(2, 7), refuse=0)
        if pr.reject:
            continue
        t = include.Tree(ctx.case)
        main = os.path.join(t.top, rng.choice(["main.yaml", "a/main.yaml", "lib/m.yaml"]))
        t.links["lnk"] = "lib"
        t.files[main] = {}
        include.split(rng, t, pr.y, main)
        m, seen, how = tags_of(t.files, main)
        if m is not None and include.same(m, pr.y) and seen:
            break
    else:
        return
    ctx.write("dev.svd", model.write_device(pr.dev))
    if pr.other is not None:
        base = os.path.dirname(os.path.relpath(main, t.top))
        ctx.write(os.path.join(base, "other.svd"), model.write_device(pr.other))
        ctx.write("other.svd", model.write_device(pr.other))
    t.files[main] = {"_svd": os.path.relpath(os.path.join(t.top, "dev.svd"), os.path.dirname(main)), **t.files[main]}
    cwd, name = place(ctx, rng, t, main)
    if pr.other is not None and not os.path.exists(os.path.join(cwd, "other.svd")):
        ctx.write(os.path.relpath(os.path.join(cwd, "other.svd"), t.top), model.write_device(pr.other))
    args = ["patch"] + (["--enum-derive", pr.ed_arg] if pr.ed_arg else []) + [name, os.path.join(t.top, "out.svd")]
    rc, so, er = ctx.run(args, cwd=cwd)
    cmd = "cd %s; svdtools %s" % (cwd, " ".join(args))
    if rc:
        raise Violation("rules spread over files are refused: %s" % er.decode("utf8", "replace")[-800:], cmd=cmd)
    got = model.read_device(ctx.read("out.svd").decode("utf8"))
    d = model.diff(model.norm(pr.cur), model.norm(got))
    if d:
        raise Violation("rules spread over files %s do something else:\n  %s" % (
            [os.path.relpath(p, t.top) for p in t.files], "\n  ".join(d)), cmd=cmd)
    out.tags["patched"] += 1
    out.nontrivial = True
    out.key = ("patched", patchdiff.shape(pr.y), len(t.files))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
