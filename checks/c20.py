"""C20: makedeps names every file that patching reads because of includes, and nothing else."""
import os
import re
import sys

from kit import gen, include, model, runner
from kit.runner import Violation

PID = "C20"
LEVEL = "exploration"
RULE = ("a case counts if the dependencies of a file with includes were compared with the independently computed ones and "
        "each was confirmed by taking it away (or by the recorded file accesses); two cases are the same if their graphs of "
        "includes are the same")
CASES = {"quick": 700, "thorough": 25000}
MUST_SEE = ("rust", "python", "taken_away", "others_removed", "no_includes", "had:include_in_peripheral",
            "had:include_in_register", "had:empty_file", "had:link", "had:diamond", "other_directory", "refused")
ASSUMPTIONS = ["file accesses are recorded with strace where the sandbox lets it (counted as traced)"]
PY = "/opt/vp/pyvenv/bin/python"
PYMAIN = "import sys, svdtools.makedeps as m; m.main(sys.argv[1], sys.argv[2])"


def parse(raw, target):
    t = raw.decode("utf8")
    if not t.endswith("\n") or t.count("\n") != 1:
        return None
    w = t.split()
    return w[1:] if w and w[0] == target + ":" else None


def case(ctx, rng, i, out):
    plain = i % 3 == 0
    refuse = i % 14 == 5
    t, main, had = include.random_tree(rng, ctx.case, plain=plain, refuse=refuse)
    for d in include.DIRS:
        os.makedirs(os.path.join(t.top, d), exist_ok=True)
    for name, target in t.links.items():
        os.symlink(os.path.join(t.top, target), os.path.join(t.top, name))
    t.save()
    cwd = t.top if rng.random() < 0.3 else os.path.join(t.top, rng.choice(include.DIRS))
    name = main if rng.random() < 0.3 else os.path.relpath(main, cwd)
    target = rng.choice(["out.d", os.path.join(t.top, "deps.d"), "./x.d"])
    try:
        merged, seen = include.merge(t.files, main)
    except include.Refused as x:
        rc, so, er = ctx.run(["makedeps", name, target], cwd=cwd)
        if rc == 0:
            raise Violation("must be refused (%s)" % x, cmd="cd %s; svdtools makedeps %s %s" % (cwd, name, target))
        out.tags["refused"] += 1
        return
    want = set(seen)
    got = deps(ctx, "svdtools", ["makedeps", name, target], cwd, target, None, {})
    compare(t, want, got, "svdtools", cwd, name, target)
    out.tags["rust"] += 1
    if plain:
        got = deps(ctx, "Python", ["-c", PYMAIN, name, target], cwd, target, PY,
                   {"PYTHONPATH": runner.REPO, "PYTHONDONTWRITEBYTECODE": "1"})
        compare(t, want, got, "Python", cwd, name, target)
        out.tags["python"] += 1
    if i % 4 == 1:
        confirm(ctx, rng, t, main, name, cwd, want, out)
    if i % 10 == 2:
        traced(ctx, t, main, name, cwd, want, out)
    for h in had:
        out.tags["had:" + h] += 1
    if t.links:
        out.tags["had:link"] += 1
    if len(seen) != len(want):
        out.tags["had:diamond"] += 1
    if not want:
        out.tags["no_includes"] += 1
    if cwd != os.path.dirname(main):
        out.tags["other_directory"] += 1
    out.tags["dependencies"] += len(want)
    ids = {p: n for n, p in enumerate(t.files)}
    out.nontrivial = bool(want)
    out.key = [(ids[p], [ids.get(x) for x in links(c, p)]) for p, c in t.files.items()]
    out.sample = {"main": name, "dependencies": sorted(os.path.relpath(x, t.top) for x in want)}


def links(c, p):
    if isinstance(c, dict):
        for k, v in c.items():
            if k == "_include":
                for x in [v] if isinstance(v, str) else v if isinstance(v, list) else ():
                    if isinstance(x, str):
                        yield os.path.realpath(os.path.join(os.path.dirname(p), x))
            else:
                yield from links(v, p)


def deps(ctx, who, args, cwd, target, exe, env):
    p = os.path.join(cwd, target)
    if os.path.exists(p):
        os.unlink(p)
    rc, so, er = ctx.run(args, cwd=cwd, exe=exe, env=env)
    cmd = "cd %s; %s %s" % (cwd, exe or who, " ".join(args))
    if rc:
        raise Violation("%s: refused with status %d: %s" % (who, rc, er.decode("utf8", "replace")[-500:]), cmd=cmd)
    if not os.path.exists(p):
        raise Violation("%s: no dependency file" % who, cmd=cmd)
    with open(p, "rb") as f:
        raw = f.read()
    os.unlink(p)
    d = parse(raw, target)
    if d is None:
        raise Violation("%s: not a make rule for %s: %r" % (who, target, raw[:300]), cmd=cmd)
    return d


def compare(t, want, got, who, cwd, name, target):
    short = lambda s: sorted(os.path.relpath(x, t.top) for x in s)
    have = {os.path.realpath(os.path.join(cwd, x)) for x in got}
    if have != want:
        raise Violation("%s: dependencies missing %s, needless %s" % (who, short(want - have), short(have - want)),
                        cmd="cd %s; %s makedeps %s %s" % (cwd, who, name, target))


def confirm(ctx, rng, t, main, name, cwd, want, out):
    """The run fails without any one of the dependencies and works without all other files."""
    rc, before, er = ctx.run(["expand-patch", name], cwd=cwd)
    cmd = "cd %s; svdtools expand-patch %s" % (cwd, name)
    for p in sorted(want):
        os.rename(p, p + ".away")
        rc, so, er = ctx.run(["expand-patch", name], cwd=cwd)
        os.rename(p + ".away", p)
        if rc == 0:
            raise Violation("the patch loads without its dependency %s" % os.path.relpath(p, t.top), cmd=cmd)
        out.tags["taken_away"] += 1
    for p in t.files:
        if p not in want and p != main:
            os.unlink(p)
    rc, so, er = ctx.run(["expand-patch", name], cwd=cwd)
    if rc or so != before:
        raise Violation("the patch depends on a file that is not listed", cmd=cmd)
    out.tags["others_removed"] += 1


def traced(ctx, t, main, name, cwd, want, out):
    """Which files of the tree does a run of patch open?"""
    dev = gen.Gen(__import__("random").Random(1), 0).device()
    ctx.write("dev.svd", model.write_device(dev))
    t.files[main] = {"_svd": os.path.join(t.top, "dev.svd"), **t.files[main]}
    t.save()
    args = ["-f", "-qq", "-e", "trace=open,openat,openat2", "-o", os.path.join(t.top, "trace"), ctx.exe,
            "patch", name, os.path.join(t.top, "out.svd")]
    try:
        ctx.run(args, cwd=cwd, exe="strace")
    except runner.Inconclusive:
        return
    raw = ctx.read("trace")
    if not raw:
        return
    opened = set()
    for m in re.finditer(rb'open\w*\((?:AT_FDCWD, )?"((?:[^"\\]|\\.)*)".*= \d+', raw):
        p = os.path.realpath(os.path.join(cwd, m.group(1).decode("latin1")))
        if p in t.files:
            opened.add(p)
    if opened != want | {main}:
        short = lambda s: sorted(os.path.relpath(x, t.top) for x in s)
        raise Violation("patch opens %s but the dependencies are %s" % (short(opened - {main}), short(want)),
                        cmd="cd %s; strace %s" % (cwd, " ".join(args)))
    out.tags["traced"] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
