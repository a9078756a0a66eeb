"""C34: the Python patcher and the Rust patcher produce the same device or both refuse."""
import json
import os
import select
import shutil
import struct
import subprocess
import sys

from kit import common, include, model, runner
from kit.runner import Inconclusive, Violation
from kit.yamlout import dump

PID = "C34"
LEVEL = "exploration"
RULE = ("a case counts if both patchers wrote a device and their contents were compared, or both refused a patch with a rule that "
        "cannot be applied; two cases are the same if they use the same kinds of rules in patches of the same structure")
CASES = {"quick": 3600, "thorough": 120000}
KINDS = ("device delete", "device attr", "device per", "device name", "device cpu", "device add", "device derive", "device rebase",
         "device copy", "device copy over", "device copyfile", "device clear", "peripheral delete", "peripheral strip",
         "peripheral modify", "peripheral add", "peripheral derive", "peripheral copy", "peripheral clear", "peripheral array",
         "peripheral cluster", "interrupts add", "interrupts modify", "interrupts delete", "cluster delete", "cluster strip",
         "cluster modify", "cluster add", "register delete", "register strip", "register clear", "register modify", "register name",
         "register add", "register merge", "register split", "register enum", "register enum2", "register replace",
         "register sides", "register range", "register array", "register constraint", "optional")
MUST_SEE = tuple("equal:" + k for k in KINDS) + ("one_rule", "many_rules", "both_refuse", "included_files", "example")

PY = "/opt/vp/pyvenv/bin/python"
# Runs the patcher's main function in a forked child, so that nothing is left over from one case to the next.
CODE = r'''
import sys, os, struct, json, traceback
sys.path.insert(0, sys.argv[1])
import svdtools.patch as m
i, o = sys.stdin.buffer, sys.stdout.buffer
while True:
    h = i.read(4)
    if len(h) < 4:
        break
    cwd, name, log = json.loads(i.read(struct.unpack("<I", h)[0]))
    p = os.fork()
    if p == 0:
        try:
            os.chdir(cwd)
            f = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(f, 1); os.dup2(f, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            m.main(name)
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(1)
    _, s = os.waitpid(p, 0)
    o.write(struct.pack("<i", s if s < 0 else (-os.WTERMSIG(s) if os.WIFSIGNALED(s) else os.WEXITSTATUS(s))))
    o.flush()
'''
_proc = {}


def python(ctx, name):
    p = _proc.get(os.getpid())
    if p is None:
        env = dict(ctx.env, PYTHONDONTWRITEBYTECODE="1")
        p = _proc[os.getpid()] = subprocess.Popen([PY, "-c", CODE, runner.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
    b = json.dumps([ctx.case, name, ctx.path("python.log")]).encode()
    p.stdin.write(struct.pack("<I", len(b)) + b)
    p.stdin.flush()
    if not select.select([p.stdout], [], [], 120)[0]:
        raise Inconclusive("the Python patcher did not end")
    r = p.stdout.read(4)
    if len(r) < 4:
        raise Inconclusive("the Python helper died")
    return struct.unpack("<i", r)[0]


def shape(v):
    if isinstance(v, dict):
        return tuple(sorted(((k if k.startswith("_") else "", shape(x)) for k, x in v.items()), key=repr))
    return len(v) if isinstance(v, list) else type(v).__name__


def both(ctx, name, svd, out, must=None, view=lambda d: d):
    """Runs both patchers; True if both succeeded (with equal content), False if both refused."""
    cmd = "svdtools patch %s out.svd; python -c 'import svdtools.patch as m; m.main(\"%s\")'" % (name, name)
    rc, _, err = ctx.run(["patch", name, "out.svd"])
    pc = python(ctx, name)
    if rc == runner.HANG or pc < 0:
        raise Violation("a patcher did not end (Rust: exit %d, Python: %d)" % (rc, pc), cmd=cmd)
    if (rc == 0) != (pc == 0):
        log = (ctx.read("python.log") or b"").decode("utf8", "replace").strip().splitlines()[-1:]
        raise Violation("Rust: exit %d, Python: %d\nRust says: %s\nPython says: %s" % (
            rc, pc, err.decode("utf8", "replace")[-600:], "".join(log)[:300]), cmd=cmd)
    if rc:
        if must is True:
            raise Violation("both refuse a patch that can be applied: %s" % err.decode("utf8", "replace")[-600:], cmd=cmd)
        return False
    got = []
    for who, f in (("Rust", "out.svd"), ("Python", svd + ".patched")):
        raw = ctx.read(f)
        if raw is None:
            raise Violation("%s succeeds without output" % who, cmd=cmd)
        try:
            got.append(view(common.canon(model.read_device(raw.decode("utf8")))))
        except Exception as e:
            raise Violation("%s: the output cannot be read: %s" % (who, e), cmd=cmd)
    df = model.diff(got[0], got[1])
    if df:
        raise Violation("content differs (expected: Rust, found: Python): %s" % "; ".join(map(str, df[:4])), cmd=cmd)
    return True


def plain(v):
    """Without texts of arrays: the Python patcher keeps those of the first element."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items() if not ("dim" in v and k in ("displayName", "description"))}
    return [plain(x) for x in v] if isinstance(v, list) else v


def example(ctx, out):
    for n in os.listdir(runner.REPO + "/example"):
        s = os.path.join(runner.REPO, "example", n)
        if os.path.isdir(s):
            shutil.copytree(s, ctx.path(n))
        else:
            shutil.copy(s, ctx.path(n))
    for n in sorted(os.listdir(ctx.case)):
        if n.endswith(".yaml"):
            svd = next(ln.split(":")[1].strip() for ln in open(ctx.path(n)) if ln.startswith("_svd"))
            both(ctx, n, svd, out, True, plain)
            out.tags["example"] += 1


def case(ctx, rng, i, out):
    if i == 0:
        return example(ctx, out)
    mk = common.Make(rng)
    dev = mk.device()
    n = rng.choice((1, 1, 1, 1, 2, 3, 5))
    bad = rng.random() < 0.12
    y = {"_svd": "dev.svd"}
    y.update(mk.patch(dev, n, bad))
    bad = any(t.startswith("refused ") for t in mk.tags)
    ctx.write("dev.svd", model.write_device(dev))
    ctx.write("other/dev2.svd", model.write_device(dev))
    spread = rng.random() < 0.3
    if spread:
        t = include.Tree(ctx.case)
        svd = y.pop("_svd")
        path = os.path.join(t.top, "patch.yaml")
        # the file to copy from is looked for relative to the main file
        t.files[path] = {"_svd": svd}
        part = {}
        include.split(rng, t, y, path, texts=False)
        for p, v in t.files.items():
            if p == path:
                v = dict({"_svd": svd}, **{k: x for k, x in v.items() if k != "_svd"})
            ctx.write(os.path.relpath(p, t.top), dump(v))
    else:
        ctx.write("patch.yaml", dump(y))
    done = both(ctx, "patch.yaml", "dev.svd", out)
    kinds = sorted(k for k in mk.tags if not k.startswith("refused "))
    if done:
        for k in kinds:
            out.tags["equal:" + k] += 1
        out.tags["one_rule" if n == 1 else "many_rules"] += 1
        if spread:
            out.tags["included_files"] += 1
    else:
        out.tags["both_refuse"] += 1
        out.tags["both_refuse:" + ("bad" if bad else "clash" if n > 1 else "single")] += 1
    out.nontrivial = done or bad
    out.key = (tuple(sorted(mk.tags)), shape(y))
    out.sample = {"kinds": kinds, "outcome": "equal" if done else "both refuse"}


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
