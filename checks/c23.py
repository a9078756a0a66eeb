"""C23: equal inputs give equal outputs for every schedule and in every environment."""
import os
import shutil
import subprocess
import sys

from checks import c22, c28
from kit import dev as devs
from kit import model, runner
from kit.runner import Violation

PID = "C23"
LEVEL = "stress"
RULE = ("a case counts if one request was carried out at least six times under different schedules, environments or argument "
        "orders and all outputs were compared; two cases are the same if they use the same command and inputs of the same "
        "structure")
CASES = {"quick": 160, "thorough": 9000}
COMMANDS = ("html", "patch", "python", "convert", "patch", "expand-patch", "patch", "mmap", "html", "makedeps", "htmlcompare",
            "interrupts", "patch", "python", "convert", "info")
MUST_SEE = (["cmd:" + c for c in set(COMMANDS)] +
            ["variant:" + k for k in ("again", "env", "cwd", "threads", "delays", "order", "alone", "together", "older_outputs",
                                      "mtimes", "hash_seed")] + ["html_events", "interleavings", "threads_used:3+"])
PY = "/opt/vp/pyvenv/bin/python"
PYMAIN = """import sys
k = sys.argv[1]
if k == 'mmap':
    import svdtools.mmap as m; print(m.main(sys.argv[2]))
elif k == 'interrupts':
    import svdtools.interrupts as m; print(m.main(sys.argv[2], True))
elif k == 'makedeps':
    import svdtools.makedeps as m; m.main(sys.argv[2], sys.argv[3])
"""
ENVS = ({"LC_ALL": "C"}, {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}, {"TZ": "Pacific/Kiritimati"}, {"HOME": "/"},
        {"TERM": "dumb", "COLUMNS": "20"}, {"RUST_BACKTRACE": "full"}, {"RUST_LOG": "trace"}, {"RUST_LOG": "off"},
        {"PWD": "/nowhere"}, {"NO_COLOR": "1"}, {"CLICOLOR_FORCE": "1"}, {"TMPDIR": "/nonexistent"}, {"SOURCE_DATE_EPOCH": "0"},
        {"RAYON_NUM_THREADS": "0"}, {"USER": "someone", "LOGNAME": "someone"})

prepare = c22.prepare


class Job(c22.Job):
    def make_html(self, rng):
        n = rng.choice((2, 3, 4, 6, 9)) if self.cmd == "html" else rng.choice((1, 2, 3))
        self.files = []
        names = set()
        for i in range(n):
            while True:
                d, exp = c28.device(rng, i)
                if all(r["fits"] for p in exp for r in p["regs"]):
                    break
            if self.files and rng.random() < 0.2:
                # names that only differ by the case of letters
                alt = rng.choice(sorted(names)).swapcase()
                d["name"] = alt if alt not in names else d["name"]
            names.add(d["name"])
            f = "%sd%d.svd" % (rng.choice(("", "", "x/", "y/")), i)
            self.ctx.write(f, model.write_device(d))
            self.files.append(f)
            self.key = (self.key, devs.facts(d))
        self.outdir = "pages"
        rng.shuffle(self.files)
        self.args = [self.cmd, "pages"] + self.files

    make_htmlcompare = make_html

    def make_python(self, rng):
        k = rng.choice(("mmap", "interrupts", "makedeps"))
        if k == "makedeps":
            self.tree_plain(rng)
            self.args, self.outs = ["-c", PYMAIN, k, self.main, "deps.d"], ["deps.d"]
        else:
            while True:
                d = self.dev(rng, "in.svd")
                v = [x["value"] for p in d["peripherals"] for x in p["interrupts"]]
                self.args, self.stdout = ["-c", PYMAIN, k, "in.svd"], True
                # some devices are not understood by the memory map
                if (k == "mmap" or len(v) == len(set(v))) and self.go()[0] == 0:
                    break

    def tree_plain(self, rng):
        from kit import include
        while True:
            self.ctx.fresh()
            t, main, had = include.random_tree(rng, self.ctx.case, plain=True)
            try:
                m, seen = include.merge(t.files, main)
            except include.Refused:
                continue
            if seen:
                break
        for d in include.DIRS:
            os.makedirs(os.path.join(t.top, d), exist_ok=True)
        t.save()
        self.main = os.path.relpath(main, t.top)
        from kit import patchdiff
        self.key = patchdiff.shape(m)

    def go(self, env=None, args=None, cwd=None, exe=None):
        e = {"RAYON_NUM_THREADS": "2"}
        py = self.cmd == "python"
        if py:
            e.update({"PYTHONPATH": runner.REPO, "PYTHONDONTWRITEBYTECODE": "1"})
        e.update(env or {})
        a = args or self.args
        rc, so, er = self.ctx.run(a, env=e, cwd=cwd, exe=exe or (PY if py else None))
        self.text = "%s%s svdtools %s" % ("cd %s; " % cwd if cwd else "", " ".join("%s=%s" % x for x in (env or {}).items()), " ".join(a))
        return rc, so, er


def same(j, what, rc, so, er, want, want_so, index=True):
    if rc:
        raise Violation("%s: refused with status %d where the first run succeeded: %s" % (
            what, rc, er.decode("utf8", "replace")[-400:]), cmd=j.text)
    got = j.results(j.inputs_same())
    for p in sorted(set(got) | set(want)):
        if p not in got or p not in want:
            raise Violation("%s: %s is %s" % (what, p, "missing" if p in want else "additional"), cmd=j.text)
        if got[p] != want[p]:
            a, b = want[p], got[p]
            k = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), min(len(a), len(b)))
            raise Violation("%s: %s differs from byte %d on:\n  first run %r\n  this run  %r" % (
                what, p, k, a[max(0, k - 60):k + 100], b[max(0, k - 60):k + 100]), cmd=j.text)
    if j.stdout and so != want_so:
        raise Violation("%s: the printed result differs" % what, cmd=j.text)


def absolute(j):
    """The arguments with every path absolute."""
    case = j.ctx.case
    r = []
    for a in j.args:
        p = os.path.join(case, a)
        known = a in j.inputs or a in j.outs or a == j.outdir
        r.append(p if known and not a.startswith("-") else a)
    return r


def case(ctx, rng, i, out):
    j = Job(ctx, rng, COMMANDS[i % len(COMMANDS)])
    out.tags["cmd:" + j.cmd] += 1
    seen = set()
    many = j.cmd == "html"
    # paths are part of the results of these two
    paths = j.cmd in ("expand-patch", "makedeps") or j.cmd == "python" and "makedeps" in j.args
    if paths:
        j.args = absolute(j)
    rc, so, er = j.go()
    if rc:
        raise Violation("refused with status %d: %s" % (rc, er.decode("utf8", "replace")[-400:]), cmd=j.text)
    want, want_so = j.results(j.inputs_same()), so
    if not want and not j.stdout:
        raise Violation("exit status 0 without any output", cmd=j.text)

    def check(what, rc, so, er, w=want):
        same(j, what, rc, so, er, w, want_so)
        out.tags["variant:" + what] += 1

    # over the results of the run before
    rc, so, er = j.go()
    check("older_outputs", rc, so, er)
    for _ in range(3):
        j.reset()
        check("again", *j.go())
    for e in rng.sample(ENVS, 3):
        if j.cmd == "python" and "RAYON_NUM_THREADS" in e:
            continue
        j.reset()
        check("env", *j.go(e))
    if j.cmd == "python":
        for s in rng.sample(range(1, 1000), 3):
            j.reset()
            check("hash_seed", *j.go({"PYTHONHASHSEED": str(s)}))
    j.reset()
    other = os.path.join(ctx.dir, "elsewhere", "é x")
    os.makedirs(other, exist_ok=True)
    check("cwd", *j.go(args=absolute(j), cwd=other))
    if os.listdir(other):
        raise Violation("the run left %s in its working directory" % os.listdir(other), cmd=j.text)
    j.reset()
    for p in j.inputs:
        if not os.path.islink(ctx.path(p)):
            t = rng.choice((0, 1, 10 ** 9, 1.5 * 10 ** 9))
            os.utime(ctx.path(p), (t, t))
    check("mtimes", *j.go())
    if many or j.cmd == "htmlcompare":
        for t in rng.sample((1, 2, 3, 4, 8, 16, 40), 3):
            j.reset()
            check("threads", *j.go({"RAYON_NUM_THREADS": str(t)}))
    if j.cmd != "python":
        for _ in range(3 if many else 1):
            delayed(j, rng, out, seen, check)
    if many:
        for _ in range(2):
            j.reset()
            fs = list(j.files)
            rng.shuffle(fs)
            check("order", *j.go({"RAYON_NUM_THREADS": str(rng.choice((1, 3, 8)))}, args=[j.cmd, "pages"] + fs))
        alone(j, rng, out, want)
    if i % 5 == 0:
        together(j, rng, out, want, want_so)
    out.tags["interleavings"] += len(seen)
    out.nontrivial = True
    out.key = (j.cmd, j.key)
    out.sample = {"command": j.args if j.cmd != "python" else j.args[2:], "interleavings": len(seen)}


def delayed(j, rng, out, seen, check):
    """Threads held up at their system calls."""
    j.reset()
    log = j.ctx.dir + "/fi.log"
    open(log, "w").close()
    rc, so, er = j.go({"LD_PRELOAD": j.ctx.shared, "FI_ROOT": j.ctx.case, "FI_LOG": log, "FI_STDOUT": "1",
                       "FI_SEED": str(rng.randrange(1 << 30)), "FI_DELAY": str(rng.choice((50, 300, 1500))),
                       "RAYON_NUM_THREADS": str(rng.choice((2, 3, 6, 12)))})
    check("delays", rc, so, er)
    if j.cmd != "html":
        return
    who, seq = {}, []
    for e in j.events():
        if e[0] in ("open", "openw", "rename", "close"):
            seq.append((who.setdefault(e[4], len(who)), os.path.basename(e[1])))
    out.tags["html_events"] += len(seq)
    if len(who) >= 3:
        out.tags["threads_used:3+"] += 1
    seen.add(tuple(seq))


def alone(j, rng, out, want):
    """Pages do not depend on which other devices are processed."""
    j.reset()
    fs = rng.sample(j.files, rng.randint(1, len(j.files) - 1))
    rc, so, er = j.go(args=[j.cmd, "pages"] + fs)
    if rc:
        raise Violation("some of the devices: refused with status %d" % rc, cmd=j.text)
    got = j.results(j.inputs_same())
    names = {f: model.read_device(j.inputs[f].decode()).get("name") for f in fs}
    expect = {"pages/index.html"} | {"pages/%s.html" % n for n in names.values()} | {"pages/" + os.path.basename(f) for f in fs}
    if set(got) != expect:
        raise Violation("some of the devices: wrote %s instead of %s" % (sorted(got), sorted(expect)), cmd=j.text)
    for p in got:
        if p != "pages/index.html" and got[p] != want.get(p):
            raise Violation("%s depends on the other devices processed with it" % p, cmd=j.text)
    # the others afterwards: the pages that are there stay
    rest = [f for f in j.files if f not in fs]
    rc, so, er = j.go(args=[j.cmd, "pages"] + rest)
    if rc:
        raise Violation("the rest of the devices: refused with status %d" % rc, cmd=j.text)
    now = j.results(j.inputs_same())
    if set(now) != set(want) or any(now[p] != want[p] for p in want if p != "pages/index.html"):
        raise Violation("pages written in two runs are not those written in one", cmd=j.text)
    out.tags["variant:alone"] += 1


def together(j, rng, out, want, want_so):
    """Several runs at the same time, each in its own copy."""
    n = 4
    dirs = []
    env = dict(j.ctx.env)
    env["RAYON_NUM_THREADS"] = "4"
    if j.cmd == "python":
        env.update({"PYTHONPATH": runner.REPO, "PYTHONDONTWRITEBYTECODE": "1"})
    j.reset()
    # one set of inputs, separate outputs
    procs = []
    for k in range(n):
        o = os.path.join(j.ctx.dir, "par%d" % k)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        a = absolute(j)
        if j.outs:
            p = os.path.join(j.ctx.case, j.outs[0])
            if p not in a:
                return
            a = [os.path.join(o, "result" + os.path.splitext(j.outs[0])[1]) if x == p else x for x in a]
        elif j.outdir:
            a = [os.path.join(o, "pages") if x == os.path.join(j.ctx.case, j.outdir) else x for x in a]
        if j.cmd == "makedeps" or j.cmd == "python" and j.outs:
            return          # the name of the output is part of it
        dirs.append(o)
        procs.append(subprocess.Popen([PY if j.cmd == "python" else j.ctx.exe] + a, cwd=o, env=env, stdin=subprocess.DEVNULL,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL))
    outs = [p.communicate(timeout=runner.WALL_LIMIT)[0] for p in procs]
    j.text = "%d runs at once: svdtools %s" % (n, " ".join(j.args))
    for o, p, so in zip(dirs, procs, outs):
        if p.returncode:
            raise Violation("together: status %d where a single run succeeds" % p.returncode, cmd=j.text)
        got = c22.tree(o)
        if j.outs:
            ok = list(got.values()) == [want[j.outs[0]]]
        elif j.outdir:
            ok = got == want
        else:
            ok = so == want_so
        if not ok:
            raise Violation("together: the outputs differ from those of a single run", cmd=j.text)
        shutil.rmtree(o)
    out.tags["variant:together"] += 1


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
