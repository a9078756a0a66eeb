"""C22: failed runs say so and damage nothing, successful ones are complete."""
import ctypes
import errno
import os
import shutil
import subprocess
import sys

from checks import c28
from kit import dev as devs
from kit import include, model, patchdiff, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

PID = "C22"
LEVEL = "fault_enumeration"
RULE = ("a case counts if at least one input-side or output-side fault was injected and observed to happen, and the exit "
        "status, the outputs, the inputs and a later fault-free run were judged; two cases are the same if they use the same "
        "command, kinds of faults and structure of inputs")
CASES = {"quick": 300, "thorough": 16000}
COMMANDS = ("patch", "patch", "patch", "expand-patch", "makedeps", "convert", "convert", "mmap", "interrupts", "info", "html",
            "html", "htmlcompare")
MUST_SEE = (["cmd:" + c for c in set(COMMANDS)] +
            ["injected:" + k for k in ("open", "openw", "read", "write", "mkdir", "short", "again", "end", "stdout")] +
            ["fault:" + k for k in ("missing", "directory", "not_text", "cut", "garbage", "rule", "out_missing_dir", "out_is_dir",
                                   "out_under_file", "out_full", "stdout_full", "stdout_pipe", "size_limit", "config", "format", "no_svd_key",
                                   "not_mapping", "arguments")] +
            ["kept_existing", "created_none", "rerun_repaired", "after_crash", "complete_despite_faults"])
ERR = (errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES, errno.EFBIG)
ASSUMPTIONS = ["`html` passes over arguments that are not files on purpose; crashes are modelled as the process ending at a "
               "system call, without loss of what it had already written",
               "`interrupts` does not decode the parts of a file it does not list"]


def prepare(top, tier):
    so = os.path.join(top, "faults.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(runner.VERIF, "kit", "faults.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError(p.stdout.decode())
    return so


class Job:
    """A command with its inputs in the case directory, kept pristine beside it."""

    def __init__(self, ctx, rng, cmd):
        self.ctx, self.cmd = ctx, cmd
        self.stdout = False          # does standard output carry the result?
        self.outs = []               # output files, relative
        self.outdir = None
        self.key = 0
        getattr(self, "make_" + cmd.replace("-", "_"))(rng)
        self.keep()

    def keep(self):
        self.pristine = self.ctx.case + "0"
        shutil.rmtree(self.pristine, ignore_errors=True)
        shutil.copytree(self.ctx.case, self.pristine, symlinks=True)
        self.inputs = tree(self.ctx.case)

    def reset(self):
        shutil.rmtree(self.ctx.case)
        shutil.copytree(self.pristine, self.ctx.case, symlinks=True)

    # ---- the commands
    def dev(self, rng, name, ext=None):
        d = devs.make(rng, size=rng.choice([0, 1]), plain=True, unique=True, tags=self.ctx.out.tags, parts=("per", "text"))
        self.key = (self.key, devs.facts(d))
        self.ctx.write(name, model.write_device(d))
        return d

    def make_patch(self, rng):
        while True:
            pr = patchdiff.make(rng, ALL, rng.randint(1, 6), refuse=0)
            if not pr.reject:
                break
        name = rng.choice(["out.svd", "out.svd", None, "sub/o.svd"])
        args = patchdiff.write_case(self.ctx, pr, name)
        if name and "/" in name:
            os.makedirs(self.ctx.path("sub"))
        if rng.random() < 0.3:
            self.ctx.write("fmt.yaml", "number_indent: UpperHex\nregister_reset_value: UpperHex\n")
            args[1:1] = ["--format-config", "fmt.yaml"]
        if rng.random() < 0.4:
            y = {"_svd": "dev.svd", "_include": ["inc.yaml"]}
            self.ctx.write("inc.yaml", dump(pr.y) if pr.y else "{}\n")
            self.ctx.write("patch.yaml", dump(y))
        self.pr = pr
        self.args, self.outs = args, [name or "dev.svd.patched"]
        self.key = patchdiff.shape(pr.y)

    def make_tree(self, rng):
        while True:
            self.ctx.fresh()
            t, main, had = include.random_tree(rng, self.ctx.case)
            try:
                m, seen = include.merge(t.files, main)
            except include.Refused:
                continue
            if seen:
                break
        for d in include.DIRS:
            os.makedirs(os.path.join(t.top, d), exist_ok=True)
        for n, target in t.links.items():
            os.symlink(os.path.join(t.top, target), os.path.join(t.top, n))
        t.save()
        self.key = patchdiff.shape(m)
        self.t, self.main, self.needed = t, os.path.relpath(main, t.top), {os.path.relpath(x, t.top) for x in seen}
        return self.main

    def make_expand_patch(self, rng):
        m = self.make_tree(rng)
        self.args = ["expand-patch", m]
        if rng.random() < 0.6:
            self.args.append("all.yaml")
            self.outs = ["all.yaml"]
        else:
            self.stdout = True

    def make_makedeps(self, rng):
        self.args, self.outs = ["makedeps", self.make_tree(rng), "deps.d"], ["deps.d"]

    def make_convert(self, rng):
        self.dev(rng, "in.svd")
        ext = rng.choice(("svd", "json", "yaml"))
        self.args, self.outs = ["convert", "in.svd", "out." + ext], ["out." + ext]
        if rng.random() < 0.3:
            self.args.append("--expand")
        if rng.random() < 0.3:
            self.ctx.write("fmt.yaml", "number_indent: UpperHex\nregister_reset_value: UpperHex\n")
            self.args += ["--format-config", "fmt.yaml"]
        k = rng.random()
        if k < 0.4:
            e2 = rng.choice(("json", "yaml"))
            rc, so, er = self.ctx.run(["convert", "in.svd", "mid." + e2])
            if rc:
                raise runner.Inconclusive("convert refused")
            os.unlink(self.ctx.path("in.svd"))
            self.args[1] = "mid." + e2

    def make_mmap(self, rng):
        self.dev(rng, "in.svd")
        self.args, self.stdout = ["mmap", "in.svd"], True

    def make_interrupts(self, rng):
        self.dev(rng, "in.svd")
        self.args, self.stdout = ["interrupts", "in.svd"], True

    def make_info(self, rng):
        self.dev(rng, "in.svd")
        self.args, self.stdout = ["info", "in.svd", "device-name"], True

    def make_html(self, rng):
        n = rng.choice((1, 1, 2, 4)) if self.cmd == "html" else rng.choice((1, 2, 3))
        fs = []
        for i in range(n):
            while True:
                d, exp = c28.device(rng, i)
                if all(r["fits"] for p in exp for r in p["regs"]):
                    break
            self.key = (self.key, devs.facts(d))
            self.ctx.write("d%d.svd" % i, model.write_device(d))
            fs.append("d%d.svd" % i)
        self.outdir = rng.choice(("html", "html", "."))
        if self.cmd == "htmlcompare" and rng.random() < 0.3:
            self.outdir = "deep/html"
        self.args = [self.cmd, self.outdir] + fs

    make_htmlcompare = make_html

    # ---- running and judging
    def run(self, fi=None, **kw):
        env = {"RAYON_NUM_THREADS": str(kw.pop("threads", 2))}
        if fi is not None:
            env.update({"LD_PRELOAD": self.ctx.shared, "FI_ROOT": self.ctx.case, "FI_LOG": self.ctx.dir + "/fi.log",
                        "FI_STDOUT": "1"})
            env.update(fi)
            open(self.ctx.dir + "/fi.log", "w").close()
        rc, so, er = self.ctx.run(self.args, env=env, **kw)
        self.text = "%s svdtools %s" % (" ".join("%s=%s" % x for x in (fi or {}).items()), " ".join(self.args))
        return rc, so, er

    def events(self):
        with open(self.ctx.dir + "/fi.log", encoding="utf8", errors="replace") as f:
            return [x.rstrip("\n").split("\t") for x in f]

    def inputs_same(self):
        now = tree(self.ctx.case)
        for p, b in self.inputs.items():
            if p in self.outs:
                continue
            if now.get(p) != b:
                raise Violation("an input file changed: %s" % p, cmd=self.text)
        return now

    def results(self, now=None):
        now = tree(self.ctx.case) if now is None else now
        return {p: b for p, b in now.items() if p not in self.inputs or p in self.outs}

    def complete(self, so, extra=False):
        """The outputs are those of the undisturbed run."""
        got = self.results(self.inputs_same())
        for p in sorted(set(got) | set(self.want)):
            if p not in got:
                raise Violation("exit status 0 but %s is missing" % p, cmd=self.text)
            if p not in self.want:
                if extra:
                    continue
                raise Violation("exit status 0 with an additional file %s" % p, cmd=self.text)
            if got[p] != self.want[p]:
                raise Violation("exit status 0 but %s is not what the undisturbed run wrote (%d instead of %d bytes)" % (
                    p, len(got[p]), len(self.want[p])), cmd=self.text)
        if self.stdout and so is not None and so != self.want_so:
            raise Violation("exit status 0 but the output is not what the undisturbed run wrote (%d instead of %d bytes)" % (
                len(so), len(self.want_so)), cmd=self.text)

    def refused(self, rc, what, outs_before):
        """An input-side fault: no output appears or changes."""
        if rc == 0:
            raise Violation("exit status 0 although %s" % what, cmd=self.text)
        if rc == runner.HANG:
            raise Violation("does not end although %s" % what, cmd=self.text)
        if self.outdir is None:
            now = tree(self.ctx.case)
            for p in self.outs:
                if now.get(p) != outs_before.get(p):
                    raise Violation("refused (%s) but %s %s" % (
                        what, p, "changed" if p in outs_before else "was created"), cmd=self.text)
                self.ctx.out.tags["kept_existing" if p in outs_before else "created_none"] += 1


def tree(top):
    r = {}
    for root, ds, fs in os.walk(top):
        for f in fs + [d for d in ds if os.path.islink(os.path.join(root, d))]:
            p = os.path.join(root, f)
            k = os.path.relpath(p, top)
            if os.path.islink(p):
                r[k] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as h:
                    r[k] = h.read()
    return r


def case(ctx, rng, i, out):
    j = Job(ctx, rng, COMMANDS[i % len(COMMANDS)])
    out.tags["cmd:" + j.cmd] += 1
    rc, so, er = j.run()
    if rc:
        raise Violation("refused with status %d without any fault: %s" % (rc, er.decode("utf8", "replace")[-300:]), cmd=j.text)
    j.want, j.want_so = j.results(j.inputs_same()), so
    if not (j.want if not j.stdout else so):
        raise Violation("exit status 0 without any output", cmd=j.text)
    kinds = set()
    for _ in range(5 if j.cmd in ("html", "htmlcompare") else 7):
        kinds.add(injected(j, rng, out))
    for _ in range(2):
        kinds.add(bad_input(j, rng, out))
    for _ in range(2):
        kinds.add(bad_output(j, rng, out))
    if rng.random() < 0.3:
        kinds.add(arguments(j, rng, out))
    kinds.discard(None)
    out.nontrivial = bool(kinds)
    out.key = (j.cmd, sorted(kinds), j.key)
    out.sample = {"command": j.args, "faults": sorted(kinds)}


def existing(j, rng):
    """Perhaps outputs of an earlier run are there."""
    j.reset()
    if j.outs and rng.random() < 0.5:
        for p in j.outs:
            j.ctx.write(p, "something older " * rng.choice((1, 4000)))
    return {p: b for p, b in tree(j.ctx.case).items() if p in j.outs}


def rerun(j, out):
    """Whatever a failed run leaves behind, the next one is complete."""
    rc, so, er = j.run()
    if rc:
        raise Violation("the run after a failed one is refused with status %d: %s" % (
            rc, er.decode("utf8", "replace")[-300:]), cmd=j.text)
    j.text = "(after a failed run) " + j.text
    j.complete(so, extra=True)
    out.tags["rerun_repaired"] += 1


def injected(j, rng, out):
    """A fault at one system call."""
    threads = rng.choice((1, 1, 3))
    before = existing(j, rng)
    rc, so, er = j.run({}, threads=threads)
    if rc:
        raise Violation("status %d where the same run succeeded before" % rc, cmd=j.text)
    j.complete(so)
    ev = j.events()
    n = {}
    for e in ev:
        n[e[0]] = n.get(e[0], 0) + 1
    ops = [o for o in ("open", "read", "openw", "write", "write", "write", "mkdir", "rename") if n.get(o)]
    op = rng.choice(ops)
    at = rng.choice((rng.randrange(n[op]), rng.randrange(n[op]), 0, n[op] - 1))
    kind = rng.choice(("fail", "fail", "fail", "end", "short", "again"))
    if kind in ("short",) and op not in ("read", "write"):
        kind = "fail"
    fi = {"FI_OP": op, "FI_AT": str(at), "FI_KIND": str(rng.choice(ERR)) if kind == "fail" else kind}
    if kind in ("short", "again") and rng.random() < 0.6:
        fi.update(FI_EVERY=str(rng.choice((1, 2, 3)) if kind == "short" else 2), FI_AT="0")
    elif kind == "fail" and rng.random() < 0.5:
        fi["FI_EVERY"] = "-1"       # from then on
    before = existing(j, rng)
    rc, so, er = j.run(fi, threads=threads)
    done = [e for e in j.events() if e[-1]]
    if not done:
        if rc:
            raise Violation("status %d without any fault" % rc, cmd=j.text)
        j.complete(so)
        out.tags["not_reached"] += 1
        return None
    where = done[0][1]
    out.tags["injected:" + (kind if kind != "fail" else op)] += 1
    if where == "<stdout>":
        out.tags["injected:stdout"] += 1
    if kind == "end":
        if rc == 0:
            raise Violation("exit status 0 although the process ended at %s" % op, cmd=j.text)
    elif kind == "short" and rc:
        raise Violation("status %d although nothing failed (partial %ss): %s" % (
            rc, op, er.decode("utf8", "replace")[-300:]), cmd=j.text)
    if rc == 0:
        j.complete(so)
        out.tags["complete_despite_faults"] += 1
    else:
        j.inputs_same()
        if op in ("open", "read") and j.outdir is None and not any(e[0] == "openw" for e in j.events()):
            j.refused(rc, "%s of %s failed" % (op, where), before)
        elif op in ("open", "read") and j.outs and where not in [j.ctx.path(p) for p in j.outs]:
            raise Violation("an output was opened although %s of %s failed" % (op, where), cmd=j.text)
    if rng.random() < 0.5:
        rerun(j, out)
        if kind == "end":
            out.tags["after_crash"] += 1
    return "%s:%s" % (kind, op)


def needed_inputs(j):
    if j.cmd in ("expand-patch", "makedeps"):
        return sorted(j.needed | {j.main})
    if j.cmd == "patch":
        return [p for p in ("patch.yaml", "dev.svd", "inc.yaml", "fmt.yaml") if p in j.inputs] + (
            ["other.svd"] if any("other.svd" in str(v) for v in j.pr.y.values()) else [])
    if j.cmd in ("html", "htmlcompare"):
        return sorted(j.inputs)
    return [j.args[1]] + (["fmt.yaml"] if "fmt.yaml" in j.inputs and "fmt.yaml" in j.args else [])


def bad_input(j, rng, out):
    before = existing(j, rng)
    ks = ["missing", "missing", "directory", "not_text", "garbage", "garbage", "cut"]
    if j.cmd == "patch":
        ks += ["rule", "rule", "no_svd_key", "not_mapping", "config", "config"]
    if j.cmd in ("expand-patch", "makedeps"):
        ks += ["not_mapping"]
    if j.cmd == "convert":
        ks += ["config", "config", "format", "format"]
    k = rng.choice(ks)
    p = rng.choice(needed_inputs(j)) if k != "format" else j.args[1]
    full = j.ctx.path(p)
    raw = j.inputs[p]
    yaml = j.cmd in ("expand-patch", "makedeps") or p.endswith(".yaml") and (j.cmd == "patch" or p == "fmt.yaml")
    if isinstance(raw, tuple):
        return None
    if k in ("missing", "directory") and j.cmd == "html" or k == "not_text" and j.cmd == "interrupts":
        return None
    args = list(j.args)
    if k == "missing":
        os.unlink(full)
    elif k == "directory":
        os.unlink(full)
        os.makedirs(full)
    elif k == "not_text":
        with open(full, "wb") as f:
            f.write(raw[:len(raw) // 2] + b"\xff\xfe\xff" + raw[len(raw) // 2:])
    elif k == "garbage":
        with open(full, "wb") as f:
            f.write(rng.choice((b"{[}\n", b"a: [b\nc: 'd\n", b"a: b: c\n- x\n", b"\"")) if yaml else rng.choice((
                b"", b"\n", b"<device>", b"<a></b>", b"garbage", b"<device></device>", b"{[", raw.replace(b"eripheral", b"erpheral"))))
    elif k == "cut":
        if not raw.rstrip().endswith((b">", b"}")):
            return None
        with open(full, "wb") as f:
            f.write(raw.rstrip()[:rng.randrange(1, len(raw.rstrip()))])
        if yaml:
            return None
    elif k == "not_mapping":
        if not yaml or p == "fmt.yaml":
            return None
        with open(full, "wb") as f:
            f.write(rng.choice((b"- a\n- b\n", b"5\n", b"text\n", b"~\n" if p in ("patch.yaml",) else b"- 1\n")))
    elif k == "no_svd_key":
        y = dict(j.pr.y)
        j.ctx.write("patch.yaml", dump(y) if y else "_modify:\n  name: X\n")
    elif k == "format":
        # the input is of another format than stated
        args += ["--input-format", rng.choice([f for f in ("xml", "json", "yaml") if f != {"svd": "xml"}.get(p[-3:], p[-4:])])]
        if args[-1] == "yaml" and p.endswith(".json"):
            args[-1] = "xml"
    elif k == "config":
        if "fmt.yaml" not in j.inputs:
            args[1:1] = ["--format-config", "fmt.yaml"]
            if rng.random() < 0.3:
                os.path.exists(j.ctx.path("fmt.yaml"))
        if "fmt.yaml" in j.inputs or rng.random() < 0.7:
            j.ctx.write("fmt.yaml", rng.choice(("register_name: Loud\n", "- a\n", "register_size: [1]\n", "peripheral_base_address: hexx\n",
                                               "a: b: c\n")))
    elif k == "rule":
        while True:
            pr = patchdiff.make(rng, ALL, rng.randint(1, 6), refuse=0.6)
            if pr.reject:
                break
        old = j.args
        patchdiff.write_case(j.ctx, pr, None)
        if pr.ed_arg:
            args = ["patch", "--enum-derive", pr.ed_arg] + [a for a in args[1:] if a not in ("--enum-derive", "enum", "field", "none")]
        else:
            args = [a for a in args if a not in ("--enum-derive", "enum", "field", "none")]
    keep = j.args
    j.args = args
    bad = tree(j.ctx.case)
    try:
        rc, so, er = j.run()
        j.refused(rc, "input is bad (%s: %s)" % (k, p), before)
        now = tree(j.ctx.case)
        for q, b in bad.items():
            if q in j.inputs and q not in j.outs and now.get(q) != b:
                raise Violation("an input file changed: %s" % q, cmd=j.text)
        if j.stdout and so:
            raise Violation("refused (%s: %s) but printed a result" % (k, p), cmd=j.text)
    finally:
        j.args = keep
    out.tags["fault:" + k] += 1
    if rc == 101:
        out.tags["panic_exit"] += 1
    if rng.random() < 0.3:
        # with the input as it was the run is complete
        for q in (p, "patch.yaml", "dev.svd", "fmt.yaml", "other.svd"):
            f = j.ctx.path(q)
            if os.path.isdir(f):
                shutil.rmtree(f)
            if q in j.inputs:
                shutil.copy2(os.path.join(j.pristine, q), f)
            elif os.path.exists(f):
                os.unlink(f)
        rerun(j, out)
    return k


def bad_output(j, rng, out):
    existing(j, rng)
    keep = list(j.args)
    kw = {}
    sink = None
    if j.stdout:
        k = rng.choice(("stdout_full", "stdout_pipe", "size_limit"))
        if not j.want_so:
            return None
        if k == "stdout_full":
            sink = open("/dev/full", "wb")
        elif k == "stdout_pipe":
            r, w = os.pipe()
            os.close(r)
            sink = os.fdopen(w, "wb")
        else:
            lim = rng.choice((0, len(j.want_so) - 1, rng.randrange(len(j.want_so))))
            sink = open(j.ctx.dir + "/sink", "wb")
            kw["fsize"] = lim
        kw["stdout"] = sink
    else:
        k = rng.choice(("out_missing_dir", "out_is_dir", "out_under_file", "out_full", "size_limit", "size_limit"))
        if k == "size_limit":
            big = max(len(b) for b in j.want.values())
            if not big:
                return None
            kw["fsize"] = rng.choice((0, big - 1, rng.randrange(big)))
            if j.outs and rng.random() < 0.5:
                j.reset()
        elif j.outdir is not None:
            j.reset()
            if k == "out_is_dir":
                # a page cannot be written
                top = j.ctx.path(j.outdir)
                os.makedirs(os.path.join(top, "index.html"))
            elif k == "out_under_file":
                j.ctx.write("plain", "x")
                j.args[1] = rng.choice(("plain", "plain/html"))
            elif k == "out_missing_dir" and j.cmd == "html":
                j.args[1] = "no/such/dir"
            else:
                return None
        else:
            o = j.args[-1] if j.args[-1] in j.outs else None
            if k == "out_is_dir":
                p = j.ctx.path(j.outs[0])
                if os.path.exists(p):
                    os.unlink(p)
                os.makedirs(p)
            elif o is None:
                return None
            elif k == "out_full":
                if j.cmd == "convert":
                    os.path.exists(j.ctx.path(o)) and os.unlink(j.ctx.path(o))
                    os.symlink("/dev/full", j.ctx.path(o))
                else:
                    j.args[-1] = "/dev/full"
            elif k == "out_missing_dir":
                j.args[-1] = "no/such/" + o
            else:
                j.ctx.write("plain", "x")
                j.args[-1] = "plain/" + o
    try:
        rc, so, er = j.run(**kw)
        if rc == 0:
            raise Violation("exit status 0 although the output could not be written (%s %s)" % (k, kw.get("fsize", "")), cmd=j.text)
        if rc == runner.HANG:
            raise Violation("does not end (%s)" % k, cmd=j.text)
        now = tree(j.ctx.case)
        for p, b in j.inputs.items():
            if p not in j.outs and now.get(p) != b:
                raise Violation("an input file changed: %s" % p, cmd=j.text)
    finally:
        j.args = keep
        if sink:
            try:
                sink.close()
            except OSError:
                pass
    out.tags["fault:" + k] += 1
    if k == "size_limit" and rng.random() < 0.6:
        rerun(j, out)
    return k


def arguments(j, rng, out):
    """Requests that make no sense."""
    j.reset()
    keep = j.args
    k = rng.choice(("few", "many", "flag", "value"))
    if k == "few":
        j.args = keep[:1]
        if j.cmd in ("html", "htmlcompare"):
            j.args = keep[:1]
    elif k == "many":
        if j.outdir is not None:
            return None
        j.args = keep + ["x", "y", "z"]
    elif k == "flag":
        j.args = keep + ["--no-such-flag"]
    elif j.cmd == "patch":
        j.args = keep + ["--enum-derive", "all"]
    elif j.cmd == "convert":
        j.args = keep + [rng.choice(("--input-format", "--output-format")), "toml"]
    elif j.cmd == "info":
        j.args = keep[:2] + ["no-such-request"]
    else:
        return None
    try:
        rc, so, er = j.run()
        if rc == 0:
            raise Violation("exit status 0 for arguments that make no sense", cmd=j.text)
        if tree(j.ctx.case) != j.inputs:
            raise Violation("files changed by a run with arguments that make no sense", cmd=j.text)
    finally:
        j.args = keep
    out.tags["fault:arguments"] += 1
    return "arguments"


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
