"""Differential monitor: run `svdtools patch` on a generated device and patch, compare the whole outcome with the
reference interpreter."""
import os
import zlib

from . import gen, model, ref
from .prop import Prop
from .runner import Violation
from .yamlout import dump


def make(rng, weights, nrules, size=1, refuse=0.1, dev=None, setup=None, enum_derive=None, other=True, **kw):
    """Device, proposer with a grown patch."""
    g = gen.Gen(rng, size)
    d = dev or g.device()
    o = gen.Gen(rng, 0).device(2) if other and rng.random() < 0.5 else None
    ed = enum_derive or rng.choice(["enum", "enum", "field", "none", None])
    pr = Prop(g, d, ed or "enum", o)
    pr.ed_arg = ed
    if setup:
        setup(pr)
    pr.grow(weights, nrules, refuse=refuse, **kw)
    return pr


def write_case(ctx, pr, out="out.svd", arg_order=None):
    ctx.write("dev.svd", model.write_device(pr.dev))
    if pr.other is not None:
        ctx.write("other.svd", model.write_device(pr.other))
    y = {"_svd": "dev.svd"}
    y.update(pr.y)
    ctx.write("patch.yaml", dump(y))
    args = ["patch"]
    if pr.ed_arg:
        args += ["--enum-derive", pr.ed_arg]
    return args + ["patch.yaml"] + ([out] if out else [])


def shape(p):
    """Identity of a patch up to descriptions and numbers: which sections and keys it has."""
    if isinstance(p, dict):
        return tuple((k, shape(v)) for k, v in p.items())
    if isinstance(p, (list, tuple)):
        return tuple(shape(x) for x in p)
    return 0


def outcome(ctx, args, out="out.svd"):
    """Run; returns (status, model or None)."""
    rc, so, er = ctx.run(args)
    raw = ctx.read(out)
    if rc == 0:
        if raw is None:
            raise Violation("exit status 0 without an output file", cmd=["svdtools"] + args)
        try:
            return rc, model.read_device(raw.decode("utf8")), er
        except (model.ModelError, UnicodeDecodeError) as e:
            raise Violation("exit status 0 but the output is not readable: %s" % e, cmd=["svdtools"] + args)
    if raw is not None:
        raise Violation("run refused with status %d but left an output file" % rc, cmd=["svdtools"] + args)
    return rc, None, er


def check(ctx, pr, out):
    """Compare the tool with the reference on one grown patch."""
    args = write_case(ctx, pr)
    n = zlib.crc32(ctx.read("patch.yaml"))
    if n % 8 == 0:
        # only changes the message
        args.insert(n // 8 % (len(args) - 1) + 1 if "--enum-derive" not in args else 1, "--show-patch-on-error")
    if n % 16 == 1 and args[-1] == "out.svd":
        # the output's default place is beside the source
        args.pop()
        rc, got, er = outcome(ctx, args, "dev.svd.patched")
        if rc == 0:
            os.rename(ctx.path("dev.svd.patched"), ctx.path("out.svd"))
    else:
        rc, got, er = outcome(ctx, args)
    cmd = ["svdtools"] + args
    for k in pr.kept:
        out.tags[k] += 1
    if pr.reject:
        out.tags["refused"] += 1
        out.tags["refused:" + pr.reject[0]] += 1
        if rc == 0:
            raise Violation("the patch must be refused (%s: %s) but was applied" % pr.reject, cmd=cmd)
        if rc == 101:
            out.tags["panic_exit"] += 1
        return None
    out.tags["applied"] += 1
    if rc != 0:
        raise Violation("the patch must be applied but was refused with status %d: %s" % (
            rc, er.decode("utf8", "replace")[-1500:]), cmd=cmd)
    d = model.diff(model.norm(pr.cur), model.norm(got))
    if d:
        raise Violation("result differs from the specified one (rules %s):\n  %s" % (pr.kept, "\n  ".join(d)), cmd=cmd)
    return got


def finish(pr, out, sample=True):
    out.key = (shape(pr.y), len(pr.dev["peripherals"]))
    out.nontrivial = any(not k.endswith("~") for k in pr.kept)
    if sample and out.sample is None:
        out.sample = {"rules": pr.kept, "patch": dump(pr.y)[:1500], "refused": bool(pr.reject)}
