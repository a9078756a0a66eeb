"""Differential check of one family of rules, with other rules around it as context.

A case grows a patch out of context rules first and then of rules of the family. The outcome of the real tool is
compared with the reference. A difference counts against the family only if the tool agrees with the reference on the
same patch without the rules of the family (otherwise it belongs to another property, whose check reports it)."""
from . import patchdiff, ref
from .model import clone
from .prop import ALL
from .runner import Violation


def context(focus, drop=()):
    return {k: v for k, v in ALL.items() if k not in focus and k not in drop}


def grow(rng, focus, ctx_weights=None, nctx=(0, 3), nfocus=(1, 3), refuse=0.25, size=1, setup=None, dev=None,
         alone=0.3, **kw):
    ctx_weights = context(focus) if ctx_weights is None else ctx_weights
    pr = patchdiff.make(rng, ctx_weights, 0 if not ctx_weights or rng.random() < alone else rng.randint(*nctx), size, refuse=0, dev=dev, **kw)
    if setup:
        setup(pr)
    pr.ctx_y, pr.ctx_cur, pr.ctx_kept = clone(pr.y), pr.cur, list(pr.kept)
    pr.grow(focus, rng.randint(*nfocus), refuse=refuse, reject_from=focus, tries=40)
    pr.focus_kept = pr.kept[len(pr.ctx_kept):]
    return pr


def attributed(ctx, pr):
    """Does the tool agree with the reference without the rules of the family?"""
    full = (pr.y, pr.cur, pr.reject, pr.kept)
    pr.y, pr.cur, pr.reject, pr.kept = pr.ctx_y, pr.ctx_cur, None, pr.ctx_kept
    keep = {n: ctx.read(n) for n in ("patch.yaml", "out.svd")}
    try:
        class Quiet:
            from collections import Counter
            tags = Counter()
        import os
        if os.path.exists(ctx.path("out.svd")):
            os.unlink(ctx.path("out.svd"))
        patchdiff.check(ctx, pr, Quiet)
        return True
    except Violation:
        return False
    finally:
        pr.y, pr.cur, pr.reject, pr.kept = full
        for n, b in keep.items():
            if b is not None:
                ctx.write(n, b)


def run(ctx, rng, out, focus, extra=None, **kw):
    pr = grow(rng, focus, **kw)
    if not pr.focus_kept:
        out.tags["no_rule_of_the_family"] += 1
        return None, None
    try:
        got = patchdiff.check(ctx, pr, out)
        if extra and got is not None and not pr.ctx_kept:
            # rules of the context that run after those of the family would disturb the comparison with the state
            # before the family
            extra(ctx, pr, got, out)
    except Violation:
        if pr.ctx_kept and not attributed(ctx, pr):
            out.tags["unattributed_difference"] += 1
            return None, None
        raise
    patchdiff.finish(pr, out)
    out.nontrivial = any(not k.endswith("~") for k in pr.focus_kept)
    return pr, got
