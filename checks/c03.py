"""C03: mandatory rules must match, rules with `?~` need not."""
import sys

from kit import model, patchdiff, ref, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

PID = "C03"
LEVEL = "exploration"
RULE = ("a case counts if it contains a rule with `?~` or a mandatory rule without a target; two cases are the same if "
        "their patches have the same structure (keys and nesting)")
CASES = {"quick": 1500, "thorough": 60000}
MUST_SEE = ("refused", "optional:matched", "optional:unmatched", "bare:same", "bare:refused", "removed:same",
            "prefixed:same", "prefixed:skipped", "refused:optional")
MISSING = ("no register", "no cluster", "no peripheral matches", "no field", "nothing to", "no array", "no registers",
           "no groups")

OPTIONAL = {k: 1 for k in ("f_split", "f_enum", "f_action", "f_range", "f_array", "f_derive", "f_modify", "array", "cluster", "derive",
                           "modify", "expand_cluster", "reg")}


def is_missing(msg):
    return msg.startswith(MISSING)


SECT = ("_modify", "_array", "_merge", "_split", "_expand_array", "_expand_cluster", "_derive", "_delete")
SUB = ("_registers", "_clusters", "_interrupts")


def rule_place(path):
    """Are the keys at this path rule names (and not attributes)?"""
    plain = lambda p: all(not x.startswith("_") or x in SUB for x in p)
    if path[-1] in SUB and len(path) > 1 and path[-2] in SECT:
        return plain(path[:-2])
    if path[-1] in SECT:
        return plain(path[:-1])
    if len(path) > 1 and path[-2] == "_cluster":
        return plain(path[:-2])
    return plain(path)


def spots(y, path=()):
    """(path, key) of every key and (path, index) of every list item that is a rule name."""
    if isinstance(y, dict):
        for k, v in y.items():
            if isinstance(k, str) and not k.startswith("_") and path and rule_place(path):
                yield path, k
            yield from spots(v, path + (k,))
    elif isinstance(y, list) and path and path[-1] in ("_delete", "_registers", "_clusters", "_interrupts"):
        for i, v in enumerate(y):
            if isinstance(v, str):
                yield path, i


def at(y, path):
    for k in path:
        y = y[k]
    return y


def variant(y, path, k, how):
    y = model.clone(y)
    h = at(y, path)
    if isinstance(h, list):
        if how == "bare":
            h[k] = h[k][2:]
        elif how == "prefixed":
            h[k] = "?~" + h[k]
        else:
            del h[k]
        return y
    new = {}
    for kk, v in h.items():
        if kk != k:
            if kk in new:
                return None
            new[kk] = v
        elif how != "removed":
            nk = k[2:] if how == "bare" else "?~" + k
            if nk in h:
                return None
            new[nk] = v
    p = at(y, path[:-1]) if path else None
    if p is None:
        return new
    p[path[-1]] = new
    return y


def evaluate(pr, y):
    try:
        return "applied", model.norm(ref.apply(pr.dev, y, pr.enum_derive, pr.loader))
    except ref.Unspecified:
        return None, None
    except ref.Reject as e:
        return "refused", str(e)


def run(ctx, pr, y, name):
    d = {"_svd": "dev.svd"}
    d.update(y)
    ctx.write(name + ".yaml", dump(d))
    args = ["patch"] + (["--enum-derive", pr.ed_arg] if pr.ed_arg else []) + [name + ".yaml", name + ".svd"]
    rc, so, er = ctx.run(args)
    raw = ctx.read(name + ".svd")
    return rc, raw if rc == 0 else None, args


def case(ctx, rng, i, out):
    def setup(pr):
        pr.opt_rate, pr.missing_rate = (0.6, 0.05) if any_reason else (0.35, 0.2)
    any_reason = i % 4 == 0      # refusals of optional rules for other reasons than the absence of targets
    pr = patchdiff.make(rng, OPTIONAL if any_reason else ALL, rng.randint(1, 4), 1, refuse=0.7 if any_reason else 0.35, setup=setup,
                        reject_ok=None if any_reason else is_missing)
    if not pr.kept:
        return
    base = None
    all_spots = list(spots(pr.y))
    opts = [(p, k) for p, k in all_spots if (at(pr.y, p)[k] if isinstance(k, int) else k).startswith("?~")]
    try:
        got = patchdiff.check(ctx, pr, out)
        base = ctx.read("out.svd")
    except Violation:
        if pr.reject and not is_missing(pr.reject[1]):
            if opts and bare_refused(ctx, pr, opts):
                raise
        elif pr.reject or opts and plain_agrees(ctx, pr, opts):
            raise
        out.tags["unattributed_difference"] += 1
        return
    out.nontrivial = bool(pr.reject) or bool(opts)
    out.key = (patchdiff.shape(pr.y),)
    out.sample = {"patch": dump(pr.y)[:1200], "refused": bool(pr.reject)}
    if pr.reject:
        if opts and not is_missing(pr.reject[1]):
            out.tags["refused:optional"] += 1
        return
    want = model.norm(pr.cur)
    rng.shuffle(opts)
    for p, k in opts[:3]:
        rem = variant(pr.y, p, k, "removed")
        st, m = evaluate(pr, rem)
        matched = not (st == "applied" and m == want)
        out.tags["optional:matched" if matched else "optional:unmatched"] += 1
        judge(ctx, pr, out, base, want, rem, "removed", (p, k), matched=None if not matched else True)
        judge(ctx, pr, out, base, want, variant(pr.y, p, k, "bare"), "bare", (p, k))
    plain = [x for x in all_spots if x not in opts]
    rng.shuffle(plain)
    for p, k in plain[:2]:
        judge(ctx, pr, out, base, want, variant(pr.y, p, k, "prefixed"), "prefixed", (p, k))
    # a mandatory rule whose target is deleted first has no target; with the prefix it is skipped
    for p, k in plain[:1]:
        y = variant(pr.y, p, k, "prefixed")
        if y is None or isinstance(k, int) or len(p) < 1:
            continue
        miss = rng.choice(["NOSUCH", "NO_SUCH*", "[x-z]Q?"])
        y2, y3 = rename(pr.y, p, k, miss), rename(pr.y, p, k, "?~" + miss)
        st, m = evaluate(pr, y2)
        if st == "refused" and is_missing(m):
            judge(ctx, pr, out, base, want, y2, "lost", (p, k))
            st, m = evaluate(pr, y3)
            if st == "applied":
                rc, raw, args = run(ctx, pr, y3, "skip")
                rem = variant(pr.y, p, k, "removed")
                st2, m2 = evaluate(pr, rem)
                if st2 == "applied" and m2 == m:
                    rc2, raw2, _ = run(ctx, pr, rem, "none")
                    out.tags["prefixed:skipped"] += 1
                    if rc or rc2 or raw != raw2:
                        raise Violation("`?~%s` at %s has no target but changes the outcome (status %d, without the rule %d)"
                                        % (miss, "/".join(map(str, p)), rc, rc2), cmd=["svdtools"] + args)


def rename(y, path, k, nk):
    y = model.clone(y)
    h = at(y, path)
    new = {(nk if kk == k else kk): v for kk, v in h.items()}
    at(y, path[:-1])[path[-1]] = new
    return y


def bare_refused(ctx, pr, opts):
    """Does the tool refuse the patch when the optional rules are written without the prefix?"""
    y = pr.y
    for p, k in sorted(opts, key=lambda x: (len(x[0]), isinstance(x[1], int) and x[1] or 0), reverse=True):
        v = variant(y, p, k, "bare")
        if v is not None and evaluate(pr, v)[0] == "refused":
            y = v
    return y is not pr.y and run(ctx, pr, y, "bare")[0] != 0


def plain_agrees(ctx, pr, opts):
    """Does the tool agree with the reference when the optional rules are written without the prefix or left out?"""
    y = pr.y
    want = model.norm(pr.cur)
    for p, k in sorted(opts, key=lambda x: (len(x[0]), isinstance(x[1], int) and x[1] or 0), reverse=True):
        for how in ("removed", "bare"):
            v = variant(y, p, k, how)
            if v is None:
                return False
            st, m = evaluate(pr, v)
            if st == "applied" and m == want:
                y = v
                break
        else:
            return False
    rc, raw, _ = run(ctx, pr, y, "plain")
    if rc:
        return False
    try:
        return not model.diff(want, model.norm(model.read_device(raw.decode())))
    except model.ModelError:
        return False


def judge(ctx, pr, out, base, want, y, how, spot, matched=None):
    if y is None:
        return
    st, m = evaluate(pr, y)
    if st is None or st == "refused" and not is_missing(m):
        return
    if st == "applied" and m != want:
        return
    rc, raw, args = run(ctx, pr, y, how)
    where = "%s %s" % ("/".join(map(str, spot[0])), spot[1])
    if st == "refused":
        out.tags[how + ":refused"] += 1
        if rc == 0:
            raise Violation("rule without a target (%s, %s: %s) was accepted" % (how, where, m), cmd=["svdtools"] + args)
        return
    out.tags[how + ":same"] += 1
    if rc:
        raise Violation("the rule %s, %s: refused with status %d, but the outcome must be the same" % (where, how, rc),
                        cmd=["svdtools"] + args)
    if raw != base:
        raise Violation("the rule %s, %s: the outcome differs, but must be the same" % (where, how), cmd=["svdtools"] + args)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
