"""C21: the sections of a block apply in the documented order, not in the written order."""
import sys

from kit import gen, model, patchdiff, ref, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

PID = "C21"
LEVEL = "exploration"
RULE = ("a case counts if some block of the patch has at least two sections and permuting the sections or splitting the "
        "patch into one patch per phase was compared; two cases are the same if their patches have the same structure")
CASES = {"quick": 1050, "thorough": 60000}
DEV = ["_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase", None]
PRE = ["_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify", "_clear_fields", "_add", "_derive"]
PER = PRE + [None, "_expand_array", "_array", "_cluster", "_clusters", "_expand_cluster"]
CLU = PRE + ["_clusters", None, "_expand_array", "_array", "_cluster"]
REG = ["_delete", "_strip", "_strip_end", "_prefix", "_suffix", "_clear", "_modify", "_add", "_derive", "_merge", "_split",
       None, "_array"]
MUST_SEE = ("permuted", "permuted:order_would_matter", "phases:compared", "phases:patches", "refused:permuted") + tuple(
    "trap:%s" % k for k in ("delete:0", "delete:1", "delete:2", "modify:0", "modify:1", "modify:2", "clear:0", "clear:1", "rules:1",
                           "wild:0", "wild:1")) + tuple(
    "section:%s" % k for k in sorted(set(DEV[:-1] + PER + REG) - {None}))


KEYS = set(DEV + PER + CLU + REG) - {None} | set(ref.READ) | set(ref.WRITE) | {"_replace_enum", "_name", "_from"}


def is_key(k):
    return k in KEYS


def is_block(path):
    """Path of a device, peripheral, cluster or register block (not of a section's contents)."""
    return all(not is_key(k) or k == "_clusters" for k in path)


def shuffle(rng, y, path=(), stat=None):
    """Permute the section keys of every block; the other keys keep their relative order."""
    if not isinstance(y, dict):
        return y
    if not is_block(path) or path and path[-1] == "_clusters":
        if path and path[-1] == "_clusters" and is_block(path):
            return {k: shuffle(rng, v, path + (k,), stat) for k, v in y.items()}
        return y
    sect = [k for k in y if is_key(k)]
    rest = [k for k in y if not is_key(k)]
    if len(sect) > 1 or sect and rest:
        stat["blocks"] += 1
    slots = [None] * len(y)
    rng.shuffle(sect)
    at = sorted(rng.sample(range(len(y)), len(rest)))
    for i, k in zip(at, rest):
        slots[i] = k
    it = iter(sect)
    out = {}
    for k in slots:
        k = next(it) if k is None else k
        out[k] = shuffle(rng, y[k], path + (k,), stat)
    return out


def level(path):
    n = len([k for k in path if k != "_clusters"])
    return DEV if n == 0 else PER if n == 1 else None


def phases(y, order):
    """Patches that apply the sections of the top two levels one by one."""
    out = []
    for s in order:
        if s is not None:
            if s in y:
                out.append({s: y[s]})
            continue
        for k, v in y.items():
            if is_key(k):
                continue
            if not isinstance(v, dict):
                out.append({k: v})
                continue
            for s2 in PER:
                if s2 == "_clusters":
                    for k2, v2 in (v.get(s2) or {}).items():
                        out += [{k: {s2: {k2: x}}} for x in inner(v2)]
                    continue
                if s2 is not None:
                    if s2 in v:
                        out.append({k: {s2: v[s2]}})
                    continue
                for k2, v2 in v.items():
                    if not is_key(k2):
                        out += [{k: {k2: x}} for x in inner(v2)]
    return out


def inner(v):
    """Register or cluster block split into its phases."""
    if not isinstance(v, dict):
        return [v]
    keys = {k for k in v if is_key(k)}
    clu = bool(keys & (set(CLU) - set(REG)))
    if keys - set(CLU if clu else REG):
        return [v]
    out = []
    for s in CLU if clu else REG:
        if s == "_clusters":
            for k, x in (v.get(s) or {}).items():
                out += [{s: {k: z}} for z in inner(x)]
        elif s is not None:
            if s in v:
                out.append({s: v[s]})
        else:
            for k, x in v.items():
                if not is_key(k):
                    out += [{k: z} for z in (inner(x) if clu else [x])]
    return out or [v]


def chain(dev, ps, ed, loader):
    for p in ps:
        dev = ref.apply(dev, p, ed, loader)
        if not readable(dev):
            raise ref.Unspecified("intermediate result cannot be read back")
    return dev


def readable(n):
    """Arrays need a placeholder in their name to be read back."""
    if "dim" in n and "%s" not in n["name"]:
        return False
    return all(readable(c) for k in ("peripherals", "children", "fields") for c in n.get(k, ()))


def crowded(rng):
    """One peripheral with few registers and clusters in each other: rules come to meet at the same elements."""
    g = gen.Gen(rng, 0)
    d = g.device(1)
    p = d["peripherals"][0]
    p.pop("derivedFrom", None)

    def block(depth):
        out, off = [], 0
        for nm in rng.sample(gen.REG_SINGLE, rng.randint(1, 3)):
            out.append(g.register(nm, off))
            off += 4
        if depth < 2:
            for nm in rng.sample(gen.CLU_SINGLE, rng.choice([1, 1, 2])):
                out.append({"k": "cluster", "name": nm, "addressOffset": off, "children": block(depth + 1)})
                off += 0x100 >> 2 * depth
        return out
    p["children"] = block(0)
    return d


def put(blk, sec, what):
    """Adds an entry to a section that may be there."""
    old = blk.get(sec)
    if isinstance(what, dict):
        if old is None:
            blk[sec] = dict(what)
            return True
        if not isinstance(old, dict) or set(what) & {k.lstrip("?~") for k in old} | set(what) & set(old):
            return False
        blk[sec] = dict(old, **what) if len(old) % 2 else dict(what, **old)
        return True
    if isinstance(old, dict):
        return False
    old = [] if old is None else [old] if isinstance(old, str) else old
    blk[sec] = old + [what]
    return True


def traps(pr, rng, out):
    """Rules for what a later section creates or an earlier one took away: they must find nothing."""
    def kids(n):
        return n.get("peripherals") or n.get("children") or n.get("fields") or []

    def spots(y, a, b, depth):
        found = [(y, a, b, depth)]
        for k, v in list(y.items()) if depth < 2 else ():
            if not is_key(k) and isinstance(v, dict):
                x, z = (next((c for c in kids(n) if gen.esc(c["name"]) == k and c["k"] != "cluster"), None) for n in (a, b))
                if x and z and (depth == 0 or x["k"] == "register" and set(v) & set(REG) - {None}):
                    found += spots(v, x, z, depth + 1)
        return found
    n = 0
    for _ in range(6):
        cand = model.clone(pr.y)
        blk, a, b, depth = rng.choice(spots(cand, pr.dev, pr.cur, 0))
        was, now = {c["name"] for c in kids(a)}, {c["name"] for c in kids(b)}
        new, gone = sorted(now - was), sorted(was - now)
        k = rng.choice(("delete", "modify", "clear", "clear", "rules", "wild"))
        if k == "clear":
            if depth == 2:
                continue
            ok = put(blk, "_clear_fields", rng.choice(["*", gen.esc(rng.choice(new)) if new else "*"]))
        elif k == "wild":
            pre = rng.choice([x[:3] + "*" for x in new] or ["*"])
            ok = put(blk, "_delete", "?~" + pre) if rng.random() < 0.3 else put(blk, "_modify", {"?~" + pre: {"description": "trap"}})
        elif k == "rules":
            if not gone:
                continue
            s = "?~" + gen.esc(rng.choice(gone))
            ok = s not in blk and s[2:] not in blk
            blk[s] = {"_modify": {"*": {"description": "trap"}}} if depth < 2 else {"TRAP": [0, "trap"]}
        else:
            if not new:
                continue
            s = "?~" + gen.esc(rng.choice(new))
            ok = put(blk, "_" + k, s if k == "delete" else {s: {"description": "trap"}})
        if not ok:
            continue
        try:
            got = ref.apply(pr.dev, cand, pr.enum_derive, pr.loader)
        except (ref.Reject, ref.Unspecified):
            continue
        out.tags["trap:%s:%d" % (k, depth)] += 1
        pr.y, pr.cur = cand, got
        n += 1
        if n == 3:
            break


def case(ctx, rng, i, out):
    def setup(pr):
        pr.reuse, pr.opt_rate = 0.85, 0.05
        if i % 3 == 0:
            pr.clu, pr.opt_rate = 0.8, 0.02
            pr.reuse = 0.6
    w = dict(ALL)
    crowd = i % 3 == 0
    pr = patchdiff.make(rng, w, rng.randint(3, 14 if crowd else 9), 1, refuse=0.04, setup=setup,
                        dev=crowded(rng) if crowd else None)
    if not pr.kept:
        return
    if pr.reject is None:
        traps(pr, rng, out)
    y = pr.y
    seen = set()
    count(y, (), seen)
    args = patchdiff.write_case(ctx, pr)
    rc, so, er = ctx.run(args)
    base = ctx.read("out.svd") if rc == 0 else None
    if pr.reject is None and rc:
        raise Violation("the patch must be applied but was refused with status %d: %s" % (
            rc, er.decode("utf8", "replace")[-800:]), cmd=["svdtools"] + args)
    if rc == 0 and pr.reject is None:
        d = model.diff(model.norm(pr.cur), model.norm(model.read_device(base.decode())))
        if d:
            raise Violation("result of the sections in their documented order:\n  " + "\n  ".join(d), cmd=["svdtools"] + args)
    stat = {"blocks": 0}
    compared = 0
    for n in range(2):
        z = shuffle(rng, y, (), stat)
        if dump(z) == dump(y):
            continue
        compared += 1
        ctx.write("perm.yaml", dump(dict([("_svd", "dev.svd")] + list(z.items()))))
        a2 = args[:-2] + ["perm.yaml", "perm.svd"]
        rc2, so2, er2 = ctx.run(a2)
        raw = ctx.read("perm.svd")
        out.tags["permuted" if not rc else "refused:permuted"] += 1
        if (rc == 0) != (rc2 == 0):
            raise Violation("written order decides whether the patch applies: status %d, with the sections permuted %d" % (
                rc, rc2), cmd=["svdtools"] + a2)
        if rc == 0 and raw != base:
            raise Violation("written order of the sections changes the result", cmd=["svdtools"] + a2)
    if rc == 0 and pr.reject is None:
        # the phases one after another as patches of their own
        ps = phases(y, DEV)
        try:
            want = model.norm(chain(pr.dev, ps, pr.enum_derive, pr.loader)) if len(ps) > 1 else None
        except (ref.Reject, ref.Unspecified):
            want = None
            out.tags["phases:not_separable"] += 1
        if want is not None and want == model.norm(pr.cur):
            cur = "dev.svd"
            for n, p in enumerate(ps):
                ctx.write("ph%d.yaml" % n, dump(dict([("_svd", cur)] + list(p.items()))))
                a2 = args[:-2] + ["ph%d.yaml" % n, "ph%d.svd" % n]
                rc2, so2, er2 = ctx.run(a2)
                if rc2:
                    raise Violation("phase %d (%s) as a patch of its own is refused with status %d" % (n, p, rc2),
                                    cmd=["svdtools"] + a2)
                cur = "ph%d.svd" % n
            out.tags["phases:compared"] += 1
            out.tags["phases:patches"] += len(ps)
            compared += 1
            try:
                a = model.norm(model.read_device(base.decode()))
                b = model.norm(model.read_device(ctx.read(cur).decode()))
            except model.ModelError as e:
                raise Violation("unreadable output: %s" % e, cmd=["svdtools"] + args)
            d = model.diff(b, a)
            if d:
                raise Violation("one patch gives another result than its phases one after another:\n  " + "\n  ".join(d),
                                cmd=["svdtools"] + args)
            # would another order give another result?
            for _ in range(3):
                qs = list(ps)
                rng.shuffle(qs)
                try:
                    if model.norm(chain(pr.dev, qs, pr.enum_derive, pr.loader)) != want:
                        raise ref.Reject("other")
                except ref.Unspecified:
                    continue
                except ref.Reject:
                    out.tags["permuted:order_would_matter"] += 1
                    break
    for k in seen:
        out.tags["section:" + k] += 1
    out.key = (patchdiff.shape(y),)
    out.nontrivial = stat["blocks"] > 0 and compared > 0
    out.sample = {"patch": dump(y)[:1500]}


def count(y, path, seen):
    if isinstance(y, dict) and is_block(path):
        for k, v in y.items():
            if is_key(k) and len(y) > 1:
                seen.add(k)
            count(v, path + (k,), seen)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
