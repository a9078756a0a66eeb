"""C30: every notation of a number means that number; nothing else is read as a number."""
import sys

from kit import focus, gen, model, patchdiff, ref, runner
from kit.model import clone
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import Raw, dump

PID = "C30"
LEVEL = "exploration"
RULE = ("a case counts if at least one number was rewritten into another notation (patch or SVD), or replaced by a text "
        "that is not a number; two cases are the same if they rewrite the same keys into the same notations")
CASES = {"quick": 2600, "thorough": 100000}
MUST_SEE = ("patch_numbers", "svd_numbers", "invalid_patch", "invalid_svd")
KEYS = {"addressOffset", "size", "resetValue", "resetMask", "baseAddress", "dim", "dimIncrement", "bitOffset", "bitWidth",
        "lsb", "msb", "value", "offset", "addressUnitBits", "width", "nvicPrioBits", "deviceNumInterrupts",
        "sauNumRegions"}
WIDE = ref.WIDE
WEIGHTS = {"modify": 4, "add": 4, "f_modify": 3, "f_add": 3, "f_enum": 4, "f_range": 2, "dev_per": 2, "dev_add": 2,
           "dev_attr": 2, "dev_cpu": 1, "irq_add": 1, "irq_modify": 1, "copy": 2, "derive": 1, "cluster": 1, "array": 1,
           "f_wc": 2, "dev_derive": 1}


def notations(rng, n):
    b, h, d = bin(n)[2:], "%x" % n, "%d" % n

    def und(s):
        if len(s) < 2:
            return s
        i = rng.randint(1, len(s) - 1)
        return s[:i] + "_" + s[i:]
    x = rng.choice
    z = "0" * rng.choice([0, 0, 1, 3])
    return x([("dec", n), ("dec_q", d), ("dec_us", und(d)), ("dec_us_raw", Raw(und(d))), ("hex_raw", Raw("0x" + z + h)),
              ("hex_RAW", Raw("0x" + h.upper())), ("hex_q", "0x" + z + h), ("HEX_q", "0X" + h.upper()),
              ("hex_us", "0x" + und(h)), ("hex_us_raw", Raw("0x" + und(h))), ("HEX_raw", Raw("0X" + h)),
              ("bin", "0b" + z + b), ("bin_raw", Raw("0b" + b)), ("bin_x", "0b" + b.replace("0", "x")),
              ("bin_us", "0b" + und(b)), ("hash", "#" + z + b), ("hash_x", "#" + b.replace("0", x("xX"))),
              ("hash_us", "#" + und(b)), ("dec_z", "0" * rng.randint(1, 2) + d)])


BAD = [("letters", "five"), ("hex_g", "0xG1"), ("hex_empty", "0x"), ("bin_2", "0b102"), ("hash_2", "#012"),
       ("hash_empty", "#"), ("float", Raw("1.5")), ("float_q", "1.0"), ("empty", ""), ("mixed", "12q"), ("0B", "0B11"),
       ("minus_minus", "--4"), ("space", "1 2"), ("pad", " 12"), ("hexword", "FF"), ("0x0x", "0x0x12"), ("h", "12h"),
       ("null", None), ("bool", True), ("bool_q", "true"), ("list", [1]), ("map", {"a": 1}), ("us", "_"),
       ("huge", 1 << 64), ("huge_q", "0x1_0000_0000_0000_0000"), ("huge_dec", Raw("99999999999999999999")),
       ("exp", Raw("1e3")), ("comma", "1,000"), ("dollar", "$FF"), ("verilog", "8'hFF"), ("neg", -1), ("neg_q", "-0x4"),
       ("neg2", -2147483648), ("u32", 1 << 32), ("u32_q", "0x1_0000_0004"), ("u32_dec", 4294967300)]


def sites(y, path=()):
    """Places of numbers: (container, key, kind, value)."""
    if isinstance(y, dict):
        for k, v in y.items():
            if k == "dimIndex":
                continue
            if k in KEYS and not isinstance(v, (dict, list, tuple)):
                try:
                    yield y, k, k, ref.parse_int(v)
                except ref.Reject:
                    pass
            elif k in ("_write_constraint", "writeConstraint") and isinstance(v, list) and len(v) == 2 or \
                    isinstance(v, list) and len(v) == 2 and not any(isinstance(x, (dict, list)) for x in v):
                is_ev = isinstance(v[1], str) and not rangelike(v)
                if is_ev:
                    if rangelike(v[:1]):
                        yield v, 0, "enumval", ref.parse_int(v[0])
                elif rangelike(v):
                    for i in (0, 1):
                        yield v, i, "range", ref.parse_int(v[i])
            else:
                yield from sites(v, path + (k,))
    elif isinstance(y, list):
        for v in y:
            yield from sites(v, path)


def rangelike(v):
    try:
        for x in v:
            ref.parse_int(x)
        return True
    except ref.Reject:
        return False


def case(ctx, rng, i, out):
    k = i % 4
    if k == 3:
        return svd_case(ctx, rng, i, out)
    pr = focus.grow(rng, WEIGHTS, ctx_weights={}, nfocus=(2, 5), refuse=0)
    ss = [s for s in sites(pr.y) if s[3] >= 0]
    if not ss:
        out.tags["no_numbers"] += 1
        return
    if k < 2:
        return notation_case(ctx, rng, pr, out)
    return invalid_case(ctx, rng, pr, out)


def notation_case(ctx, rng, pr, out):
    args = patchdiff.write_case(ctx, pr)
    rc0, m0, er = patchdiff.outcome(ctx, args)
    raw0 = ctx.read("out.svd")
    if rc0 != 0:
        out.tags["base_refused"] += 1        # other properties' concern
        return
    pr.y = clone(pr.y)
    ids = []
    for c, k, kind, n in list(sites(pr.y)):
        if n < 0:
            continue
        nm, v = notations(rng, n)
        c[k] = v
        ids.append((kind, nm))
        out.tags["patch_numbers"] += 1
        out.tags["notation:" + nm] += 1
    ctx.write("patch0.yaml", ctx.read("patch.yaml"))
    patchdiff.write_case(ctx, pr)
    rc, m, er = patchdiff.outcome(ctx, args[:-1] + ["out2.svd"], "out2.svd")
    if rc != 0:
        raise Violation("the same patch with other number notations is refused: %s" % er.decode("utf8", "replace")[-800:],
                        cmd=args)
    if ctx.read("out2.svd") != raw0:
        raise Violation("the same patch with other number notations has another result: %s" % model.diff(
            model.norm(m0), model.norm(m)), cmd=args)
    d = model.diff(model.norm(pr.cur), model.norm(m))
    if d:
        # the result is the same for both notations; is it the numbers that are wrong?
        raise_if_numeric(d, args)
    out.key, out.nontrivial = tuple(sorted(ids)), True
    out.sample = {"patch": dump(pr.y)[:800]}


def raise_if_numeric(d, args):
    d = [x for x in d if any(x.split(": expected")[0].endswith("." + k) for k in
                             KEYS | {"off", "inc", "minimum", "maximum"})]
    if d:
        raise Violation("numbers end up with other values: %s" % d, cmd=args)


def invalid_case(ctx, rng, pr, out):
    pr.y = clone(pr.y)
    for _ in range(6):
        ss = [s for s in sites(pr.y) if s[3] >= 0]
        c, k, kind, n = rng.choice(ss)
        nm, v = rng.choice(BAD)
        if nm.startswith("u32") and kind in ("enumval", "range", "resetValue", "resetMask", "baseAddress") or \
                nm.startswith("neg") and kind == "enumval":
            continue
        old, c[k] = c[k], v
        try:
            ref.apply(pr.dev, pr.y, pr.enum_derive, pr.loader)
        except ref.Unspecified:
            c[k] = old
            continue
        except ref.Reject as e:
            break
        c[k] = old      # this number is not looked at (e.g. lsb without msb)
    else:
        out.tags["no_effective_place"] += 1
        return
    args = patchdiff.write_case(ctx, pr)
    rc, m, er = patchdiff.outcome(ctx, args)
    out.tags["invalid_patch"] += 1
    out.tags["invalid:" + nm] += 1
    if rc == 0:
        raise Violation("%r given for %s was accepted" % (v, kind), cmd=args)
    out.key, out.nontrivial = (kind, nm), True


def svd_notation(rng, v, tag):
    if tag in ("size_ab",):
        tag = "size"
    n = v
    b, h = bin(n)[2:], "%x" % n
    z = "0" * rng.choice([0, 0, 1, 2])
    c = ["%d" % n, "0x" + z + h, "0x" + h.upper(), "0X" + h, "#" + b]
    if tag not in ("dim", "lsb", "msb", "bitOffset", "bitWidth"):
        c.append("%s%d" % (z, n))
    return rng.choice(c)


SVD_BAD = ["0xG", "12q", "five", "", "0x", "#12", "1.5", "--2", "0x1FFFFFFFFFFFFFFFF"]


def svd_case(ctx, rng, i, out):
    g = gen.Gen(rng, 1)
    d = g.device()
    bad = rng.random() < 0.35
    count = [0]
    tags = set()
    total = [0]
    model.write_device(d, lambda v, t: total.__setitem__(0, total[0] + 1) or "%d" % v)
    at = rng.randrange(total[0]) if bad else -1
    badv = rng.choice(SVD_BAD)
    where = [None]

    def fmt(v, tag):
        count[0] += 1
        if count[0] - 1 == at:
            where[0] = tag
            return badv
        s = svd_notation(rng, v, tag)
        tags.add((tag, s[:2] if not s.isdigit() else "d"))
        return s
    ctx.write("dev.svd", model.write_device(d, fmt))
    ctx.write("patch.yaml", dump({"_svd": "dev.svd"}))
    args = ["patch", "patch.yaml", "out.svd"]
    rc, m, er = patchdiff.outcome(ctx, args)
    if bad:
        out.tags["invalid_svd"] += 1
        if rc == 0:
            raise Violation("SVD with <%s>%s</%s> was accepted" % (where[0], badv, where[0]), cmd=args)
        out.key, out.nontrivial = (where[0], badv), True
        return
    out.tags["svd_numbers"] += count[0]
    if rc:
        raise Violation("SVD with numbers in several notations was refused: %s" % er.decode("utf8", "replace")[-800:],
                        cmd=args)
    x = model.diff(model.norm(d), model.norm(m))
    if x:
        raise Violation("numbers of the SVD were changed: %s" % x, cmd=args)
    out.key, out.nontrivial = tuple(sorted(tags)), True


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
