"""C24: converting between XML, JSON and YAML loses nothing; the format follows from the name unless given."""
import re
import sys

from kit import dev as devs
from kit import model, runner
from kit.model import diff, norm
from kit.runner import Known, Violation

PID = "C24"
LEVEL = "exploration"
RULE = ("a case counts if a device with fields or clusters was carried through at least two conversions and compared with "
        "its source, or if a request that must be refused was; two cases are the same if they use the same chain of "
        "formats and devices with the same structure of blocks, arrays and references")
CASES = {"quick": 1100, "thorough": 40000}
MUST_SEE = ("chains", "hops", "content_compared", "explicit_formats", "explicit_wins", "extensions", "refused:output",
            "refused:input", "refused:content", "device_name", "unknown_request", "real_device", "with:text", "with:derived_cluster",
            "with:dimName", "with:dimArrayIndex", "with:protection", "with:wide", "with:far_register", "schema:1.3", "known:octal_text")
EXT = {"xml": ("svd", "SVD", "xml", "XML"), "yaml": ("yml", "yaml", "YAML"), "json": ("json", "JSON")}
BADEXT = ("txt", "Svd", "Json", "Yml", "svd.bak", "", "patched", "jsonx", "xhtml", "YML")
PARTS = ("text", "dai", "ai", "far", "clu", "prot", "cpu", "per")
FORMATS = ("xml", "yaml", "json")


def root_free(raw):
    return re.sub(rb' (xs:)?(noNamespaceSchemaLocation|schemaVersion)="[^"]*"', b"", raw, count=2)


def convert(ctx, src, dst, inf=None, outf=None):
    args = ["convert", src, dst]
    if inf:
        args += ["--input-format", inf]
    if outf:
        args += ["--output-format", outf]
    rc, so, er = ctx.run(args)
    return rc, args, er


def must(ctx, out, src, dst, inf=None, outf=None):
    before = ctx.read(src)
    rc, args, er = convert(ctx, src, dst, inf, outf)
    if rc != 0:
        raise Violation("conversion %s -> %s failed with status %d: %s" % (
            src, dst, rc, er.decode("utf8", "replace")[-800:]), cmd=["svdtools"] + args)
    raw = ctx.read(dst)
    if raw is None:
        raise Violation("exit status 0 without output %s" % dst, cmd=["svdtools"] + args)
    if ctx.read(src) != before:
        raise Violation("the conversion changed its input %s" % src, cmd=["svdtools"] + args)
    out.tags["hops"] += 1
    return raw, args


def source(ctx, rng, out, i):
    if i % 23 == 5 and devs.has_real():
        out.tags["real_device"] += 1
        raw = devs.real(rng)
        return raw, None
    d = devs.make(rng, tags=out.tags, parts=PARTS)
    if rng.random() < 0.3:
        d["schemaVersion"] = rng.choice(["1.3", "1.2", "1.3.9"])
    out.tags["schema:" + d.get("schemaVersion", "1.1")] += 1
    return model.write_device(d).encode(), d


def pick(rng, out, fmt, n, explicit):
    """File name and format option for one place of a chain."""
    if not explicit:
        e = rng.choice(EXT[fmt])
        out.tags["extensions"] += 1
        out.tags["ext:" + e] += 1
        return "f%d.%s" % (n, e), None
    o = rng.choice(EXT[fmt][1:3]) if fmt == "xml" else fmt
    o = {"xml": "xml", "svd": "xml"}.get(o.lower(), o)
    k = rng.random()
    out.tags["explicit_formats"] += 1
    if k < 0.4:                 # the name says something else
        other = rng.choice([f for f in FORMATS if f != fmt])
        out.tags["explicit_wins"] += 1
        return "f%d.%s" % (n, rng.choice(EXT[other])), o
    if k < 0.7:
        return "f%d.%s" % (n, rng.choice(("txt", "dat", "svd.patched"))), o
    return "f%d" % n, o


def looks(fmt, raw):
    t = raw.lstrip()[:400]
    if fmt == "xml":
        return t.startswith(b"<")
    if fmt == "json":
        return t.startswith(b"{")
    return not t.startswith(b"<") and not t.startswith(b"{")


def case(ctx, rng, i, out):
    if i == 0:
        return octal(ctx, out)
    if i % 12 == 7:
        return refused(ctx, rng, i, out)
    src, d = source(ctx, rng, out, i)
    ctx.write("f0.svd", src)
    ref, _ = must(ctx, out, "f0.svd", "ref.svd")
    chain = ["xml"]
    cur, curo = "f0.svd", None
    n = rng.randint(2, 6)
    for k in range(1, n + 1):
        fmt = rng.choice(FORMATS) if k < n else "xml"
        if k == n and all(f == "xml" for f in chain[1:]):
            n_fmt = rng.choice(("yaml", "json"))
            dst, o = pick(rng, out, n_fmt, 90, rng.random() < 0.4)
            must(ctx, out, cur, dst, curo, o)
            chain.append(n_fmt)
            cur, curo = dst, o
        dst, o = pick(rng, out, fmt, k, rng.random() < 0.4)
        raw, args = must(ctx, out, cur, dst, curo, o)
        if not looks(fmt, raw):
            raise Violation("output %s (%s wanted) is not in that format" % (dst, fmt), cmd=["svdtools"] + args)
        cur, curo = dst, o
        chain.append(fmt)
    out.tags["chains"] += 1
    if root_free(raw) != root_free(ref):
        a, b = [root_free(x).decode("utf8", "replace").split("\n") for x in (ref, raw)]
        j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation("chain %s: XML differs from directly re-encoded XML at line %d:\n direct %r\n chain  %r" % (
            "->".join(chain), j + 1, a[j:j + 2], b[j:j + 2]), cmd=["svdtools"] + args)
    if d is not None:
        try:
            got = model.read_device(raw.decode("utf8"))
        except (model.ModelError, UnicodeDecodeError) as e:
            raise Violation("unreadable XML: %s" % e, cmd=["svdtools"] + args)
        x = diff(norm(d), norm(got))
        if x:
            raise Violation("the content changed: %s" % "\n  ".join(x), cmd=["svdtools"] + args)
        out.tags["content_compared"] += 1
        if rng.random() < 0.3:
            rc, so, er = ctx.run(["info", cur if curo is None else "f0.svd", "device-name"])
            if rc != 0 or so.decode("utf8", "replace").strip() != d["name"]:
                raise Violation("device name %r, printed %r (status %d)" % (d["name"], so, rc),
                                cmd=["svdtools", "info", cur, "device-name"])
            out.tags["device_name"] += 1
            if rng.random() < 0.2:
                q = rng.choice(["device_name", "Device-Name", "name", "device-name ", "", "vendor"])
                rc, so, er = ctx.run(["info", "f0.svd", q])
                if rc == 0 or so or not er:
                    raise Violation("the unknown request %r is answered %r (status %d)" % (q, so, rc),
                                    cmd=["svdtools", "info", "f0.svd", q])
                out.tags["unknown_request"] += 1
    # yaml -> json is the json of the source, and back
    if rng.random() < 0.35:
        a, b = rng.choice([("yaml", "json"), ("json", "yaml")])
        direct, _ = must(ctx, out, "f0.svd", "direct." + b)
        must(ctx, out, "f0.svd", "mid." + a)
        via, args = must(ctx, out, "mid." + a, "via." + b)
        if direct != via:
            raise Violation("%s of the source differs from %s by way of %s" % (b, b, a), cmd=["svdtools"] + args)
        out.tags["crossed"] += 1
    out.nontrivial = d is None or devs.rich_enough(d)
    out.key = (tuple(chain), devs.facts(d) if d else src[:200])
    out.sample = {"chain": chain, "xml": src.decode("utf8", "replace")[:600]}


def refused(ctx, rng, i, out):
    src, d = source(ctx, rng, out, 1)
    ctx.write("f0.svd", src)
    k = rng.choice(("output", "output", "input", "content", "content"))
    old = None
    inf = outf = None
    if k == "output":
        e = rng.choice(BADEXT)
        s, t = "f0.svd", "out." + e if e else "out"
    elif k == "input":
        e = rng.choice(BADEXT)
        s, t = "in." + e if e else "in", "out.json"
        if rng.random() < 0.2:
            s = "missing.svd"
        else:
            ctx.write(s, src)
    else:
        fmt = rng.choice(("yaml", "json"))
        t = "out." + rng.choice(FORMATS)
        must(ctx, out, "f0.svd", "g." + fmt)
        if rng.random() < 0.4:      # content of another format
            claim = rng.choice([f for f in FORMATS if f != fmt and not (fmt == "json" and f == "yaml")])
            s, inf = "g." + fmt, claim
        else:
            raw = ctx.read("g." + fmt)
            cut = rng.randint(1, max(1, len(raw) * 2 // 3))
            if fmt == "yaml":       # a cut mapping may still be one: break it for sure
                raw = raw[:cut] + b"\n}]: {[\n"
            else:
                raw = raw[:cut]
            ctx.write("cut." + fmt, raw)
            s = "cut." + fmt
    if rng.random() < 0.5:
        old = b"kept as it was\n"
        ctx.write(t, old)
    rc, args, er = convert(ctx, s, t, inf, outf)
    cmd = ["svdtools"] + args
    if rc == 0:
        raise Violation("a conversion that must be refused (%s) was reported as done" % k, cmd=cmd)
    if ctx.read(t) != old:
        raise Violation("a refused conversion (%s) touched its output" % k, cmd=cmd)
    if not er.strip():
        raise Violation("a refused conversion gave no diagnostic", cmd=cmd)
    out.tags["refused:" + k] += 1
    out.nontrivial = True
    out.key = ("refused", k, s, t, inf, old is None)


def octal(ctx, out):
    """Listed finding: texts that look like YAML 1.2 octal or binary numbers cannot be read back from YAML."""
    lost = []
    for t in ("0o17", "0b11"):
        d = {"k": "device", "name": "D", "version": "1.0", "description": "x", "addressUnitBits": 8, "width": 32,
             "peripherals": [{"k": "peripheral", "name": "P", "baseAddress": 0, "children": [], "addressBlocks": [],
                              "interrupts": [], "description": t}]}
        ctx.write("a.svd", model.write_device(d))
        must(ctx, out, "a.svd", "a.yaml")
        rc, args, er = convert(ctx, "a.yaml", "b.svd")
        if rc != 0:
            lost.append("%s: %s" % (t, er.decode("utf8", "replace").strip()[-200:]))
            continue
        x = diff(norm(d), norm(model.read_device(ctx.read("b.svd").decode())))
        if x:
            raise Violation("the text %s changed on the way through YAML: %s" % (t, x), cmd=["svdtools"] + args)
    out.tags["known:octal_text"] += 1
    if lost:
        raise Known("C24-octal-text", "; ".join(lost))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
