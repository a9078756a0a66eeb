"""C35: malformed rules are refused, never skipped over."""
import os
import signal
import sys

from kit import dev as devs
from kit import malformed, model, patchdiff, ref, runner
from kit.model import clone
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import Raw, dump

PID = "C35"
LEVEL = "exploration"
RULE = ("a case counts if a patch with one malformed part was run next to its well-formed variant and its refusal (exit "
        "status, message, output) was judged; two cases are the same if the same part was malformed in the same way")
TABLE = [(n, r, p, b) for n, r, p, bads in malformed.table() for b in bads]
CASES = {"quick": 2 * len(TABLE), "thorough": 100000}
DOCS = ("syntax", "utf8", "empty", "comment", "list", "text", "null", "several", "duplicate_key", "anchor", "cut", "tab",
        "cycle_self", "cycle_two", "cycle_in_peripheral", "cycle_link", "include_missing", "include_directory", "deep",
        "no_svd", "svd_missing", "svd_directory", "svd_empty", "svd_not_xml", "key_number", "key_list")
MUST_SEE = tuple("docs:" + d for d in DOCS) + ("table", "table:included", "mutated", "control", "kept_existing", "cmd:patch",
                                               "cmd:expand-patch", "cmd:makedeps", "mutated:number", "mutated:text",
                                               "mutated:list", "mutated:mapping", "mutated:null", "mutated:bool")
ASSUMPTIONS = ["attributes with unknown names are passed over (the unmodelled extension point of the rule language), as are the "
               "sections of a derived peripheral other than those for interrupts",
               "a refusal may be a panic of the tool (exit status 101), but not a crash by a signal"]
JUNK = [3, -1, True, None, "bogus", "", [], ["x"], [1], [1, 2, 3], {}, {"x": 1}, Raw("1.5")]


def refused(ctx, args, outs, out, why, base=None):
    """Run what has to be refused and judge it."""
    old = {}
    for o in outs:
        if base is not None:
            ctx.write(o, base)
            old[o] = base
            out.tags["kept_existing"] += 1
        elif os.path.lexists(ctx.path(o)):
            os.unlink(ctx.path(o))
    rc, so, er = ctx.run(args)
    cmd = ["svdtools"] + args
    if rc == 0:
        raise Violation("%s: accepted" % why, cmd=cmd)
    if rc == runner.HANG:
        raise Violation("%s: the run does not end" % why, cmd=cmd)
    if rc < 0:
        raise Violation("%s: crash by %s" % (why, signal.Signals(-rc).name), cmd=cmd)
    if not er.strip():
        raise Violation("%s: status %d without a message" % (why, rc), cmd=cmd)
    for o in outs:
        if ctx.read(o) != old.get(o):
            raise Violation("%s: refused, but %s was %s" % (why, o, "changed" if o in old else "written"), cmd=cmd)
    if rc == 101:
        out.tags["panic_exit"] += 1


def accepted(ctx, args, what):
    rc, so, er = ctx.run(args)
    if rc:
        raise Violation("the well-formed %s is refused with status %d: %s" % (what, rc, er.decode("utf8", "replace")[-600:]),
                        cmd=["svdtools"] + args)
    return so


def text_with_zz(rng):
    d = devs.make(rng, size=0)
    while any(p["name"] in ("ZZ", "ZY", "ZX", "ZN", "ZM") for p in d["peripherals"]):
        d = devs.make(rng, size=0)
    t = model.write_device(d)
    return t.replace("</peripherals>", malformed.ZZ + "</peripherals>")


def write_rules(ctx, rng, y, name, include):
    """The patch, with its rules in the file itself or in an included one."""
    if "_svd" not in y:
        y = dict([("_svd", "dev.svd")] + list(y.items()))
    if not include:
        ctx.write(name, dump(y))
        return
    k = rng.choice(("top", "below"))
    keys = [x for x in y if not x.startswith("_")]
    if k == "below" and len(keys) == 1 and isinstance(y[keys[0]], dict) and y[keys[0]] and "_include" not in y[keys[0]]:
        ctx.write("inc.yaml", dump(y[keys[0]]))
        ctx.write(name, dump(dict(y, **{keys[0]: {"_include": ["inc.yaml"]}})))
        return
    ctx.write("inc.yaml", dump({a: b for a, b in y.items() if a != "_svd"}))
    ctx.write(name, dump({"_svd": y["_svd"], "_include": ["inc.yaml"]}))


def table_case(ctx, rng, n, out):
    name, rule, path, bad = TABLE[n % len(TABLE)]
    ctx.write("dev.svd", text_with_zz(rng))
    inc = not name.startswith("top.") and "_include" not in name and rng.random() < 0.3
    write_rules(ctx, rng, rule, "patch.yaml", inc)
    args = ["patch"]
    if rng.random() < 0.5:
        args += ["--enum-derive", rng.choice(("enum", "field", "none"))]
    args += ["patch.yaml", "out.svd"]
    accepted(ctx, args, name)
    out.tags["control"] += 1
    write_rules(ctx, rng, malformed.with_value(rule, path, bad), "patch.yaml", inc)
    refused(ctx, args, ["out.svd"], out, "%r for %s" % (bad, name), b"earlier\n" if rng.random() < 0.3 else None)
    out.tags["table"] += 1
    if inc:
        out.tags["table:included"] += 1
    out.tags["part:" + name.split(".")[0]] += 1
    out.key, out.nontrivial = ("table", name, repr(bad)), True
    out.sample = {"part": name, "value": repr(bad)}


def paths(y, at=()):
    it = y.items() if isinstance(y, dict) else enumerate(y) if isinstance(y, list) else ()
    for k, v in it:
        yield at + (k,)
        yield from paths(v, at + (k,))


def kind(v):
    if isinstance(v, bool):
        return "bool"
    return {int: "number", Raw: "number", str: "text", list: "list", dict: "mapping", type(None): "null"}[type(v)]


def mutated_case(ctx, rng, out):
    pr = patchdiff.make(rng, ALL, rng.randint(2, 8), 1, refuse=0)
    if not pr.kept or pr.reject:
        return
    args = patchdiff.write_case(ctx, pr)
    rc, so, er = ctx.run(args)
    if rc:
        out.tags["base_refused"] += 1          # other properties' concern
        return
    os.unlink(ctx.path("out.svd"))
    good = pr.y
    ps = list(paths(good))
    n = 0
    for _ in range(12):
        p = rng.choice(ps)
        junk = rng.choice(JUNK)
        y = malformed.with_value(good, p, clone(junk) if not isinstance(junk, Raw) else junk)
        try:
            ref.apply(pr.dev, y, pr.enum_derive, pr.loader)
            continue
        except ref.Unspecified:
            continue
        except ref.Reject as e:
            why = str(e)
        except Exception:
            out.tags["unjudged"] += 1
            continue
        pr.y = y
        args = patchdiff.write_case(ctx, pr)
        refused(ctx, args, ["out.svd"], out, "%r at %s (%s)" % (junk, "/".join(map(str, p)), why),
                b"earlier\n" if rng.random() < 0.3 else None)
        out.tags["mutated"] += 1
        out.tags["mutated:" + kind(junk)] += 1
        n += 1
        if n == 3:
            break
    if n:
        out.key, out.nontrivial = ("mutated", patchdiff.shape(good), n), True
        out.sample = {"patch": dump(pr.y)[:900], "at": why}


def doc_case(ctx, rng, out):
    k = rng.choice(DOCS)
    ctx.write("dev.svd", text_with_zz(rng))
    y = {"_svd": "dev.svd", "_include": ["sub/inc.yaml"], "ZX": {"_include": "more.yaml"}}
    files = {"patch.yaml": y, "sub/inc.yaml": {"ZZ": {"_modify": {"RB?": {"description": "t"}}}},
             "more.yaml": {"_add": {"RX": {"addressOffset": 0}}}}
    cmd = rng.choice(("patch", "patch", "patch", "expand-patch", "makedeps"))
    cmd = cmd if not k.startswith("svd") and k not in ("no_svd",) else "patch"
    outs = {"patch": ["out.svd"], "expand-patch": ["out.yaml"], "makedeps": ["out.d"]}[cmd]
    args = [cmd, "patch.yaml"] + outs
    if cmd == "expand-patch" and rng.random() < 0.5:
        args, outs = args[:2], []
    for n, v in files.items():
        ctx.write(n, dump(v))
    accepted(ctx, args, "patch")
    out.tags["control"] += 1
    victim = rng.choice(list(files))
    t = dump(files[victim])
    if k == "syntax":
        t += rng.choice(("a: [\n", "a: {b: 1\n", "a: \"b\n", "a: b: c\n", "}\n", "- x\n", "a: @b\n", "%x\n", "a: 'b\n"))
    elif k == "tab":
        t += "zz:\n\t- x\n\ty: 1\n"
    elif k == "utf8":
        t = t.encode() + rng.choice((b"# \xff\n", b"\"\xc3\x28\": {}\n", b"x: \xed\xa0\x80\n"))
    elif k == "empty":
        victim, t = "patch.yaml", rng.choice(("", "\n", "---\n" * 0))
    elif k == "comment":
        victim, t = "patch.yaml", "# nothing\n"
    elif k == "list":
        t = "- a\n- b\n"
    elif k == "text":
        t = rng.choice(("hello\n", "3\n", "true\n"))
    elif k == "null":
        t = "~\n"
    elif k == "several":
        t += rng.choice(("---\n{}\n", "---\nZZ: {_delete: RB0}\n", "...\n---\n- x\n"))
    elif k == "duplicate_key":
        x = rng.choice([a for a in files[victim]])
        t += "%s: {}\n" % x
    elif k == "anchor":
        t += "zz: *nope\n"
    elif k == "cut":
        t += "zz: \"cut off"
    elif k == "deep":
        n = rng.choice((5000, 100000))
        t += "zz: " + rng.choice(("[" * n, "{a: " * n, "[" * n + "]" * n, "{a: " * n + "}" * n)) + "\n"
    elif k == "cycle_self":
        me = os.path.basename(victim)
        t = dump({"_svd": "dev.svd", "_include": [rng.choice((me, "./" + me))]} if victim == "patch.yaml" else {"_include": me})
    elif k == "cycle_two":
        back = {"patch.yaml": "other.yaml", "more.yaml": "other.yaml", "sub/inc.yaml": "../other.yaml"}[victim]
        t = dump(dict(files[victim], _include=[back]))
        ctx.write("other.yaml", dump({"_include": [victim]}))
    elif k == "cycle_in_peripheral":
        t = dump(dict(files[victim], QQ={"_include": os.path.basename(victim)}))
    elif k == "cycle_link":
        d = os.path.dirname(victim)
        os.symlink(os.path.basename(victim), os.path.join(ctx.case, d, "link.yaml"))
        t = dump(dict(files[victim], _include=["link.yaml"]))
    elif k == "include_missing":
        t = dump(dict(files[victim], _include=rng.choice((["nope.yaml"], "nope.yaml", "", "nope/x.yaml"))))
    elif k == "include_directory":
        t = dump(dict(files[victim], _include=["."]))
    elif k == "key_number":
        t += "3: {}\n"
    elif k == "key_list":
        t += "? [a]\n: {}\n"
    elif k == "no_svd":
        victim, t = "patch.yaml", dump({a: b for a, b in y.items() if a != "_svd"})
    elif k == "svd_missing":
        os.unlink(ctx.path("dev.svd"))
    elif k == "svd_directory":
        victim, t = "patch.yaml", dump(dict(y, _svd="sub"))
    elif k == "svd_empty":
        ctx.write("dev.svd", "")
    elif k == "svd_not_xml":
        ctx.write("dev.svd", rng.choice(("hello", "<device>", "<device/>", "<a></b>", "{}", "\0\1\2")))
    ctx.write(victim, t)
    refused(ctx, args, outs, out, "%s (%s)" % (k, victim), b"earlier\n" if rng.random() < 0.4 else None)
    out.tags["docs:" + k] += 1
    out.tags["cmd:" + cmd] += 1
    out.key, out.nontrivial = ("docs", k, victim, cmd), True


def case(ctx, rng, i, out):
    if i % 2 == 0:
        table_case(ctx, rng, i // 2, out)
    elif i % 4 == 1:
        mutated_case(ctx, rng, out)
    else:
        doc_case(ctx, rng, out)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
