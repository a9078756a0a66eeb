"""C01: patching changes only what the rules select; no rules, no change; idempotence of the empty patch."""
import sys

from kit import gen, model, patchdiff, runner
from kit.prop import ALL
from kit.runner import Violation
from kit.yamlout import dump

PID = "C01"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule changed something (or, for empty patches, if the device has registers); two "
        "cases are the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 120000}
MUST_SEE = ("applied", "empty_patch", "idempotent") + tuple(k for k in ALL if k not in (
    "irq", "strip", "f_enum", "f_action"))
ASSUMPTIONS = ["outcomes that the documentation leaves open (kit/ref.py raises Unspecified) are not generated"]


def case(ctx, rng, i, out):
    if i % 8 == 7:
        return empty(ctx, rng, i, out)
    pr = patchdiff.make(rng, ALL, rng.randint(1, 7))
    got = patchdiff.check(ctx, pr, out)
    if got is not None and rng.random() < 0.25:
        again(ctx, out)
    patchdiff.finish(pr, out)


def again(ctx, out):
    """An empty patch on the tool's own output reproduces it byte for byte."""
    ctx.write("again.yaml", dump({"_svd": "out.svd"}))
    args = ["patch", "again.yaml", "out2.svd"]
    rc, so, er = ctx.run(args)
    if rc:
        raise Violation("an empty patch of the output is refused: %s" % er.decode("utf8", "replace")[-800:], cmd=args)
    out.tags["idempotent"] += 1
    if ctx.read("out2.svd") != ctx.read("out.svd"):
        raise Violation("an empty patch of the output does not reproduce it", cmd=args)


def empty(ctx, rng, i, out):
    d = gen.Gen(rng, rng.randint(0, 2)).device()
    ctx.write("dev.svd", model.write_device(d))
    y = {"_svd": "dev.svd"}
    if rng.random() < 0.3:
        y["?~" + rng.choice(["NO_SUCH", "[!A-Za-z]*"])] = {"_delete": ["*"]}
    ctx.write("patch.yaml", dump(y))
    args = ["patch", "patch.yaml", "out.svd"]
    rc, got, er = patchdiff.outcome(ctx, args)
    if rc:
        raise Violation("an empty patch is refused: %s" % er.decode("utf8", "replace")[-800:], cmd=args)
    out.tags["empty_patch"] += 1
    x = model.diff(model.norm(d), model.norm(got))
    if x:
        raise Violation("an empty patch changes the device: %s" % x, cmd=args)
    again(ctx, out)
    out.key, out.nontrivial = ("empty", i), any(p["children"] for p in d["peripherals"])


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
