"""C10: collecting registers keeps addresses (and names unless renamed)."""
import sys

from kit import focus, maps, runner

PID = "C10"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (register _array) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 150000}
FOCUS = {"array": 1}
MUST_SEE = ("array", "refused", "monitor:address_map", "monitor:names")


def extra(ctx, pr, got, out):
    maps.conserve(pr.ctx_cur, got, lambda path, r: (), "register addresses", out, "address_map")
    if not any(k in v for _, v in maps.rules(pr.y, "_array") for k in ("name", "_start_from_zero")) and \
            not any(c in s for s, _ in maps.rules(pr.y, "_array") for c in "{,"):
        maps.conserve(pr.ctx_cur, got, lambda path, r: (path,), "register names", out, "names")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS, extra=extra, ctx_weights=focus.context(FOCUS, ("f_array",)), nfocus=(1, 2))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
