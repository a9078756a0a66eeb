"""C14: merging and splitting keeps the covered bits."""
import sys

from kit import focus, maps, runner

PID = "C14"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_merge, _split) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 4000, "thorough": 150000}
FOCUS = {"f_merge": 1, "f_split": 1}
MUST_SEE = ("f_merge", "f_split", "refused", "monitor:covered_bits")


def extra(ctx, pr, got, out):
    maps.conserve(pr.ctx_cur, got, lambda path, r: (path, maps.bits(r)), "covered bits", out, "covered_bits")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS, extra=extra, ctx_weights=focus.context(FOCUS, ("array", "f_array", "cluster", "expand_array", "expand_cluster")))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
