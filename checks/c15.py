"""C15: prefix, suffix and strip rules."""
import sys

from kit import focus, runner

PID = "C15"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_strip, _strip_end, _prefix, _suffix) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 150000}
FOCUS = {"strip": 4, "prefix": 2, "f_strip": 3, "f_prefix": 2}
MUST_SEE = ("strip", "strip_end", "prefix", "f_strip", "f_prefix")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
