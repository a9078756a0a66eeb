"""C17: write constraints, read actions, modified write values."""
import sys

from kit import focus, runner

PID = "C17"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (write constraints, read actions, modified write values) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 150000}
FOCUS = {"f_action": 3, "f_range": 3, "f_wc": 3}
MUST_SEE = ("f_action", "f_range", "f_wc", "refused")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
