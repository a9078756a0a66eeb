"""C08: see properties.jsonl; rules of this family under the differential monitor."""
import sys

from kit import focus, runner

PID = "C08"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_derive) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3000, "thorough": 150000}
FOCUS = {"dev_derive": 3, "derive": 4, "f_derive": 3}
MUST_SEE = ("dev_derive", "derive", "f_derive", "refused")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
