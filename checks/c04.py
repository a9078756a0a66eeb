"""C04: see properties.jsonl; rules of this family under the differential monitor."""
import sys

from kit import focus, runner

PID = "C04"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_delete) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3000, "thorough": 150000}
FOCUS = {"dev_delete": 2, "delete": 4, "irq_delete": 2, "f_delete": 3}
MUST_SEE = ("dev_delete", "delete", "irq_delete", "f_delete", "refused")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
