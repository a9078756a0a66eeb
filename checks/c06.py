"""C06: see properties.jsonl; rules of this family under the differential monitor."""
import sys

from kit import focus, runner

PID = "C06"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_add) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3000, "thorough": 150000}
FOCUS = {"dev_add": 3, "add": 6, "irq_add": 2, "f_add": 3}
MUST_SEE = ("dev_add", "add", "add_cluster", "irq_add", "f_add", "refused")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
