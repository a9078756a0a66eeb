"""C05: see properties.jsonl; rules of this family under the differential monitor."""
import sys

from kit import focus, runner

PID = "C05"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_modify) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3000, "thorough": 150000}
FOCUS = {"dev_attr": 3, "dev_cpu": 2, "dev_per": 5, "irq_modify": 2, "modify": 6, "f_modify": 5}
MUST_SEE = ("dev_attr", "dev_cpu", "dev_per", "irq_modify", "modify", "f_modify", "refused")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS, nfocus=(1, 4))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
