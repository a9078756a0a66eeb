"""C18: clearing."""
import sys

from kit import focus, runner

PID = "C18"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_clear, _clear_fields) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 150000}
FOCUS = {"clear_fields": 2, "dev_clear": 2, "f_clear": 2}
MUST_SEE = ("clear_fields", "dev_clear", "f_clear")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS)


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
