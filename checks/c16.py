"""C16: enumerated values."""
import sys

from kit import focus, gen, runner

PID = "C16"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (enumeratedValues) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 4000, "thorough": 150000}
FOCUS = {"f_enum": 1}
MUST_SEE = ("f_enum", "f_enum_read", "f_enum_write", "refused")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS, nfocus=(1, 3), dev=digits(rng) if rng.random() < 0.03 else None)


def digits(rng):
    """A device with fields whose names start with a digit, which cannot lend them to enumerations."""
    dev = gen.Gen(rng, 1).device()
    fields, used = [], set()

    def walk(n):
        if n.get("derivedFrom"):
            used.add(n["derivedFrom"].split(".")[-1])
        if n["k"] == "field":
            fields.append(n)
        for c in n.get("peripherals", []) + n.get("children", []) + n.get("fields", []):
            walk(c)
    walk(dev)
    for f in fields:
        if f["name"] not in used and rng.random() < 0.3:
            f["name"] = rng.choice("0123456789") + f["name"]
    return dev


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
