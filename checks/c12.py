"""C12: collecting registers into clusters keeps addresses and bit layouts."""
import sys

from kit import focus, maps, runner

PID = "C12"
LEVEL = "exploration"
RULE = ("a case counts if at least one rule of the family (_cluster) took effect or was refused as specified; two cases are "
        "the same if their patches have the same structure (keys and nesting)")
CASES = {"quick": 3500, "thorough": 150000}
FOCUS = {"cluster": 1}
MUST_SEE = ("cluster", "cluster_sections", "cluster_collects", "refused", "monitor:address_map")


KEEP = {"_array", "_cluster", "_expand_array", "_strip", "_strip_end", "_prefix", "_suffix"}


def extra(ctx, pr, got, out):
    for _, v in maps.rules(pr.y, "_cluster"):
        if isinstance(v, dict) and any(k.startswith("_") and k not in KEEP for k in v):
            return      # sections that change the registers themselves
    maps.conserve(pr.ctx_cur, got, lambda path, r: (), "register addresses", out, "address_map")
    inner = [k for _, v in maps.rules(pr.y, "_cluster") for x in v.values() if isinstance(x, dict) for k in x]
    if all(k in ("name", "description") for k in inner):
        maps.conserve(pr.ctx_cur, got, lambda path, r: (maps.bits(r),), "used bits", out, "bits")


def case(ctx, rng, i, out):
    focus.run(ctx, rng, out, FOCUS, extra=extra, nfocus=(1, 2))


if __name__ == "__main__":
    sys.exit(runner.main(sys.modules[__name__], sys.argv[1:]))
