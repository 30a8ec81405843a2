from xv.ctx import Scenario as S

RULE = ("Random conditional updates (1 to 3 indexed axes, duplicate, negative and out-of-range positions of every integer type, scalar, broadcast and per-entry values, records and plain arrays) must equal, bit for bit, a "
        "sequential loop in which the first true in-range entry of each cell wins; a case is one update, distinct by type, indices and condition.")
REQUIRED_EVENTS = ("cells_written", "duplicates_ignored", "out_of_range_dropped", "scalar_values", "record_values", "tuple_indices", "multidim_updates", "plain_arrays", "compiled", "mapped", "long_batches", "refused", "huge_targets")
ASSUMPTIONS = ("scalar values are 0, 1 or True, representable in every field", "per-entry values have the shape of the index array (plus trailing batch and intrinsic axes)")
BUDGET = {"quick": 18.0, "thorough": 420.0}
X64 = {"JAX_ENABLE_X64": "1"}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 18 if q else 250
    out = [S(c.lower(), "records", cls=c, count=n) for c in ("Pair", "Mat", "Nest", "NestArr", "Mixed", "Flags", "F8", "Filled", "Pk", "SameDim")]
    out += [S("deep", "records", cls="Deep", count=n // 2)]
    out += [S("jit_" + c.lower(), "records", cls=c, count=2 * n, few=True) for c in ("Pair", "Nest")]
    out += [S(f"arrays-{i}", "arrays", count=3 * n) for i in range(3)]
    out += [S("x64", "records", env=X64, cls="Wide64", count=n, x64=True), S("x64-pair", "records", env=X64, cls="Pair", count=n, x64=True), S("x64-arrays", "arrays", env=X64, count=2 * n, x64=True)]
    out += [S("big", "big", count=3 if q else 20, n=40000), S("mapped_pair", "mapped", cls="Pair", count=n), S("mapped_nest", "mapped", cls="Nest", count=n // 2), S("refusals", "refusals")]
    out += [S(f"huge{i}", "huge", once=q, targets=t) for i, t in enumerate([[[70001], [300, 300], [40, 50, 60]], [[(1 << 24) + 40]], [[4100, 4100]]])]
    return out
