from xv.ctx import Scenario as S

RULE = ("Random selections between two record arrays, a record array and a broadcast record, and a record array and a scalar fill, over batch shapes that coincide with intrinsic shapes; every field of every record must be that of "
        "the chosen side, bit for bit; every kind of mismatch must make the strict variant raise; a case is one selection, distinct by type, batch, condition and contents.")
REQUIRED_EVENTS = ("record_masks", "broadcast_alternatives", "scalar_conditions", "scalar_fills", "strict_selections", "strict_arrays", "refused_mismatches", "mapped", "broadcast_conditions")
ASSUMPTIONS = ("a fill scalar promotes field dtypes as jnp.where does on a plain array", "conditions that are neither scalar nor of the batch shape are compared on types of scalar fields")
BUDGET = {"quick": 18.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 30 if q else 300
    out = [S(c.lower(), "select", cls=c, count=n) for c in ("Pair", "Vec", "Mat", "Nest", "NestArr", "Mixed", "Flags", "F8", "Filled", "SameDim", "Pk", "AggN")]
    out += [S("deep", "select", cls="Deep", count=n // 2)]
    out += [S("jit_" + c.lower(), "select", cls=c, count=2 * n, few=True) for c in ("SameDim", "Nest", "Pair")]
    out += [S("strict_" + c.lower(), "strict", cls=c, count=n) for c in ("Pair", "Mat", "Nest", "NestArr", "Board", "Flags", "SameDim")]
    out += [S("mapped_" + c.lower(), "mapped", cls=c, count=n // 2) for c in ("SameDim", "NestArr")] + [S("scalarbatches", "scalarbatches", count=2 * n)]
    return out
