from xv.ctx import Scenario as S

RULE = ("Record arrays of every type and batch shape go through full/zeros/ones_like, astype, broadcast_arrays, broadcast_to, atleast_nd, result_type and can_cast; each field of the result is compared with the same operation on that field as a "
        "plain array (and with host arithmetic where it is unambiguous), refusals must agree. A case is one call.")
REQUIRED_EVENTS = ("fields_compared", "filled_fields", "cast_values", "can_cast_yes", "can_cast_no", "promoted_fields", "pair_yes", "pair_no", "broadcast_groups", "broadcast_refused", "broadcast_to", "atleast", "plain_results")
ASSUMPTIONS = ("fill values are scalars", "all record arguments of one call have one type")
BUDGET = {"quick": 15.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 24 if q else 220
    T = ("U1", "Mat", "Mixed", "Nest", "NestArr", "Signed", "F8", "Pk")
    out = [S("fill_" + c.lower(), "fill", cls=c, count=n) for c in T + ("Deep", "Flags", "Bits")]
    out += [S("cast_" + c.lower(), "cast", cls=c, count=n) for c in ("U1", "Mat", "Mixed", "Nest", "NestArr", "Signed")]
    out += [S("promote_" + c.lower(), "promote", cls=c, count=n) for c in ("Pair", "Mat", "Nest", "Deep", "NestArr")]
    out += [S("bc_" + c.lower(), "broadcast", cls=c, count=n) for c in ("U1", "Pair", "Mat", "Nest", "NestArr", "Signed", "SameDim", "Mixed")]
    out += [S("plain", "plain", count=n)]
    return out
