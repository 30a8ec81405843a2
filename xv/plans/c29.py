from xv.ctx import Scenario as S

RULE = ("Every public array function called with random plain arrays and options (in range and out of range) next to the jax.numpy function of the same name; every instance method next to its function; every name under every import path; "
        "types that define such methods themselves; mixtures of records, arrays and record types, and unsupported options. A case is one call, one type, or one name.")
REQUIRED_EVENTS = ("array_calls", "both_refused", "functions", "aliases", "method_calls", "own_methods", "refused")
ASSUMPTIONS = ("JAX refuses what it refuses: only whether both refuse is compared, not the message", "method forms of the stacking functions stack the records along the first batch axis")
BUDGET = {"quick": 12.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    names = ["concat", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack", "block", "pad", "reshape", "ravel", "flatten", "where", "take", "take_along_axis", "tile", "transpose", "swapaxes", "moveaxis", "expand_dims", "squeeze",
             "repeat", "split", "zeros_like", "ones_like", "full_like", "equal", "not_equal", "isclose", "allclose", "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d", "roll", "flip", "rot90", "astype", "result_type", "can_cast"]
    k = 4
    out = [S(f"arrays-{i}", "arrays", names=names[i::k], count=len(names[i::k]) * (8 if q else 40)) for i in range(k)]
    g1, g2 = ("Vec", "Pair", "Mat", "Nest", "Signed", "Board"), ("Flags", "Deep", "NestArr", "WideF", "Filled", "SameDim", "Mixed")
    out += [S("surface", "surface", once=True), S("methods-a", "methods", types=g1, count=5 if q else 24), S("methods-b", "methods", types=g2, count=5 if q else 24)]
    out += [S("overrides", "overrides", count=4 if q else 16), S("refusals-a", "refusals", types=g1, count=4 if q else 24), S("refusals-b", "refusals", types=g2, count=4 if q else 24)]
    return out
