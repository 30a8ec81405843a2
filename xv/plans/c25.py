from xv.ctx import Scenario as S

RULE = ("Pairs of record arrays of every type that are identical, differ in exactly one element by one bit or one unit in the last place, in a few elements, in NaNs or signs of zero, or everywhere; ==, != (swapped, compiled, mapped), "
        "elementwise comparison, isclose and allclose are compared with host arithmetic over every element. A case is one pair.")
REQUIRED_EVENTS = ("equalities", "equal_pairs", "unequal_pairs", "elements_compared", "mapped", "other_types", "broadcasts", "judged_elements", "far_elements", "allclose_true", "allclose_false")
ASSUMPTIONS = ("both arrays have the same batch shape (or one is a single record, elementwise)", "subnormal values are not generated", "closeness is judged where the difference is below 0.6 or above 1.5 times the tolerance, and on integers up to 2^20")
BUDGET = {"quick": 15.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 24 if q else 220
    out = [S("eq_" + c.lower(), "equality", cls=c, count=n) for c in ("U1", "Mat", "Mixed", "Nest", "Deep", "NestArr", "Flags", "Signed", "F8", "Bits", "AggN", "Pk", "PkN", "SameDim", "WideF")]
    out += [S("big_" + c.lower(), "equality", cls=c, count=8 if q else 40, big=True) for c in ("Nest", "WideF", "Mixed")]
    out += [S("bc_" + c.lower(), "broadcast", cls=c, count=9) for c in ("Nest", "Vec")]
    out += [S("close_" + c.lower(), "closeness", cls=c, count=n) for c in ("Pair", "Mat", "Mixed", "Nest", "Deep", "NestArr", "Signed", "WideF")]
    out += [S(f"{k}64_" + c.lower(), f, env={"JAX_ENABLE_X64": "1"}, cls=c, count=n) for k, f in (("eq", "equality"), ("close", "closeness")) for c in ("Wide64", "Nest64")]
    return out
