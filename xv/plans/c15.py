from xv.ctx import Scenario as S

RULE = ("Batches full of duplicates, one-element variations, top-bit flips and padding look-alikes, with random costs of every number type and random filters; the mask and the index and inverse outputs must be those of "
        "grouping rows by their exact bytes (or exact user keys) in Python; a case is one call, distinct by rows, costs and filter.")
REQUIRED_EVENTS = ("compiled", "with_costs", "with_filter", "index_outputs", "inverse_outputs", "user_keys", "large_rows", "mapped_problems", "duplicates_dropped", "refused_lengths")
ASSUMPTIONS = ("no NaN costs or keys and no -0.0", "the inverse of unselected rows is unspecified", "rows with infinite cost count as unselected, as documented")
BUDGET = {"quick": 20.0, "thorough": 420.0}
X64 = {"JAX_ENABLE_X64": "1"}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 40 if q else 400
    out = [S("rows_" + c.lower(), "rows", cls=c, count=n) for c in ("Small", "Pair", "Vec", "Mat", "Mixed", "Nest", "Flags", "WideF", "Board", "NestArr", "Pk")]
    out += [S("rows_deep", "rows", cls="Deep", count=n // 2), S("rows_bits", "rows", cls="Bits", count=n // 2, sizes=(9, 24)), S("rows_aggn", "rows", cls="AggN", count=n // 3, sizes=(9,)), S("rows_aggbig", "rows", cls="AggBig", count=n // 3, sizes=(12,))]
    out += [S("rows64_" + c.lower(), "rows", env=X64, cls=c, count=n // 2, x64=True) for c in ("Wide64", "Mat", "WideF")]
    names = ["scalar_u32", "scalar_f32", "vec2_i32", "vec4_f32", "vec5_f32", "vec7_u32", "vec6_i16", "vec9_bool", "mat_f16", "vec3_i8", "mat_i32", "vec5_bf16", "vec12_u8", "scalar_bool", "vec1_f32"]
    out += [S(f"keys_{i}", "userkeys", names=names[i::3], count=n) for i in range(3)]
    out += [S("keys64", "userkeys", env=X64, names=["vec3_f64", "vec4_u64", "vec2_i64", "scalar_f64", "vec6_f64", "vec3_i64", "vec5_f32"], count=n, x64=True)]
    out += [S("large_" + c.lower(), "large", cls=c, n=n_, count=1 if q else 4) for c, n_ in (("WideF", 400000), ("Mat", 250000), ("Pair", 250000))]
    out += [S("mapped_" + c.lower(), "mapped", cls=c, n=11, count=8 if q else 60) for c in ("Pair", "Nest", "WideF")]
    out += [S("refusals", "refusals")]
    return out
