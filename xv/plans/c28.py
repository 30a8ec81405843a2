from xv.ctx import Scenario as S

RULE = ("Random fields (ten dtypes, zero to three intrinsic axes, with and without fill values, bits, factories, validators) declared in every documented form and derived by the helper functions; random trees of declarations under every packing policy; "
        "packed tensors of every width; impossible declarations at every place among good ones. Types built from them are compared with an independent table of what was declared. A case is one declaration.")
REQUIRED_EVENTS = ("forms", "derived", "factory_calls", "policies", "aggregates", "packed_forms", "refused", "accepted", "shared", "validated")
ASSUMPTIONS = ("intrinsic shapes are tuples (lists where the helpers take any iterable)", "no xtructure type inherits from another one", "bits is an int, not a bool", "which exception refuses a declaration is not prescribed")
BUDGET = {"quick": 14.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    out = [S(f"forms-{i}", "forms_agree", count=8 if q else 40) for i in range(2 if q else 4)]
    out += [S("derived", "derived", count=200 if q else 2000), S("factories", "factories", count=20 if q else 80), S("shared", "shared", count=8 if q else 40)]
    out += [S(f"policy-{i}", "policy", count=4 if q else 16) for i in range(2 if q else 4)]
    out += [S("packed", "packed_forms", count=10 if q else 64), S("refusals", "refusals", count=15 if q else 80)]
    return out
