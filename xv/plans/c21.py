from xv.ctx import Scenario as S

RULE = ("Validated types of the table and generated ones; one field of a well-formed instance, at any depth, is given a wrong dtype, trailing shape, rank or kind of value and every way of constructing it must raise; well-formed "
        "instances of every batch shape must pass through constructors, copies, indexing, restructuring and compiled code; declared validators are counted. A case is one instance.")
REQUIRED_EVENTS = ("rejected", "accepted", "bad_dtype", "bad_trailing", "bad_rank", "bad_swap", "bad_wrapped", "bad_none", "bad_string", "bad_record", "bad_other_type", "bad_array", "bad_nested_shape", "traced", "unvalidated_types", "validator_runs", "every_shape", "every_dtype", "every_nested_shape")
ASSUMPTIONS = ("host arrays of 64-bit types, Python scalars and lists are not used as field values (JAX narrows them on use)", "records rebuilt from leaves by JAX itself are not constructions")
BUDGET = {"quick": 12.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 40 if q else 200
    T = [("VVec", "VSmall", "VMat"), ("VNest", "HalfV"), ("VArr", "VOuter"), ("VPk",), ("VBits",)]
    out = [S(f"malformed-{i}", "malformed", types=t, count=n) for i, t in enumerate(T)] + [S("malformed-generated", "malformed", types=(), count=n // 3)]
    out += [S(f"wellformed-{i}", "wellformed", types=t, count=n // 5) for i, t in enumerate(T)] + [S("wellformed-generated", "wellformed", types=(), count=n // 10)]
    out += [S("explicit", "explicit", count=n), S("validators", "validators", count=n // 3)]
    out += [S(f"every-{i}", "every", types=t, once=q) for i, t in enumerate([("VVec", "VSmall", "VMat", "VPk", "VBits"), ("VNest", "HalfV"), ("VArr",), ("VOuter",)])]
    return out
