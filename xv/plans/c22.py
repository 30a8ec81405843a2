from xv.ctx import Scenario as S

RULE = ("Random instances of plain, frozen, keyword-only, inherited and static-field dataclasses (nested in each other, in dictionaries and lists) and of the record types; each goes through flatten/unflatten, mapping, copies, pickling, "
        "conversions, replacing and compilation, and every result is compared leaf by leaf (by identity where nothing may be computed) with a description taken from the field table. A case is one instance.")
REQUIRED_EVENTS = ("leaves_compared", "plain_instances", "record_instances", "static_changed", "compiled", "frozen_refused", "derived", "static_calls", "unhashable_refused", "loops", "crossed_processes", "containers")
ASSUMPTIONS = ("no attributes other than the fields are attached to instances", "__post_init__ may run again when an instance is rebuilt from leaves", "static values are hashable")
BUDGET = {"quick": 14.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    groups = [("U1", "Small", "Pair", "Vec", "Mat", "Mixed"), ("Nest", "Deep", "NestArr", "Signed", "WideF"), ("Board", "Flags", "Filled", "F8", "Bits", "Odd3"), ("SameDim", "AggN", "AggBig", "Pk", "PkN", "Named")]
    out = [S(f"plain-{i}", "plain", count=33 if q else 220) for i in range(2 if q else 4)]
    out += [S(f"records-{i}", "records", types=g, count=4 if q else 12) for i, g in enumerate(groups)]
    out += [S("caches", "caches", count=10 if q else 80), S("static", "static_jit", count=20 if q else 60), S("processes", "processes", count=22 if q else 88), S("containers", "containers", count=1 if q else 6)]
    return out
