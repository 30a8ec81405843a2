from xv.ctx import Scenario as S

RULE = ("Random reads, sets and conditional sets through integers, slices, integer arrays of several types, boolean masks, new axes and tuples of them on batches of 1 to 3 axes; every field must hold the records that the same "
        "index picks from an array of record labels, and nothing else may change; a case is one access, distinct by type, batch and index.")
REQUIRED_EVENTS = ("read_int", "read_slice", "read_array", "read_mask", "read_tuple_basic", "read_tuple_mixed", "read_newaxis", "read_tuple_arrays", "write_int", "write_slice", "write_array", "write_mask", "write_tuple_basic",
                   "write_tuple_mixed", "conditional_sets", "value_records", "value_broadcast", "value_scalar", "compiled", "chain_steps", "out_of_range_sets", "visited", "single_refused")
ASSUMPTIONS = ("positions read are inside the array", "an ellipsis is the last part of a tuple (otherwise it reaches into intrinsic axes)", "index arrays of a set address distinct records", "values fit the addressed region", "scalars written are booleans or integers every field type holds (JAX itself rounds integer cells when a float is written through a mask)")
BUDGET = {"quick": 18.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 40 if q else 320
    types = ("Pair", "Mat", "Nest", "NestArr", "Mixed", "SameDim", "U1", "Pk")
    out = [S("read_" + c.lower(), "read", cls=c, count=n) for c in types + ("Deep", "Flags", "F8", "AggN")]
    out += [S("write_" + c.lower(), "write", cls=c, count=n) for c in types]
    out += [S("write_deep", "write", cls="Deep", count=n // 2)]
    out += [S("chain_" + c.lower(), "chains", cls=c, count=2 if q else 12, steps=14) for c in ("Nest", "Mixed", "NestArr")] + [S("dropped_mat", "dropped", cls="Mat", count=n // 4)]
    out += [S("iterate_" + c.lower(), "iteration", cls=c, count=4 if q else 40) for c in ("Pair", "Mat", "Nest", "NestArr", "Flags", "Pk")]
    return out
