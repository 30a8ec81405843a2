from xv.ctx import Scenario as S

RULE = ("Random shape operations on record arrays of 0 to 4 batch axes built from unique labels; every output record must be, in all fields and bit for bit, the record "
        "whose label the same numpy operation puts there; a case is one operation, distinct by type and parameters.")
REQUIRED_EVENTS = ("op_concat", "op_stack", "op_reshape", "op_pad", "op_split", "op_take", "op_take_along_axis", "op_rot90", "op_block", "op_transpose", "records_moved")
ASSUMPTIONS = ("axes are given explicitly and are batch axes", "tile, block and one-dimensional h/v/d/column stacking are compared on types whose fields are all scalars")
BUDGET = {"quick": 22.0, "thorough": 420.0}


def scenarios(tier, seed):
    n = 110 if tier == "quick" else 260
    return [S(c.lower(), "ops", cls=c, count=n) for c in ("Pair", "Mat", "Nest", "NestArr", "Mixed", "SameDim", "Filled", "F8")] + [
        S("deep", "ops", cls="Deep", count=n // 2), S("u1", "ops", cls="U1", count=n), S("flags", "ops", cls="Flags", count=n), S("vec", "ops", cls="Vec", count=n)]
