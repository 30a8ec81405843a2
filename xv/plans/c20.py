from xv.ctx import Scenario as S

RULE = ("Declared types of the table and types generated on the fly in every declaration style; every reported fact (shape, batch, dtypes, dimension count, length, classification), default and random values are compared with the "
        "declaration table; instances with one inconsistent field, and chains of operations after which facts are read again. A case is one type and batch shape, or one step of a chain.")
REQUIRED_EVENTS = ("facts_read", "types", "generated_types", "deep_types", "unstructured", "histories", "replaced", "traced", "rows_compared", "ranges", "factories", "batch_single", "batch_empty", "batch_1d", "batch_2d", "batch_3d")
ASSUMPTIONS = ("batch shapes are tuples", "field values are arrays or nested records")
BUDGET = {"quick": 15.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    groups = [("U1", "Small", "Pair", "Vec", "Mat"), ("Mixed", "Nest", "Deep", "NestArr"), ("Signed", "WideF", "Board", "Flags", "Filled"), ("F8", "Bits", "Odd3", "SameDim", "Named"), ("AggN", "AggBig", "Pk", "PkN")]
    out = [S(f"types-{i}", "known", types=g, k=4 if q else 16) for i, g in enumerate(groups)]
    out += [S(f"declared-{i}", "declared", count=6 if q else 30, k=3) for i in range(3 if q else 6)]
    out += [S(f"broken-{i}", "broken", count=40 if q else 200) for i in range(2)]
    out += [S(f"history-{i}", "history", count=6 if q else 40) for i in range(2)]
    out += [S("randomness", "randomness", count=6 if q else 60), S("factories", "factories", count=8 if q else 40)]
    return out
