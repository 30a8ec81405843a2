from xv.ctx import Scenario as S

RULE = ("Record types with a formatter of their own that logs what it is given, and types with the built-in one, rendered as single records and as batches of zero to thousands of records in one to four dimensions, "
        "fresh, derived by indexing, reshaping and updates, unstructured and under tracing; the text is parsed back and compared with the records. A case is one instance rendered.")
REQUIRED_EVENTS = ("records_shown", "formatter_calls", "grids", "lines", "elided", "singles", "empty_batches", "default_singles", "default_batches", "distinguished", "unstructured", "derived", "traced")
ASSUMPTIONS = ("the output is wide enough for the records shown", "formatters return one line when the order on a line is checked", "how many records a shortened text keeps is the library's choice, up to four are always kept")
BUDGET = {"quick": 14.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    g1 = ("U1", "Small", "Pair", "Vec", "Mat", "Mixed", "Nest", "Deep", "NestArr", "Signed")
    g2 = ("WideF", "Board", "Flags", "Filled", "F8", "Bits", "Odd3", "SameDim", "AggN", "Pk", "PkN", "Named")
    out = [S(f"shapes-{i}", "shapes", count=27 if q else 120, big=i % 2 == 1) for i in range(3 if q else 6)]
    out += [S("derived", "derived", count=3 if q else 12)]
    out += [S("default-a", "default_text", types=g1, count=14 if q else 60), S("default-b", "default_text", types=g2, count=14 if q else 60)]
    out += [S("unstructured", "unstructured", types=g1 + g2, count=20 if q else 80)]
    return out
