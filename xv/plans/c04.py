from xv.ctx import Scenario as S

RULE = ("Insert/delete-min histories with uniquely tagged multi-field values and many equal keys; every returned (key, value bytes) pair is charged against the multiset of "
        "pairs inside, and nothing may remain after draining; a case is one operation, distinct by geometry, last operations and number held.")
REQUIRED_EVENTS = ("inserts", "insert_partial", "filled_to_capacity", "delete_partial", "delete_full", "drains", "pairs_checked")
ASSUMPTIONS = ("inserted keys are finite, infinity marks padding", "held entries never exceed the capacity", "values returned in padded rows are unspecified")


def scenarios(tier, seed):
    n = 130 if tier == "quick" else 350
    cc = {"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"}
    return [
        S("pair-few", "history", cls="Pair", batch=4, total=64, ops=n, mode="few"),
        S("mat-const", "history", cls="Mat", batch=5, total=100, ops=n, mode="const"),
        S("mat-b1", "history", cls="Mat", batch=1, total=20, ops=n, mode="few"),
        S("nest-few", "history", cls="Nest", batch=8, total=90, ops=n, mode="few"),
        S("nestarr", "history", cls="NestArr", batch=6, total=120, ops=n, mode="few"),
        S("deep-few", "history", cls="Deep", batch=3, total=48, ops=n, mode="few", dtype="f16"),
        S("mixed", "history", cls="Mixed", batch=7, total=70, ops=n),
        S("f8", "history", cls="F8", batch=4, total=40, ops=n, mode="few"),
        S("u1-b2-t200", "history", cls="U1", batch=2, total=200, ops=n, mode="few", bias=0.7),
        S("samedim-b3", "history", cls="SameDim", batch=3, total=33, ops=n, mode="few"),
        S("samedim-b64", "history", cls="SameDim", batch=64, total=1000, ops=n // 2, mode="few", dtype="bf16"),
        S("small-dup-pairs", "history", cls="Small", batch=4, total=64, ops=n, mode="few", dup=True),
        S("flags-edge", "history", cls="Flags", batch=9, total=99, ops=n, mode="edge"),
        S("t-eq-b", "history", cls="Nest", batch=4, total=4, ops=n, mode="few"),
        S("asc", "history", cls="Pair", batch=8, total=128, ops=n, mode="asc"),
        S("desc", "history", cls="Pair", batch=8, total=128, ops=n, mode="desc"),
        S("nest-concat", "history", cls="Nest", batch=4, total=64, ops=n, mode="few", env=cc),
        S("mat-concat", "history", cls="Mat", batch=1, total=24, ops=n, mode="few", env=cc),
        S("unstable", "history", cls="Mat", batch=6, total=80, ops=n, mode="few", env={"XTRUCTURE_BGPQ_SORT_STABLE": "0"}),
    ]
