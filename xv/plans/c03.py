from xv.ctx import Scenario as S

RULE = ("Random insert/delete-min histories within capacity over many geometries, key types and key distributions, every answer compared with an exact sorted model; "
        "a case is one operation, distinct by geometry, last operations and number held.")
REQUIRED_EVENTS = ("inserts", "insert_partial", "filled_to_capacity", "delete_on_empty", "delete_partial", "delete_full", "drains")
ASSUMPTIONS = ("inserted keys are finite, infinity marks padding", "no NaN, -0.0 or subnormal keys", "held entries never exceed the capacity")


def scenarios(tier, seed):
    n = 150 if tier == "quick" else 400
    out = [
        S("b4-t64", "history", cls="U1", batch=4, total=64, ops=n),
        S("b4-t256-few", "history", cls="U1", batch=4, total=256, ops=n, mode="few"),
        S("b1-t33", "history", cls="U1", batch=1, total=33, ops=n),
        S("b2-t62-edge", "history", cls="Small", batch=2, total=62, ops=n, mode="edge"),
        S("b8-t8", "history", cls="U1", batch=8, total=8, ops=n),
        S("b8-t20-f16", "history", cls="Pair", batch=8, total=20, dtype="f16", ops=n),
        S("b5-t5x31-bf16", "history", cls="U1", batch=5, total=155, dtype="bf16", ops=n),
        S("b32-t1000", "history", cls="U1", batch=32, total=1000, ops=n),
        S("b16-t256-asc", "history", cls="U1", batch=16, total=256, ops=n, mode="asc"),
        S("b16-t250-desc", "history", cls="U1", batch=16, total=250, ops=n, mode="desc"),
        S("b3-t50-const", "history", cls="U1", batch=3, total=50, ops=n, mode="const"),
        S("b7-t700-drainheavy", "history", cls="U1", batch=7, total=700, ops=n, bias=0.7),
        S("b128-t4000-f16-few", "history", cls="U1", batch=128, total=4000, dtype="f16", ops=n // 2, mode="few"),
        S("b4-t12", "history", cls="U1", batch=4, total=12, ops=n),
        S("b6-t60-edge-f16", "history", cls="U1", batch=6, total=60, dtype="f16", ops=n, mode="edge"),
        S("b4-t60-unstable", "history", cls="U1", batch=4, total=60, ops=n, mode="few", env={"XTRUCTURE_BGPQ_SORT_STABLE": "0"}),
        S("b9-t100-concat", "history", cls="U1", batch=9, total=100, ops=n, env={"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"}),
    ]
    return out
