from xv.ctx import Scenario as S

RULE = ("Histories that keep inserting past capacity, with deletes in between; after inserts the whole queue is drained as a copy to observe what is held; "
        "a case is one operation, distinct by geometry, last operations and number held.")
REQUIRED_EVENTS = ("over_capacity_inserts", "discarding_inserts", "deletes", "drained_and_reused")
ASSUMPTIONS = ("inserted keys are finite, infinity marks padding", "which large entries are discarded is otherwise unspecified")


def scenarios(tier, seed):
    n = 70 if tier == "quick" else 200
    return [
        S("b4-t16", "overflow", cls="Pair", batch=4, total=16, ops=n),
        S("b4-t60", "overflow", cls="U1", batch=4, total=60, ops=n, mode="few"),
        S("b4-t28-desc", "overflow", cls="U1", batch=4, total=28, ops=n, mode="desc"),
        S("b4-t28-asc", "overflow", cls="U1", batch=4, total=28, ops=n, mode="asc"),
        S("b1-t7", "overflow", cls="U1", batch=1, total=7, ops=n),
        S("b1-t1", "overflow", cls="U1", batch=1, total=1, ops=n),
        S("b8-t8", "overflow", cls="Pair", batch=8, total=8, ops=n),
        S("b8-t12-f16", "overflow", cls="Mat", batch=8, total=12, dtype="f16", ops=n),
        S("b3-t30-edge", "overflow", cls="Nest", batch=3, total=30, ops=n, mode="edge"),
        S("b16-t100", "overflow", cls="U1", batch=16, total=100, ops=n),
        S("b5-t35-const", "overflow", cls="Pair", batch=5, total=35, ops=n, mode="const"),
        S("b6-t50-bf16", "overflow", cls="Vec", batch=6, total=50, dtype="bf16", ops=n, mode="few"),
        S("b2-t40-churn", "overflow", cls="Pair", batch=2, total=40, ops=n, bias=0.65),
        S("b10-t30-churn", "overflow", cls="Pair", batch=10, total=30, ops=n, bias=0.6),
        S("b32-t300", "overflow", cls="U1", batch=32, total=300, ops=n, audit=3),
        S("b4-t20-unstable", "overflow", cls="Pair", batch=4, total=20, ops=n, mode="few", env={"XTRUCTURE_BGPQ_SORT_STABLE": "0"}),
    ]
