from xv.ctx import Scenario as S

RULE = ("Random histories of enqueue (single or batch), dequeue, peek, index and clear on queues of many record types and capacities, compared step "
        "by step with a sequential list; a case is one step, distinct by capacity, recent operations, size and used storage.")
REQUIRED_EVENTS = ("enqueue_single", "enqueue_batch", "dequeue_single", "dequeue_multi", "peek", "audits", "fill_to_capacity", "emptied",
                   "clear_nonempty", "clear_empty", "large")
ASSUMPTIONS = ("enqueued records since the last clear stay within capacity, dequeues within size", "batches are one-dimensional and non-empty")


def scenarios(tier, seed):
    n = 70 if tier == "quick" else 200
    return [
        S("u1-cap40", "history", cls="U1", cap=40, ops=n, batches=[0, 1, 3, 5]),
        S("mixed-cap50", "history", cls="Mixed", cap=50, ops=n, batches=[0, 2, 7]),
        S("deep-cap30", "history", cls="Deep", cap=30, ops=n, batches=[0, 4]),
        S("nestarr-cap16", "history", cls="NestArr", cap=16, ops=n, batches=[0, 3, 16]),
        S("samedim-cap3", "history", cls="SameDim", cap=3, ops=n, batches=[0, 1, 3]),
        S("bits-cap66", "history", cls="Bits", cap=66, ops=n, batches=[0, 11, 2]),
        S("f8-cap20", "history", cls="F8", cap=20, ops=n, batches=[0, 5], mode="edge"),
        S("cap1", "history", cls="Pair", cap=1, ops=n // 2, batches=[0, 1]),
        S("cap2-jit", "history", cls="Vec", cap=2, ops=n, batches=[0, 1, 2], jit=True),
        S("mat-cap80-jit", "history", cls="Mat", cap=80, ops=n, batches=[0, 9, 10], jit=True),
        S("cap300", "history", cls="U1", cap=300, ops=n, batches=[0, 17, 64]),
        S("small-dups", "history", cls="Small", cap=37, ops=n, batches=[0, 2, 6], mode="small"),
        S("big-70000", "big", cap=70001, once=True),
    ]
