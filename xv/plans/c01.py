from xv.ctx import Scenario as S

RULE = ("Random histories of push (single or batch), pop, peek and index on stacks of many record types and capacities, compared step by step "
        "with a sequential list; a case is one step, distinct by capacity, recent operations and size.")
REQUIRED_EVENTS = ("push_single", "push_batch", "pop_single", "pop_multi", "peek", "audits", "fill_to_capacity", "emptied", "large")
ASSUMPTIONS = ("pushes stay within capacity and pops within size", "batches are one-dimensional and non-empty")


def scenarios(tier, seed):
    n = 60 if tier == "quick" else 150
    out = [
        S("u1-cap12", "history", cls="U1", cap=12, ops=n, batches=[0, 1, 3, 5]),
        S("mixed-cap20", "history", cls="Mixed", cap=20, ops=n, batches=[0, 2, 7]),
        S("deep-cap9", "history", cls="Deep", cap=9, ops=n, batches=[0, 4]),
        S("nestarr-cap16", "history", cls="NestArr", cap=16, ops=n, batches=[0, 3, 16]),
        S("sametype-cap3", "history", cls="SameDim", cap=3, ops=n, batches=[0, 1, 3]),
        S("bits-cap33", "history", cls="Bits", cap=33, ops=n, batches=[0, 11, 2]),
        S("f8-cap8", "history", cls="F8", cap=8, ops=n, batches=[0, 5], mode="edge"),
        S("cap1", "history", cls="Pair", cap=1, ops=n // 2, batches=[0, 1]),
        S("cap2-jit", "history", cls="Vec", cap=2, ops=n, batches=[0, 1, 2], jit=True),
        S("mat-cap40-jit", "history", cls="Mat", cap=40, ops=n, batches=[0, 9, 10], jit=True),
        S("cap300", "history", cls="U1", cap=300, ops=n, batches=[0, 17, 64]),
        S("small-dups", "history", cls="Small", cap=17, ops=n, batches=[0, 2, 6], mode="small"),
        S("big-70000", "big", cap=70001, once=True),
    ]
    return out
