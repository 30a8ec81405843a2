from xv.ctx import Scenario as S

RULE = ("Branching histories: operations on randomly chosen earlier versions, with byte snapshots of every retained version, argument and result compared again later, "
        "the same operation repeated on the same version, and branches rebuilt from scratch; a case is one operation, distinct by kind, type and recent history.")
REQUIRED_EVENTS = ("operations", "branches", "versions_rechecked", "results_rechecked", "replays", "rebuilds", "op_misc", "op_catalogue", "values_rechecked")
ASSUMPTIONS = ("instances are not assigned to by the user",)


def scenarios(tier, seed):
    n = 45 if tier == "quick" else 200
    q = [
        S("stack-mat", "branching", kind="stack", cls="Mat", steps=n),
        S("stack-nestarr", "branching", kind="stack", cls="NestArr", steps=n, cap=30, b=5, k=4),
        S("queue-mixed", "branching", kind="queue", cls="Mixed", steps=n),
        S("queue-u1", "branching", kind="queue", cls="U1", steps=n, cap=40, b=7, k=1),
        S("heap-pair", "branching", kind="heap", cls="Pair", steps=n),
        S("heap-nest-f16", "branching", kind="heap", cls="Nest", steps=n, total=60, batch=7, dtype="f16"),
        S("table-u1", "branching", kind="table", cls="U1", steps=n),
        S("table-nest", "branching", kind="table", cls="Nest", steps=n, bucket=1, cap=32),
        S("table-full", "branching", kind="table", cls="Small", steps=n, cap=8, bucket=2, mult=1),
        S("arrays-mat", "arrays", cls="Mat", count=n, host=False),
        S("arrays-nestarr", "arrays", cls="NestArr", count=n, host=False),
        S("arrays-mixed", "arrays", cls="Mixed", count=n, host=False),
        S("numpy-pair", "arrays", cls="Pair", count=n, host=True),
        S("numpy-nest", "arrays", cls="Nest", count=n, host=True),
        S("numpy-filled", "arrays", cls="Filled", count=n, host=True),
    ]
    return q
