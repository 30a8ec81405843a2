from xv.ctx import Scenario as S

RULE = ("The same collection inserted through many layouts (seed, bucket size, load, split into single and batch insertions, environment modes) must give the same set; "
        "tables are filled to the last slot; a case is one table, distinct by geometry, seed, order.")
REQUIRED_EVENTS = ("layouts", "tables_filled", "refused", "audits")
ASSUMPTIONS = ("no custom probe limit", "approximate de-duplication is only run with the real hash function")


def scenarios(tier, seed):
    D = "XTRUCTURE_HASHTABLE_DEDUPE_MODE"
    B = "XTRUCTURE_HASHTABLE_SORT_BACKEND"
    cf = [(64, 8, 2), (64, 1, 2), (50, 4, 1), (60, 64, 1)]
    q = [
        S("layouts-u1", "layouts", cls="U1", configs=cf, nrec=50, B=16),
        S("layouts-nest", "layouts", cls="Nest", configs=cf[:3], nrec=40, B=16),
        S("layouts-mixed-exact", "layouts", cls="Mixed", configs=cf[:2], nrec=40, B=16, env={D: "exact"}),
        S("layouts-mat-approx", "layouts", cls="Mat", configs=cf[:2], nrec=40, B=16, env={D: "approx"}),
        S("layouts-wide-fast-unstable", "layouts", cls="WideF", configs=cf[1:3], nrec=40, B=16, env={D: "fast", B: "lax_unstable"}),
        S("layouts-weak", "layouts", cls="U1", configs=[(64, 8, 1), (64, 2, 1)], nrec=40, B=16, weak=(2, 1)),
        S("layouts-big", "layouts", cls="Pair", configs=[(3000, 8, 2), (2100, 16, 1)], nrec=2000, B=256, weight=2),
        S("fill-b1-batch", "fill", cls="U1", capacity=16, bucket=1, mult=1, B=16, how="batch"),
        S("fill-b1-64", "fill", cls="U1", capacity=64, bucket=1, mult=1, B=64, how="batch"),
        S("fill-b2-batch", "fill", cls="Pair", capacity=32, bucket=2, mult=1, B=32, how="batch"),
        S("fill-b4-mix", "fill", cls="Vec", capacity=64, bucket=4, mult=1, B=16, how="mix"),
        S("fill-b8-single", "fill", cls="U1", capacity=32, bucket=8, mult=1, B=8, how="single"),
        S("fill-b3-batch", "fill", cls="U1", capacity=24, bucket=3, mult=1, B=24, how="batch"),
        S("fill-b33", "fill", cls="U1", capacity=66, bucket=33, mult=1, B=66, how="batch"),
        S("fill-b8-128-exact", "fill", cls="Mat", capacity=128, bucket=8, mult=1, B=128, how="batch", env={D: "exact"}),
        S("fill-weak-0-0", "fill", cls="U1", capacity=32, bucket=4, mult=1, B=16, how="mix", weak=(0, 0)),
        S("fill-weak-2-2", "fill", cls="Nest", capacity=32, bucket=2, mult=1, B=32, how="batch", weak=(2, 2)),
        S("fill-b1-weak-0-3", "fill", cls="U1", capacity=32, bucket=1, mult=1, B=32, how="batch", weak=(0, 3)),
        S("fill-b200", "fill", cls="U1", capacity=200, bucket=200, mult=1, B=50, how="mix"),
        S("fill-one", "fill", cls="U1", capacity=1, bucket=1, mult=1, B=4, how="single"),
    ]
    for a in ("gpu", "tpu"):
        q += [S(f"fill-{a}-b2", "fill", cls="Pair", capacity=32, bucket=2, mult=1, B=32, how="batch", env={"XV_ACCEL": a}),
              S(f"layouts-{a}", "layouts", cls="U1", configs=[(64, 8, 1), (50, 4, 1)], nrec=40, B=16, env={"XV_ACCEL": a})]
    if tier == "thorough":
        q += [
            S("fill-b1-512", "fill", cls="U1", capacity=512, bucket=1, mult=1, B=512, how="batch"),
            S("fill-b8-1024-mix", "fill", cls="U1", capacity=1024, bucket=8, mult=1, B=200, how="batch"),
            S("fill-b32-256", "fill", cls="Board", capacity=256, bucket=32, mult=1, B=100, how="mix"),
            S("layouts-deep", "layouts", cls="Deep", configs=cf, nrec=60, B=16),
        ]
    return q
