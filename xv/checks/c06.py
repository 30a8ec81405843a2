"""C06: set semantics of the hash table."""
import numpy as np

from xv.tableh import Shadow, get_type, pick_mask, pick_rows


def history(ctx, cls, capacity, bucket=8, mult=2, max_probes=None, weak=None, seed=0, ops=60, B=8, npool=None, near=0.5, mode="uniform"):
    C = get_type(cls, weak)
    rng = ctx.rng
    seed = int(rng.integers(0, 2**31)) if seed == "rand" else seed
    S = Shadow(ctx, C, seed, capacity, bucket, mult, max_probes, B, npool or min(3 * capacity, 120), near, mode)
    S.size_ok("fresh table")
    for step in range(ops):
        r = rng.random()
        i = int(rng.integers(0, S.n))
        if r < 0.35:
            S.insert(i)
        elif r < 0.5:
            S.lookup(i)
        elif r < 0.75:
            form = str(rng.choice(["array", "array", "default", "scalar", "none"]))
            S.lookup_batch(pick_rows(rng, S.n, B, 0.2).tolist(), pick_mask(rng, B) if form == "array" else None, form)
        elif r < 0.9:
            form = str(rng.choice(["array", "none-given"]))
            S.parallel(pick_rows(rng, S.n, B, 0.3), pick_mask(rng, B) if form == "array" else None, form, contract=False)
        else:
            S.audit()
        ctx.case(tuple(S.trace[-3:]), len(S.model), tuple(S.info.values()))
    # everything, several times
    for i in rng.permutation(S.n)[:40]:
        S.insert(int(i))
    S.audit()
    for i in rng.permutation(S.n)[:10]:
        S.lookup(int(i))
    ctx.sample(dict(type=cls, table=S.info, held=len(S.model), last=S.trace[-15:]))
