"""C07: the contract of parallel_insert."""
import ml_dtypes
import numpy as np

from xv.tableh import Shadow, get_type, pick_mask, pick_rows


def gen_cost(rng, B, kind):
    if kind == "f32":
        return rng.choice([0.0, 1.0, 0.5, -3.0, np.inf, 1e30, 2.0 ** 25 + 4], size=B).astype(np.float32)
    if kind == "f32u":
        return rng.standard_normal(B).astype(np.float32)
    if kind == "f16":
        return rng.choice([0.0, 1.5, -2.0, np.inf, 65504.0], size=B).astype(np.float16)
    if kind == "bf16":
        return rng.choice([0.0, 1.5, -2.0, np.inf], size=B).astype(ml_dtypes.bfloat16)
    if kind == "i32":
        return rng.choice([0, 1, -1, 2**31 - 1, -2**31, 2**25, 2**25 + 1], size=B).astype(np.int32)
    if kind == "u32":
        return rng.choice([0, 1, 2**32 - 1, 2**32 - 2, 2**24, 2**24 + 1], size=B).astype(np.uint32)
    if kind == "u8":
        return rng.choice([0, 1, 255, 254], size=B).astype(np.uint8)
    raise KeyError(kind)


KINDS = ["f32", "f32u", "f16", "bf16", "i32", "u32", "u8"]


def contract(ctx, cls, capacity, B, bucket=8, mult=2, max_probes=None, weak=None, ops=30, npool=None, kinds=("f32", "i32"), seed=0, near=0.5, mode="uniform"):
    C = get_type(cls, weak)
    rng = ctx.rng
    S = Shadow(ctx, C, seed, capacity, bucket, mult, max_probes, B, npool or 2 * capacity, near, mode)
    # a few argument forms per run (each one is a compilation); rounds draw others
    forms = [("array", None), ("array", str(rng.choice(list(kinds))))]
    for _ in range(2):
        forms.append((str(rng.choice(["array", "true", "omit", "omit", "false"])),
                      None if rng.random() < 0.4 else str(rng.choice(list(kinds)))))
    scalar = rng.random() < 0.2
    for step in range(ops):
        dup = float(rng.choice([0.0, 0.3, 0.6, 0.9]))
        rows = pick_rows(rng, S.n, B, dup)
        form, kind = forms[int(rng.integers(0, len(forms)))]
        cost = None
        if kind is not None:
            cost = gen_cost(rng, B, kind)
            if scalar and form != "array":
                cost = cost[:1][0]
        S.parallel(rows, pick_mask(rng, B) if form == "array" else None, form, cost)
        if step % 6 == 5:
            S.audit()
        ctx.case(rows, form, dup, len(S.model), "" if cost is None else np.asarray(cost))
    S.audit()
    ctx.sample(dict(type=cls, table=S.info, batch=B, held=len(S.model), last=S.trace[-10:]))
