"""C24: accelerator slot reservation: kernels under interleaved schedules with an ownership monitor, tables driven through them."""
import os

import jax
import jax.numpy as jnp
import numpy as np

from xv import accel
from xv.checks.c06 import history as _set_history
from xv.checks.c23 import sim_events, sim_run
from xv.tableh import Shadow, get_type, pick_mask, pick_rows

from xtructure.hashtable.insert_pallas import reserve_slots_pallas
from xtructure.hashtable.insert_triton import reserve_slots_triton

ENV = {"triton": "XTRUCTURE_HASHTABLE_TRITON_INSERT_MAX_PROBE_BUCKETS", "pallas": "XTRUCTURE_HASHTABLE_PALLAS_INSERT_MAX_PROBE_BUCKETS"}


def popcount(a):
    return np.array([bin(int(x)).count("1") for x in np.asarray(a)], dtype=np.int64)


def gen_state(rng, cap, bs, holes):
    """occupancy of `cap` buckets (and the spare one) from empty to full."""
    full = (1 << bs) - 1
    style = rng.integers(0, 5)
    p = [0.0, 1.0, 0.5, 0.9, 0.2][style]
    fills = np.where(rng.random(cap + 1) < p, bs, rng.integers(0, bs + 1, size=cap + 1))
    if style == 0:
        fills[:] = 0
    fills[cap] = 0
    occ = np.array([(1 << int(f)) - 1 for f in fills], np.uint32)
    if holes:
        r = rng.integers(0, 1 << 32, size=cap + 1, dtype=np.uint64).astype(np.uint32) & np.uint32(full)
        r |= np.uint32(0) if style != 3 else rng.integers(0, 1 << 32, size=cap + 1, dtype=np.uint64).astype(np.uint32) & np.uint32(full)
        r[cap] = 0
        occ = r
    return occ


def gen_rows(rng, cap, B):
    style = rng.integers(0, 4)
    start = rng.integers(0, cap, size=B)
    if style == 0:
        start[:] = start[0]
    elif style == 1:
        start = start[rng.integers(0, 2, size=B) % B]
    step = rng.integers(0, cap, size=B) * 2 + 1
    if rng.random() < 0.3:
        step[:] = step[0]
    active = [np.ones(B, bool), np.zeros(B, bool), rng.random(B) < 0.5, rng.random(B) < 0.85][int(rng.integers(0, 4)) if rng.random() < 0.9 else 0]
    return start.astype(np.uint32), step.astype(np.uint32), active


def check_reserve(ctx, occ0, start, step, active, bs, cap, limit, occ1, bucket, slot, ins, det, fill1=None):
    occ1, bucket, slot, ins = (np.asarray(x) for x in (occ1, bucket, slot, ins))
    B, full = len(start), (1 << bs) - 1
    det = dict(det, bucket_size=bs, buckets=cap, limit=limit, start=start, step=step, active=active, occupancy=occ0, got_bucket=bucket, got_slot=slot, got_inserted=ins, got_occupancy=occ1)
    ctx.require(bucket.shape == slot.shape == ins.shape == (B,) and occ1.shape == occ0.shape, "reserve-shape", "outputs have other shapes", **det)
    ctx.require(not (ins & ~active).any(), "inactive", "an inactive row got a slot", **det)
    claimed = {}
    expect = occ0.astype(np.int64).copy()
    for j in range(B):
        seq = [(int(start[j]) + t * int(step[j])) % cap for t in range(limit)]
        if ins[j]:
            b, s = int(bucket[j]), int(slot[j])
            ctx.require(b in seq and s < bs, "reserve-range", f"row {j} got slot ({b},{s}) outside its probe sequence", **det)
            ctx.require(not (int(occ0[b]) >> s) & 1, "reserve-taken", f"row {j} got slot ({b},{s}), which was occupied before", **det)
            ctx.require((b, s) not in claimed, "reserve-shared", f"rows {claimed.get((b, s))} and {j} share slot ({b},{s})", **det)
            claimed[(b, s)] = j
            expect[b] |= 1 << s
            ctx.ev("slots_reserved")
            for e in seq[:seq.index(b)]:
                ctx.require(int(occ1[e]) == full, "reserve-skip", f"row {j} went past bucket {e}, which still has a free slot: lookups stop there", **det)
                ctx.ev("full_buckets_passed")
        elif active[j]:
            open_ = [e for e in seq if int(occ1[e]) != full]
            ctx.require(not open_, "reserve-refused", f"row {j} was refused although bucket {open_[:1]} of its sequence has a free slot", **det)
            ctx.ev("rows_refused")
        else:
            ctx.ev("rows_inactive")
    ctx.require(np.array_equal(expect, occ1.astype(np.int64)), "occupancy", "the occupancy reported is not the old one plus the slots handed out", expected=expect, **det)
    if fill1 is not None:
        f = np.asarray(fill1).astype(np.int64)
        ctx.require(np.array_equal(f, popcount(occ1)), "fill", "fill levels and occupancy disagree", fill=f, **det)
    ctx.ev("reservations")
    if len(set(b for b, _ in claimed)) < len(claimed):
        ctx.ev("contended_reservations")


def run_kernel(kernel, occ, start, step, active, bs, cap, fill_dtype):
    a = (jnp.asarray(start), jnp.asarray(step), jnp.asarray(active))
    if kernel == "triton":
        o, b, s, i = reserve_slots_triton(jnp.asarray(occ), *a, bucket_size=bs, capacity=cap)
        return o, b, s, i, None
    fill = jnp.asarray(popcount(occ).astype(fill_dtype))
    f, o, b, s, i = reserve_slots_pallas(fill, jnp.asarray(occ), *a, bucket_size=bs, capacity=cap, backend="mosaic_tpu")
    return o, b, s, i, f


def reserve(ctx, kernel, sim=False, shapes=4, count=40, maxB=24, repeat=1):
    """random occupancy states; with `sim` each state runs under several interleavings of the rows."""
    rng = ctx.rng
    S = accel.Simulator(rng) if sim else None
    from xtructure import HashTable
    from xv.rtypes import BY
    fdt = np.asarray(HashTable.build(BY["U1"], 0, 8).bucket_fill_levels).dtype
    for _ in range(shapes):
        cap = int(2 ** rng.integers(0, 4 if sim else 6))
        bs = int(rng.choice([1, 2, 3, 4, 8, 31, 32]))
        B = int(rng.integers(1, (9 if sim else maxB) + 1))
        lim = None if rng.random() < 0.6 else int(rng.integers(1, 2 * cap + 1))
        os.environ.pop(ENV[kernel], None)
        if lim is not None:
            os.environ[ENV[kernel]] = str(lim)
        limit = cap if lim is None else min(lim, cap)
        accel.State.perm = int(rng.integers(0, 2))
        jax.clear_caches()
        for _ in range(count):
            occ = gen_state(rng, cap, bs, holes=kernel == "triton" and rng.random() < 0.3)
            start, step, active = gen_rows(rng, cap, B)
            for _ in range(repeat):
                if sim:
                    S.switch = float(rng.choice([0.05, 0.3, 0.7, 1.0]))
                    S.window = None if rng.random() < 0.5 else int(rng.integers(2, 6))
                    out = sim_run(ctx, S, lambda: run_kernel(kernel, occ, start, step, active, bs, cap, fdt))
                else:
                    out = run_kernel(kernel, occ, start, step, active, bs, cap, fdt)
                o, b, s, i, f = out
                check_reserve(ctx, occ, start, step, active, bs, cap, limit, o, b, s, i, dict(kernel=kernel, simulated=sim, descending_programs=accel.State.perm), f)
            ctx.case(kernel, sim, cap, bs, limit, occ, start, step, active)
    os.environ.pop(ENV[kernel], None)
    if sim:
        sim_events(ctx, S)
        ctx.ev("sim_atomics", S.atomics)
        ctx.ev("sim_lost_claims", S.lost_claims)
    ctx.sample(dict(kernel=kernel, buckets=cap, bucket_size=bs, occupancy=occ, start=start, step=step, active=active))


def table(ctx, **kw):
    """C06 histories on a table that uses the accelerator path."""
    accel.State.perm = int(ctx.rng.integers(0, 2))
    n0 = accel.State.calls
    _set_history(ctx, **kw)
    ctx.ev("e2e_kernels_traced", accel.State.calls - n0)
    ctx.ev("e2e_histories")


def batches(ctx, cls, capacity, bucket=8, mult=2, max_probes=None, weak=None, B=16, ops=25, npool=None, near=0.5):
    """mostly batch insertions with the full flag contract, until the table is full."""
    C, rng = get_type(cls, weak), ctx.rng
    accel.State.perm = int(rng.integers(0, 2))
    n0 = accel.State.calls
    S = Shadow(ctx, C, int(rng.integers(0, 2**31)), capacity, bucket, mult, max_probes, B, npool or 150, near, "uniform")
    for step in range(ops):
        r = rng.random()
        if r < 0.15:
            S.insert(int(rng.integers(0, S.n)))
        elif r < 0.25:
            S.audit()
        else:
            form = str(rng.choice(["array", "none-given"]))
            cost = None if rng.random() < 0.6 else rng.integers(0, 4, size=B).astype(np.float32)
            S.parallel(pick_rows(rng, S.n, B, float(rng.choice([0, 0.3, 0.8]))), pick_mask(rng, B) if form == "array" else None, form, cost=cost)
        ctx.case(tuple(S.trace[-3:]), len(S.model), tuple(S.info.values()))
    S.audit()
    ctx.ev("e2e_kernels_traced", accel.State.calls - n0)
    ctx.ev("e2e_histories")
    ctx.sample(dict(type=cls, table=S.info, held=len(S.model)))
