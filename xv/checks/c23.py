"""C23: accelerator merge kernels, run interpreted and on a watched concurrent memory, and queues driven through them."""
import os
from collections import Counter

import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np

from xv import accel, rt
from xv.bgpqh import gen_keys, history as _history, overflow as _overflow
from xv.rtypes import BY

from xtructure.bgpq._merge import merge_sort_split
from xtructure.bgpq.merge_split import merge_arrays_parallel, merge_sort_split_idx
from xtructure.bgpq.merge_split.parallel import merge_arrays_parallel_kv

DT = {"f16": np.dtype(np.float16), "f32": np.dtype(np.float32), "bf16": np.dtype(ml_dtypes.bfloat16), "i32": np.dtype(np.int32), "u32": np.dtype(np.uint32)}


def setenv(**kw):
    for k, v in kw.items():
        k = "XTRUCTURE_BGPQ_" + k
        os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, str(v))


def sorted_keys(rng, n, dt, mode, infs):
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        if mode == "few":
            a = rng.integers(0, 3, size=n).astype(dt)
        elif mode == "edge":
            a = np.array([ii.min, ii.max, 0, 1, ii.max - 1], dt)[rng.integers(0, 5, size=n)]
        elif mode == "const":
            a = np.full(n, 7, dt)
        else:
            a = rng.integers(ii.min, ii.max, size=n, endpoint=True).astype(dt)
        return np.sort(a)
    a = gen_keys(rng, n, dt, mode, 3)
    if infs and n:
        k = int(rng.integers(0, n + 1))
        a[rng.permutation(n)[:k]] = np.array(np.inf).astype(dt)
        if rng.random() < 0.2:
            a[rng.permutation(n)[:int(rng.integers(0, n + 1))]] = np.array(-np.inf).astype(dt)
    return a[np.argsort(a.astype(np.float64), kind="stable")]


def exact(a):
    return np.asarray(a).astype(np.float64)


def check_merge(ctx, ak, bk, keys, idx, det):
    n, m = len(ak), len(bk)
    keys, idx = np.asarray(keys), np.asarray(idx)
    cat = np.concatenate([exact(ak), exact(bk)])
    ctx.require(keys.shape == (n + m,) and idx.shape == (n + m,), "merge-shape", "merged arrays have another length", got=(keys.shape, idx.shape), **det)
    ctx.require(np.array_equal(exact(keys), np.sort(cat, kind="stable")), "merge-sorted", "merged keys are not the sorted union", got=keys, expected=np.sort(cat), a=ak, b=bk, **det)
    ctx.require(np.array_equal(np.sort(idx), np.arange(n + m)), "merge-perm", "source positions are not a permutation", got=idx, a=ak, b=bk, **det)
    ctx.require(np.array_equal(cat[idx], exact(keys)), "merge-source", "source positions do not reproduce the keys", got=idx, keys=keys, a=ak, b=bk, **det)
    ctx.ev("merges")
    ctx.ev("merged_elements", n + m)
    if len(np.unique(cat)) < n + m:
        ctx.ev("merges_with_ties")
    if np.isinf(cat).any():
        ctx.ev("merges_with_infinities")
    if n != m:
        ctx.ev("merges_unequal")


def sim_run(ctx, sim, fn):
    """fn() on the simulator; memory errors of the kernel are violations."""
    with sim, jax.disable_jit():
        try:
            return fn()
        except accel.OutOfBounds as e:
            ctx.fail("out-of-bounds", str(e), parameters=ctx.params)


def sim_events(ctx, sim):
    for k in ("launches", "switches", "loads", "stores"):
        ctx.ev("sim_" + k, getattr(sim, k))
    ctx.ev("sim_schedules", len(sim.schedules))
    ctx.ev("sim_interpreted_instead", sim.fallbacks)


LENS = [(0, 0), (0, 5), (5, 0), (1, 1), (1, 8), (8, 1), (3, 3), (7, 9), (16, 16), (5, 27), (31, 2), (33, 32), (64, 64), (17, 100)]


def merge_interp(ctx, dtype, blocks, shapes=4, count=25, backend="parallel", dtype_b=None):
    rng, dt = ctx.rng, DT[dtype]
    db = DT[dtype_b or dtype]
    fn = merge_arrays_parallel if backend == "parallel" else merge_sort_split_idx
    lens = [LENS[i] for i in rng.permutation(len(LENS))[:shapes]]
    for n, m in lens:
        block = blocks[int(rng.integers(0, len(blocks)))]
        unroll = [None, 0, 4, 32][int(rng.integers(0, 4))]
        accel.State.perm = int(rng.integers(0, 2))
        setenv(MERGE_BLOCK_SIZE=block, MERGE_UNROLL_MAX=unroll)
        jax.clear_caches()  # settings are read when tracing
        for _ in range(count):
            mode = str(rng.choice(["uniform", "few", "const", "edge"]))
            ak, bk = sorted_keys(rng, n, dt, mode, True), sorted_keys(rng, m, db, mode, True)
            k, i = fn(jnp.asarray(ak), jnp.asarray(bk))
            det = dict(block=block, unroll=unroll, backend=backend, descending_programs=accel.State.perm)
            ctx.require(np.asarray(k).dtype == jnp.result_type(dt, db), "merge-dtype", "merged keys have another type", got=np.asarray(k).dtype, **det)
            check_merge(ctx, ak, bk, k, i, det)
            ctx.case(n, m, block, unroll, ak, bk)
    setenv(MERGE_BLOCK_SIZE=None, MERGE_UNROLL_MAX=None)
    ctx.sample(dict(dtype=dtype, lengths=lens, last_a=ak, last_b=bk))


def merge_sim(ctx, dtype, count=12):
    rng, dt = ctx.rng, DT[dtype]
    sim = accel.Simulator(rng)
    for _ in range(count):
        n, m = (int(x) for x in rng.integers(0, 13, size=2))
        block = int(rng.choice([1, 2, 3, 4, 8, 16]))
        unroll = [None, 0][int(rng.integers(0, 2))]
        setenv(MERGE_BLOCK_SIZE=block, MERGE_UNROLL_MAX=unroll)
        mode = str(rng.choice(["uniform", "few", "const", "edge"]))
        ak, bk = sorted_keys(rng, n, dt, mode, True), sorted_keys(rng, m, dt, mode, True)
        sim.switch = float(rng.choice([0.1, 0.5, 1.0]))
        k, i = sim_run(ctx, sim, lambda: merge_arrays_parallel(jnp.asarray(ak), jnp.asarray(bk)))
        check_merge(ctx, ak, bk, k, i, dict(block=block, unroll=unroll, simulated=True))
        ctx.case("sim", n, m, block, unroll, ak, bk)
    setenv(MERGE_BLOCK_SIZE=None, MERGE_UNROLL_MAX=None)
    sim_events(ctx, sim)
    ctx.sample(dict(dtype=dtype, a=ak, b=bk, keys=np.asarray(k), positions=np.asarray(i)))


def tagged(C, rng, n, base):
    arr = rt.records(C, rng, n, "uniform")
    for lf in rt.leaves(C):
        if lf.dtype in (np.dtype(np.uint32), np.dtype(np.int32)) and lf.field.bits is None:
            a = arr[lf.path]
            arr[lf.path] = np.broadcast_to(np.arange(base, base + n).astype(a.dtype).reshape((n,) + (1,) * (a.ndim - 1)), a.shape).copy()
            break
    return arr


def check_kv(ctx, C, ak, bk, va, vb, keys, vals, det):
    n, m = len(ak), len(bk)
    cat = np.concatenate([exact(ak), exact(bk)])
    keys = np.asarray(keys)
    ctx.require(keys.shape == (n + m,), "kv-shape", "merged keys have another length", got=keys.shape, **det)
    ctx.require(np.array_equal(exact(keys), np.sort(cat, kind="stable")), "kv-sorted", "merged keys are not the sorted union", got=keys, a=ak, b=bk, **det)
    got = Counter(zip(exact(keys).tolist(), rt.inst_keys(C, vals))) if n + m else Counter()
    want = Counter(zip(cat.tolist(), (rt.keys(C, va) if n else []) + (rt.keys(C, vb) if m else [])))
    ctx.require(got == want, "kv-pairs", "the merge separated keys from their values", missing=list(want - got)[:3], extra=list(got - want)[:3], a=ak, b=bk, **det)
    ctx.ev("kv_merges")
    ctx.ev("kv_pairs", n + m)


PACK = ["auto", "pad", "scalar", "shard"]


def merge_kv(ctx, cls, dtype="f32", shapes=3, count=6, sim=False, pack0=0):
    rng, dt, C = ctx.rng, DT[dtype], BY[cls]
    S = accel.Simulator(rng) if sim else None
    for turn in range(shapes):
        n, m = (int(x) for x in rng.integers(0, 8 if sim else 24, size=2))
        block = int(rng.choice([1, 2, 4, 8] if sim else [1, 4, 16, 64]))
        pack, smax, unroll = PACK[(pack0 + ctx.round + turn) % 4], [None, 1, 3, 64][int(rng.integers(0, 4))], [None, 0][int(rng.integers(0, 2))]
        setenv(MERGE_BLOCK_SIZE=block, MERGE_VALUE_PACKING=pack, MERGE_VALUE_SCALAR_MAX=smax, MERGE_UNROLL_MAX=unroll)
        accel.State.perm = int(rng.integers(0, 2))
        jax.clear_caches()
        call = jax.jit(merge_arrays_parallel_kv) if not sim else merge_arrays_parallel_kv
        for _ in range(count):
            mode = str(rng.choice(["uniform", "few", "const", "edge"]))
            ak, bk = sorted_keys(rng, n, dt, mode, True), sorted_keys(rng, m, dt, mode, True)
            va, vb = tagged(C, rng, n, 0), tagged(C, rng, m, 1000)
            args = (jnp.asarray(ak), rt.build(C, va), jnp.asarray(bk), rt.build(C, vb))
            k, v = sim_run(ctx, S, lambda: call(*args)) if sim else call(*args)
            det = dict(type_=cls, block=block, packing=pack, scalar_max=smax, unroll=unroll, simulated=sim)
            check_kv(ctx, C, ak, bk, va, vb, k, v, det)
            ctx.ev("packing_" + pack)
            ctx.case(cls, n, m, block, pack, smax, unroll, ak, bk)
    setenv(MERGE_BLOCK_SIZE=None, MERGE_VALUE_PACKING=None, MERGE_VALUE_SCALAR_MAX=None, MERGE_UNROLL_MAX=None)
    if sim:
        sim_events(ctx, S)
    ctx.sample(dict(type=cls, a=ak, b=bk, merged=np.asarray(k), packing=pack))


def split(ctx, cls, dtype="f32", shapes=3, count=10):
    """merge_sort_split of one block against another, under whatever backends the environment selects."""
    rng, dt, C = ctx.rng, DT[dtype], BY[cls]
    for _ in range(shapes):
        n, m = (int(x) for x in rng.integers(1, 20, size=2))
        for _ in range(count):
            mode = str(rng.choice(["uniform", "few", "const", "edge"]))
            ak, bk = sorted_keys(rng, n, dt, mode, True), sorted_keys(rng, m, dt, mode, True)
            va, vb = tagged(C, rng, n, 0), tagged(C, rng, m, 1000)
            k1, v1, k2, v2 = merge_sort_split(jnp.asarray(ak), rt.build(C, va), jnp.asarray(bk), rt.build(C, vb))
            ctx.require(k1.shape == (n,) and k2.shape == (m,), "split-shape", "the split has other lengths", got=(k1.shape, k2.shape))
            keys = np.concatenate([np.asarray(k1), np.asarray(k2)])
            vals = jax.tree_util.tree_map(lambda x, y: jnp.concatenate([x, y]), v1, v2)
            check_kv(ctx, C, ak, bk, va, vb, keys, vals, dict(type_=cls, split=True))
            ctx.ev("splits")
            ctx.case("split", cls, n, m, ak, bk)
    ctx.sample(dict(type=cls, a=ak, b=bk))


def e2e(ctx, kind="history", **kw):
    accel.State.perm = int(ctx.rng.integers(0, 2))
    n0 = accel.State.calls
    (_overflow if kind == "overflow" else _history)(ctx, **kw)
    ctx.ev("e2e_kernels_traced", accel.State.calls - n0)
    ctx.ev("e2e_histories")
