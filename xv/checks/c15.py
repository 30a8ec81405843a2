"""C15: unique_mask against grouping by exact record bytes (or exact user keys) in Python."""
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import numpy as xnp

from xv import rt
from xv.rtypes import BY

bf16 = np.dtype(ml_dtypes.bfloat16)
COSTS = [np.float32, np.float16, bf16, np.int32, np.uint32, np.int8, np.uint8, np.int16]


def gen_costs(rng, n, x64=False):
    opts = COSTS + ([np.float64, np.int64, np.uint64] if x64 else [])
    dt = np.dtype(opts[int(rng.integers(0, len(opts)))])
    if rt.is_float(dt):
        m = int(rng.integers(0, 4))
        if m == 0:
            c = rng.integers(0, 3, size=n).astype(np.float32)
        elif m == 1:
            c = rng.standard_normal(n).astype(np.float32)
        elif m == 2:
            c = np.array([np.inf, -np.inf, 0.0, 1.0, -1.0, 5.5], np.float32)[rng.integers(0, 6, size=n)]
        else:
            c = np.where(rng.random(n) < 0.5, np.inf, rng.integers(-4, 4, size=n)).astype(np.float32)
        c = c.astype(dt)
        return np.where(c == 0, np.zeros((), dt), c).astype(dt)
    info = np.iinfo(dt)
    m = int(rng.integers(0, 3))
    if m == 0:
        return rng.integers(0, 3, size=n).astype(dt)
    if m == 1:
        v = rng.integers(0, 2**63 - 1, size=n, dtype=np.int64).view(np.uint64)
        return v.astype(dt) if dt.itemsize < 8 else (v << np.uint64(1)).view(dt)
    top = np.array([info.max, info.max - 1, info.min, info.min + 1, 0, info.max // 2], dtype=object)[rng.integers(0, 6, size=n)]
    return np.array([int(t) for t in top], dtype=dt)


def reference(keys, sel, cost):
    """representative row of each selected row, by exact key, cheapest first, then lowest row."""
    best = {}
    for i, k in enumerate(keys):
        if not sel[i]:
            continue
        if k not in best or (cost is not None and cost[i] < cost[best[k]]):
            best[k] = i
    return best


def judge(ctx, keys, filled, cost, out, idx, inv, what, **det):
    n = len(keys)
    sel = np.ones(n, bool) if filled is None else np.asarray(filled, bool)
    if cost is not None:
        c = np.asarray(cost)
        if rt.is_float(c.dtype):
            sel = sel & (c.astype(np.float64) < np.inf)
            c = c.astype(np.float64)
        c = c.tolist()
    else:
        c = None
    best = reference(keys, sel, c)
    exp = np.zeros(n, bool)
    exp[list(best.values())] = True
    mask = np.asarray(out)
    ctx.require(mask.dtype == np.bool_ and mask.shape == (n,), "mask:shape", f"{what}: mask is {mask.dtype}{mask.shape}", **det)
    if not np.array_equal(mask, exp):
        bad = int(np.flatnonzero(mask != exp)[0])
        why = "is marked though its key's representative is another row" if mask[bad] else "is not marked though it represents its key"
        if mask[bad] and not sel[bad]:
            why = "is marked though it is not selected"
        ctx.fail("mask", f"{what}: row {bad} {why}; group rows {[i for i in range(n) if keys[i] == keys[bad]][:12]}", got=mask, expected=exp, selected=sel, costs=c, **det)
    if idx is not None:
        ii = np.asarray(idx)
        real = ii[ii < n] if len(ii) > len(best) or (ii >= n).any() else ii
        ctx.require(sorted(real.tolist()) == sorted(best.values()), "index", f"{what}: returned indices {ii.tolist()[:40]} are not the representatives {sorted(best.values())[:40]}", **det)
        ctx.ev("index_outputs")
    if inv is not None:
        v = np.asarray(inv)
        ctx.require(v.shape == (n,), "inverse:shape", f"{what}: inverse has shape {v.shape}", **det)
        rows = np.flatnonzero(sel)
        if idx is not None:
            ii = np.asarray(idx)
            for i in rows:
                ctx.require(0 <= v[i] < len(ii) and int(ii[v[i]]) == best[keys[i]], "inverse", f"{what}: inverse sends row {i} to {int(ii[v[i]]) if 0 <= v[i] < len(ii) else v[i]}, its representative is {best[keys[i]]}", inverse=v, index=ii, **det)
        else:
            g = {}
            for i in rows:
                ctx.require(g.setdefault(int(v[i]), keys[i]) == keys[i], "inverse", f"{what}: the inverse puts rows of different keys in one group", inverse=v, **det)
            ctx.require(len(g) == len(best), "inverse", f"{what}: the inverse splits a key over several groups", inverse=v, **det)
        ctx.ev("inverse_outputs")
    ctx.ev("rows_selected", int(sel.sum()))
    ctx.ev("duplicates_dropped", int(sel.sum()) - len(best))
    return len(best)


def gen_filled(rng, n):
    m = int(rng.integers(0, 5))
    if m == 0:
        return None
    if m == 1:
        return np.zeros(n, bool)
    return rng.random(n) < [0, 0, 0.3, 0.7, 0.95][m]


def adversarial(C, rng, n):
    """rows with many duplicates, near duplicates and keys that look alike word by word."""
    m = int(rng.integers(0, 6))
    if m == 0:
        arr = rt.pool_records(C, rng, max(2, n // 2)) if C.__name__ not in ("Small", "Flags") else rt.records(C, rng, max(2, n // 2))
    elif m == 1:
        arr = rt.records(C, rng, n, "small")
    elif m == 2:
        arr = rt.records(C, rng, n, "edge")
    elif m == 3:   # one base record and its one-element variations
        base = rt.records(C, rng, 1, "uniform")
        arr = {p: np.repeat(v, n, axis=0).copy() for p, v in base.items()}
        for i in range(1, n):
            for _ in range(int(rng.integers(0, 3))):
                rt.perturb(C, rng, arr, i)
    elif m == 4:   # values swapped between rows field by field
        a = rt.records(C, rng, 2, "uniform")
        arr = {p: v[rng.integers(0, 2, size=n)] for p, v in a.items()}
    else:          # top bits flipped in a few integer or float elements
        base = rt.records(C, rng, 1, "uniform")
        arr = {p: np.repeat(v, n, axis=0).copy() for p, v in base.items()}
        for lf in rt.leaves(C):
            if lf.dtype == np.bool_ or (lf.field.bits is not None and lf.field.packed is None):
                continue
            a = arr[lf.path].reshape(n, -1)
            u = a.view(f"u{lf.dtype.itemsize}")
            flip = rng.random(u.shape) < 0.4
            if rt.is_float(lf.dtype):
                flip = flip & (a != 0)
            u ^= np.where(flip, np.array(1 << (8 * lf.dtype.itemsize - 1), u.dtype), u.dtype.type(0))
            arr[lf.path] = a.reshape(arr[lf.path].shape)
    k = len(next(iter(arr.values())))
    pick = rng.integers(0, k, size=n)
    if rng.random() < 0.3:
        pick = np.arange(n) % k
    return rt.take(arr, pick)


_jit = {}


def compiled(C, kw, with_cost, with_filled, key_fn=None, tag=""):
    k = (C, tuple(sorted(kw.items())), with_cost, with_filled, tag)
    if k not in _jit:
        _jit[k] = jax.jit(lambda x, c, f: xnp.unique_mask(x, c if with_cost else None, f if with_filled else None, key_fn=key_fn, **kw))
    return _jit[k]


def unpack(out, kw):
    if not kw:
        return out, None, None
    out = list(out)
    mask = out.pop(0)
    return mask, (out.pop(0) if kw.get("return_index") else None), (out.pop(0) if kw.get("return_inverse") else None)


KW = [{}, {}, dict(return_index=True), dict(return_inverse=True), dict(return_index=True, return_inverse=True)]


def rows(ctx, cls, count, sizes=(1, 2, 9, 24), x64=False):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        n = int(sizes[int(rng.integers(0, len(sizes)))])
        arr = adversarial(C, rng, n)
        keys = rt.keys(C, arr)
        filled = gen_filled(rng, n)
        if filled is not None and rng.random() < 0.5:  # unfilled rows hold garbage that looks like padding
            for p, v in arr.items():
                lf = [l for l in rt.leaves(C) if l.path == p][0]
                if lf.dtype.kind in "ui" and lf.field.bits is None:
                    v[~filled] = np.array(-1).astype(lf.dtype)
            if rng.random() < 0.5 and filled.any():   # and so may a selected row
                i = int(np.flatnonzero(filled)[0])
                for lf in rt.leaves(C):
                    if lf.dtype.kind in "ui" and lf.field.bits is None:
                        arr[lf.path][i] = np.array(-1).astype(lf.dtype)
            keys = rt.keys(C, arr)
        cost = gen_costs(rng, n, x64) if rng.random() < 0.6 else None
        kw = KW[int(rng.integers(0, len(KW)))]
        if rng.random() < 0.2:
            kw = dict(kw, batch_len=n)
        x = rt.build(C, arr)
        jf, jc = (None if filled is None else jnp.asarray(filled)), (None if cost is None else jnp.asarray(cost))
        before = rt.tree_bytes((x, jf, jc))
        det = dict(type=cls, n=n, kw=kw, cost_dtype=None if cost is None else str(cost.dtype))
        okw = {k: v for k, v in kw.items() if k != "batch_len"}
        if rng.random() < 0.4:
            out = compiled(C, kw, cost is not None, filled is not None)(x, jc, jf)
            what = "unique_mask compiled"
            ctx.ev("compiled")
        else:
            out = xnp.unique_mask(x, jc, jf, **kw) if rng.random() < 0.5 else xnp.unique_mask(x, key=jc, filled=jf, **kw)
            what = "unique_mask"
        g = judge(ctx, keys, filled, cost, *unpack(out, okw), what, records=arr if n <= 9 else None, **det)
        ctx.require(rt.tree_bytes((x, jf, jc)) == before, "mutates", "unique_mask changed its arguments", **det)
        if cost is not None:
            ctx.ev("with_costs")
        if filled is not None:
            ctx.ev("with_filter")
        ctx.ev("groups", g)
        ctx.case(cls, n, kw, *keys, filled if filled is not None else 0, np.asarray(cost).astype(np.float64) if cost is not None else 0, nontrivial=n > 1)
    ctx.sample(dict(type=cls, n=n, kw=kw, groups=g))


KEYS = {
    "scalar_u32": (np.uint32, ()), "scalar_f32": (np.float32, ()), "vec2_i32": (np.int32, (2,)), "vec4_f32": (np.float32, (4,)), "vec5_f32": (np.float32, (5,)), "vec7_u32": (np.uint32, (7,)),
    "vec6_i16": (np.int16, (6,)), "vec9_bool": (np.bool_, (9,)), "mat_f16": (np.float16, (2, 3)), "vec3_i8": (np.int8, (3,)), "mat_i32": (np.int32, (3, 2)), "vec5_bf16": (bf16, (5,)), "vec12_u8": (np.uint8, (12,)),
    "scalar_bool": (np.bool_, ()), "vec1_f32": (np.float32, (1,)),
}
KEYS64 = {"vec3_f64": (np.float64, (3,)), "vec4_u64": (np.uint64, (4,)), "vec2_i64": (np.int64, (2,)), "scalar_f64": (np.float64, ()), "vec6_f64": (np.float64, (6,)), "vec3_i64": (np.int64, (3,)), "vec5_f32": (np.float32, (5,))}


def gen_keys(rng, dt, shape, n):
    dt = np.dtype(dt)
    m = int(rng.integers(0, 5))
    if m < 2:
        base = rt.gen_array(rng, dt, (max(1, n // 2),) + shape, "mix")
        return base[rng.integers(0, len(base), size=n)]
    one = rt.gen_array(rng, dt, (1,) + shape, "uniform")
    k = np.repeat(one, n, axis=0).reshape(n, -1).copy()
    for i in range(n):
        for _ in range(int(rng.integers(0, 3))):
            j = int(rng.integers(0, k.shape[1]))
            if dt == np.bool_:
                k[i, j] = not k[i, j]
            elif rt.is_float(dt):
                v = float(k[i, j])
                r = [-v if v else 1.0, v + 0.25, v * 2 if v else 0.5, 0.0][int(rng.integers(0, 4))]
                k[i, j] = np.asarray(r, np.float64).astype(dt)
            else:
                u = k.view(f"u{dt.itemsize}")
                u[i, j] ^= np.array(1 << (8 * dt.itemsize - 1) if m == 2 else 1 << int(rng.integers(0, 8 * dt.itemsize)), u.dtype)
        if m == 2 and k.shape[1] > 1 and rng.random() < 0.7:   # an even number of sign or top-bit changes
            a, b = rng.choice(k.shape[1], 2, replace=False)
            for j in (a, b):
                if rt.is_float(dt):
                    k[i, j] = -k[i, j]
                elif dt != np.bool_:
                    u = k.view(f"u{dt.itemsize}")
                    u[i, j] ^= np.array(1 << (8 * dt.itemsize - 1), u.dtype)
        if m == 3 and k.shape[1] > 1:  # permuted columns
            k[i] = k[i][rng.permutation(k.shape[1])]
    if rt.is_float(dt):
        f = k.astype(np.float64)
        k = np.where((f == 0) | ~np.isfinite(f), np.zeros((), dt), k).astype(dt)
    return k.reshape((n,) + shape)


def userkeys(ctx, names, count, x64=False):
    rng = ctx.rng
    U = BY["U1"]
    table = dict(KEYS, **KEYS64)
    for it in range(count):
        name = names[it % len(names)]
        dt, shape = table[name]
        n = [5, 12, 33][int(rng.integers(0, 3))]
        ks = gen_keys(rng, dt, shape, n)
        keys = [np.array(k).tobytes() for k in ks]
        filled = gen_filled(rng, n)
        cost = gen_costs(rng, n, x64) if rng.random() < 0.6 else None
        kw = KW[int(rng.integers(0, len(KW)))]
        dk = jnp.asarray(ks)
        ctx.require(dk.dtype == ks.dtype, "harness", f"key dtype {ks.dtype} became {dk.dtype}")
        x = U(x=jnp.arange(n, dtype=jnp.uint32))
        jf, jc = (None if filled is None else jnp.asarray(filled)), (None if cost is None else jnp.asarray(cost))
        if rng.random() < 0.3:  # any pytree is accepted when the batch length is given
            out = xnp.unique_mask(dict(k=dk, i=x), jc, jf, key_fn=lambda r: r["k"], batch_len=n, **kw)
        elif rng.random() < 0.5:
            out = jax.jit(lambda x, t, c, f: xnp.unique_mask(x, c, f, key_fn=lambda r: t[r.x], **kw))(x, dk, jc, jf)
            ctx.ev("compiled")
        else:
            out = xnp.unique_mask(x, jc, jf, key_fn=lambda r: dk[r.x], **kw)
        judge(ctx, keys, filled, cost, *unpack(out, kw), f"unique_mask with a {name} key", user_keys=ks if n < 14 else None, kw=kw)
        ctx.ev("user_keys")
        ctx.case(name, n, kw, ks.astype(np.float64) if dt == bf16 else ks, cost if cost is None or cost.dtype != bf16 else cost.astype(np.float32), filled)
    ctx.sample(dict(key=name, n=n, kw=kw))


def large(ctx, cls, n, count):
    """so many distinct records that a narrow (32-bit) digest of them would collide."""
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        arr = rt.records(C, rng, n, "uniform")
        # distinct by construction: the row number is written into the first wide field
        lf = [l for l in rt.leaves(C) if l.dtype.itemsize * int(np.prod(l.shape)) >= 4 and l.field.bits is None and l.dtype.kind in "uif"][0]
        raw = np.ascontiguousarray(arr[lf.path]).reshape(n, -1).view(np.uint8)
        if lf.dtype.kind == "f":
            a = arr[lf.path].reshape(n, -1)
            a[:, 0] = np.arange(1, n + 1)   # exact for n < 2^24
            arr[lf.path] = a.reshape(arr[lf.path].shape)
        else:
            raw[:, :4] = np.arange(n, dtype=np.uint32).view(np.uint8).reshape(n, 4)
            arr[lf.path] = raw.view(lf.dtype).reshape(arr[lf.path].shape)
        dup = rng.integers(0, n, size=n // 50)
        src = rng.integers(0, n, size=n // 50)
        owner = np.arange(n)
        arr = {p: v.copy() for p, v in arr.items()}
        for p in arr:
            base = arr[p].copy()
            arr[p][dup] = base[src]
        owner[dup] = src
        # dup rows now equal row src's *original* record
        first = {}
        for i, o in enumerate(owner.tolist()):
            first.setdefault(o, i)
        exp = np.zeros(n, bool)
        exp[list(first.values())] = True
        mask = np.asarray(xnp.unique_mask(rt.build(C, arr)))
        if not np.array_equal(mask, exp):
            bad = np.flatnonzero(mask != exp)
            ctx.fail("large", f"{len(bad)} of {n} rows of a large {cls} batch are marked wrongly, first row {bad[0]}", first=bad[:10])
        ctx.ev("large_rows", n)
        ctx.case(cls, n, it, rng.integers(0, 2**31))


def mapped(ctx, cls, n, count):
    """one independent problem per batch entry under vmap."""
    C, rng = BY[cls], ctx.rng
    fn = jax.jit(jax.vmap(lambda x, c, f: xnp.unique_mask(x, c, f)))
    for it in range(count):
        probs = [adversarial(C, rng, n) for _ in range(4)]
        arr = {p: np.stack([q[p] for q in probs]) for p in probs[0]}
        cost = rng.integers(0, 3, size=(4, n)).astype(np.float32)
        filled = rng.random((4, n)) < 0.8
        out = np.asarray(fn(rt.build(C, arr), jnp.asarray(cost), jnp.asarray(filled)))
        for j in range(4):
            judge(ctx, rt.keys(C, probs[j]), filled[j], cost[j], out[j], None, None, "unique_mask mapped over problems", type=cls)
        ctx.ev("mapped_problems", 4)
        ctx.case(cls, n, cost, *rt.keys(C, probs[0]))


def refusals(ctx):
    rng = ctx.rng
    C = BY["Pair"]
    x = rt.build(C, rt.records(C, rng, 6))
    for m in (0, 1, 5, 7):
        try:
            xnp.unique_mask(x, jnp.zeros(m))
        except ValueError:
            ctx.ev("refused_lengths")
        else:
            ctx.fail("refusal", f"{m} costs for 6 rows were accepted")
        ctx.case("len", m)
    e = rt.build(C, rt.records(C, rng, (0,)))
    for kw in KW:
        out = xnp.unique_mask(e, **kw)
        for o in (out if isinstance(out, tuple) else (out,)):
            ctx.require(np.asarray(o).shape == (0,), "empty", f"empty batch gave shape {np.asarray(o).shape}")
        ctx.case("empty", kw)
