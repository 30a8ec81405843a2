"""C16: conditional scatter updates against a sequential first-true-wins loop."""
import jax
import jax.numpy as jnp
import numpy as np
from xtructure import numpy as xnp

from xv import rt
from xv.rtypes import BY

ITYPES = [np.int32, np.int32, np.int8, np.int16, np.uint8, np.uint16, np.uint32]
ITYPES64 = [np.int64, np.uint64]


def gen_target(rng, k, few):
    if few:
        return {1: (7,), 2: (3, 4), 3: (2, 3, 2)}[k]
    r = rng.random()
    if k == 1:
        return (int(rng.integers(1, 12)),) if r < 0.7 else (int(rng.choice([126, 127, 128, 129, 200, 254, 255, 256, 257, 300])),)
    if k == 2:
        return (int(rng.integers(1, 6)), int(rng.integers(1, 6))) if r < 0.7 else (int(rng.choice([16, 20, 127, 128])), int(rng.choice([16, 17, 3])))
    return tuple(int(v) for v in rng.integers(1, 5, size=3))


def gen_indices(rng, target, ushape, x64):
    """one integer array per target axis; duplicates, out-of-range and negative entries."""
    out = []
    for d in target:
        dt = np.dtype((ITYPES + (ITYPES64 if x64 else []))[int(rng.integers(0, len(ITYPES) + (2 if x64 else 0)))])
        info = np.iinfo(dt)
        m = int(rng.integers(0, 4))
        if m == 0:
            v = rng.integers(0, max(1, min(d, 3)), size=ushape)
        elif m == 1:
            v = rng.integers(0, max(d, 1), size=ushape)
        elif m == 2:
            v = rng.integers(-2 if dt.kind == "i" else 0, d + 3, size=ushape)
        else:
            ext = [x for x in (0, d - 1, d, d + 1, -1, -d, -d - 1, 127, 128, 255, 256, -128, min(info.max, 2**31 - 1), max(info.min, -2**31), d // 2, d * 2) if info.min <= x <= info.max]
            v = np.array(ext, dtype=np.int64)[rng.integers(0, len(ext), size=ushape)]
        v = np.clip(v, max(info.min, -2**31), min(info.max, 2**62))
        out.append(np.asarray(v).astype(dt))
    return out


def plan(target, idx, cond):
    """cell -> update number of the first true in-range entry."""
    flat = [np.asarray(i).reshape(-1) for i in idx]
    c = np.asarray(cond).reshape(-1)
    win, dups, oob = {}, 0, 0
    for j in range(c.size):
        if not c[j]:
            continue
        cell = tuple(int(f[j]) for f in flat)
        if any(x < 0 or x >= d for x, d in zip(cell, target)):
            oob += 1
            continue
        if cell in win:
            dups += 1
        else:
            win[cell] = j
    return win, dups, oob


def apply_leaf(base, win, values, per_update):
    """values: per-update array (U, item...) or one item / scalar broadcast to each cell."""
    out = base.copy()
    for cell, j in win.items():
        out[cell] = values[j] if per_update else values
    return out


def ushape_of(rng, few):
    if few:
        return [(5,), (2, 3), (), (1,)][int(rng.integers(0, 4))]
    return [(int(rng.integers(1, 24)),), (int(rng.integers(1, 24)),), (int(rng.integers(1, 5)), int(rng.integers(1, 5))), (), (1,), (0,), (2, 2, 2)][int(rng.integers(0, 7))]


def index_arg(rng, idx, tup):
    """the index in one of the forms a caller would use."""
    if not tup:
        i = idx[0]
        r = rng.random()
        if i.shape == () and r < 0.5:
            return int(i) if i.dtype == np.int32 else i
        if i.dtype == np.int32 and i.ndim == 1 and i.size and r < 0.15:
            return i.tolist()
        return jnp.asarray(i) if r < 0.7 else i
    return tuple(jnp.asarray(i) if rng.random() < 0.7 else i for i in idx)


_j = {}


def runner(kind, how):
    if (kind, how) not in _j:
        if how == "xnp":
            f = lambda x, i, c, v: xnp.update_on_condition(x, i, c, v)
        else:
            f = lambda x, i, c, v: x.at[i].set_as_condition(c, v)
        _j[(kind, how)] = jax.jit(f)
    return _j[(kind, how)]


def records(ctx, cls, count, x64=False, few=False):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        k = int(rng.choice([1, 1, 1, 2, 2, 3]))
        tail = () if rng.random() < 0.7 else (2,)     # batch axes beyond the indexed ones
        target = gen_target(rng, k, few)
        batch = target + tail
        ush = ushape_of(rng, few)
        idx = gen_indices(rng, target, ush, x64)
        cond = rng.random(ush) < [0.0, 0.3, 0.7, 1.0][int(rng.integers(0, 4))]
        cond = np.asarray(cond)
        base = rt.records(C, rng, batch)
        win, dups, oob = plan(target, idx, cond)
        vk = int(rng.integers(0, 4))
        U = int(np.prod(ush))
        if vk <= 1:
            vals = rt.records(C, rng, ush + tail)
            exp = {lf.path: apply_leaf(base[lf.path], win, vals[lf.path].reshape((U,) + tail + lf.shape), True) for lf in rt.leaves(C)}
            arg = rt.build(C, vals)
        elif vk == 2:
            vals = rt.records(C, rng, tail)
            exp = {lf.path: apply_leaf(base[lf.path], win, vals[lf.path], False) for lf in rt.leaves(C)}
            arg = rt.build(C, vals)
        else:
            s = [0, 1, 1.0, True, np.float32(1), jnp.int32(1)][int(rng.integers(0, 6))]
            exp = {lf.path: apply_leaf(base[lf.path], win, np.asarray(s).astype(lf.dtype), False) for lf in rt.leaves(C)}
            arg = s
        x = rt.build(C, base)
        ia = index_arg(rng, idx, k > 1)
        ca = jnp.asarray(cond) if rng.random() < 0.7 else (bool(cond) if cond.ndim == 0 else cond)
        how = "xnp" if rng.random() < 0.6 else "at"
        if isinstance(ia, list):
            how = "xnp"
        det = dict(type=cls, batch=batch, indices=[i for i in idx], dtypes=[str(i.dtype) for i in idx], condition=cond, how=how, value_kind=vk)
        before = rt.tree_bytes((x, arg if vk < 3 else 0))
        if few and not isinstance(ia, (int, list)):
            out = runner(cls, how)(x, ia, jnp.asarray(cond), arg)
            ctx.ev("compiled")
        elif how == "xnp":
            out = xnp.update_on_condition(x, ia, ca, arg)
        else:
            out = x.at[ia].set_as_condition(ca, arg)
        ctx.require(rt.tree_bytes((x, arg if vk < 3 else 0)) == before, "mutates", "a conditional update changed its arguments", **det)
        rt.check_inst(ctx, C, out, exp, f"conditional update of a {cls}", "update", **det)
        note(ctx, win, dups, oob, cond, vk, ush, k)
        ctx.case(cls, batch, *idx, cond, vk, nontrivial=bool(cond.any()))
    ctx.sample(dict(type=cls, batch=batch, indices=idx, condition=cond, cells_written=len(win)))


def note(ctx, win, dups, oob, cond, vk, ush, k):
    ctx.ev("cells_written", len(win))
    ctx.ev("duplicates_ignored", dups)
    ctx.ev("out_of_range_dropped", oob)
    ctx.ev("false_entries", int((~np.asarray(cond, bool)).sum()))
    ctx.ev("scalar_values" if vk == 3 else "record_values")
    if k > 1:
        ctx.ev("tuple_indices")
    if len(ush) > 1:
        ctx.ev("multidim_updates")


def arrays(ctx, count, x64=False):
    rng = ctx.rng
    for it in range(count):
        k = int(rng.choice([1, 1, 1, 2, 2, 3]))
        item = [(), (), (3,), (2, 2)][int(rng.integers(0, 4))]
        target = gen_target(rng, k, False)
        ush = ushape_of(rng, False)
        dt = np.dtype([np.float32, np.int32, np.uint8, np.bool_, np.int16, np.uint32, np.float16][int(rng.integers(0, 7))])
        base = rt.gen_array(rng, dt, target + item)
        idx = gen_indices(rng, target, ush, x64)
        cond = np.asarray(rng.random(ush) < [0.0, 0.3, 0.7, 1.0][int(rng.integers(0, 4))])
        win, dups, oob = plan(target, idx, cond)
        U = int(np.prod(ush))
        vk = int(rng.integers(0, 4))
        if vk <= 1:
            v = rt.gen_array(rng, dt, ush + item)
            exp = apply_leaf(base, win, v.reshape((U,) + item), True)
        elif vk == 2 and item:
            v = rt.gen_array(rng, dt, item)
            exp = apply_leaf(base, win, v, False)
        else:
            vk = 3
            v = rt.gen_array(rng, dt, ())
            v = v if rng.random() < 0.5 else v.item()
            exp = apply_leaf(base, win, np.asarray(v).astype(dt), False)
        ia = index_arg(rng, idx, k > 1)
        det = dict(dtype=str(dt), shape=target + item, indices=idx, dtypes=[str(i.dtype) for i in idx], condition=cond, value_kind=vk)
        arr = jnp.asarray(base)
        out = xnp.update_on_condition(arr, ia, cond if rng.random() < 0.5 else jnp.asarray(cond), v if not isinstance(v, np.ndarray) else jnp.asarray(v))
        g = np.asarray(out)
        ctx.require(g.dtype == dt and g.shape == exp.shape, "array:shape", f"update of {dt}{exp.shape} gave {g.dtype}{g.shape}", **det)
        if g.tobytes() != exp.tobytes():
            ctx.fail("array:value", "a conditional update of a plain array is wrong", got=g, expected=exp, base=base, values=v, **det)
        ctx.require(np.asarray(arr).tobytes() == base.tobytes(), "mutates", "the updated array changed", **det)
        note(ctx, win, dups, oob, cond, vk, ush, k)
        ctx.ev("plain_arrays")
        ctx.case(str(dt), target, item, *idx, cond, vk, nontrivial=bool(cond.any()))


def big(ctx, count, n):
    """many updates on few cells: the order of duplicates must survive sorting of long batches."""
    rng = ctx.rng
    C = BY["Pair"]
    for it in range(count):
        d = int(rng.choice([1, 50, 4000]))
        base = rt.records(C, rng, d)
        idx = rng.integers(-2, d + 2, size=n).astype(np.int32)
        cond = rng.random(n) < float(rng.choice([0.02, 0.5, 1.0]))
        vals = rt.records(C, rng, n, "uniform")
        win, dups, oob = plan((d,), [idx], cond)
        exp = {p: apply_leaf(v, win, vals[p], True) for p, v in base.items()}
        out = xnp.update_on_condition(rt.build(C, base), jnp.asarray(idx), jnp.asarray(cond), rt.build(C, vals))
        rt.check_inst(ctx, C, out, exp, f"{n} conditional updates on {d} records", "big")
        ctx.ev("long_batches")
        ctx.case(n, d, idx, cond)


def mapped(ctx, cls, count):
    """one update problem per batch entry under vmap, and a loop carry."""
    C, rng = BY[cls], ctx.rng
    f = jax.jit(jax.vmap(lambda x, i, c, v: xnp.update_on_condition(x, i, c, v)))

    def scan(x, I, Cn, V):
        return jax.lax.scan(lambda s, a: (xnp.update_on_condition(s, *a), None), x, (I, Cn, V))[0]

    g = jax.jit(scan)
    for it in range(count):
        base, vals = rt.records(C, rng, (3, 6)), rt.records(C, rng, (3, 5))
        idx, cond = rng.integers(-2, 8, size=(3, 5)).astype(np.int32), rng.random((3, 5)) < 0.7
        exp = {p: v.copy() for p, v in base.items()}
        for b in range(3):
            win, *_ = plan((6,), [idx[b]], cond[b])
            for p in exp:
                exp[p][b] = apply_leaf(base[p][b], win, vals[p][b], True)
        out = f(rt.build(C, base), jnp.asarray(idx), jnp.asarray(cond), rt.build(C, vals))
        rt.check_inst(ctx, C, out, exp, "conditional updates mapped over a batch", "mapped")
        seq = {p: v[0].copy() for p, v in base.items()}
        for b in range(3):
            win, *_ = plan((6,), [idx[b]], cond[b])
            seq = {p: apply_leaf(seq[p], win, vals[p][b], True) for p in seq}
        out = g(rt.build(C, rt.take(base, 0)), jnp.asarray(idx), jnp.asarray(cond), rt.build(C, vals))
        rt.check_inst(ctx, C, out, seq, "conditional updates in a scan", "scanned")
        ctx.ev("mapped")
        ctx.case(cls, idx, cond, it)


def refusals(ctx):
    C, rng = BY["Pair"], ctx.rng
    x = rt.build(C, rt.records(C, rng, 6))
    v = rt.build(C, rt.records(C, rng, 3))
    other = rt.build(BY["Mat"], rt.records(BY["Mat"], rng, 3))
    for j, (i, c, vv, err) in enumerate([
        (jnp.array([0, 1, 2]), jnp.array([True, False]), v, ValueError), (jnp.array([0, 1, 2]), jnp.ones((3, 1), bool), v, ValueError),
        (jnp.array([0.0, 1.0, 2.0]), jnp.ones(3, bool), v, TypeError), (jnp.array([0, 1, 2]), jnp.ones(3, bool), other, TypeError)]):
        try:
            out = xnp.update_on_condition(x, i, c, vv)
        except err:
            ctx.ev("refused")
        else:
            ctx.fail("refusal", f"mismatched arguments (case {j}) were accepted", got=rt.arrays_of(C, out))
        ctx.case("refusal", j)
    try:
        xnp.update_on_condition(jnp.zeros(4), jnp.array([0, 1, 2]), jnp.ones(3, bool), v)
    except TypeError:
        ctx.ev("refused")
    else:
        ctx.fail("refusal", "record values were written into a plain array")


def huge(ctx, targets):
    """targets beyond the exact range of narrower number types: 2**15, 2**16, 2**24 cells, flat and multi-axis."""
    rng = ctx.rng
    for target in targets:
        target = tuple(target)
        N = int(np.prod(target))
        near = np.array([v for c in (0, 1 << 8, 1 << 15, 1 << 16, 1 << 23, 1 << 24, 1 << 25, N) for v in range(c - 4, c + 5) if 0 <= v < N])
        for rec in (False, True):
            if rec and N > 1 << 22:
                continue
            U = 64
            lin = np.concatenate([rng.choice(near, size=U - 16), rng.choice(near[-12:], size=8), rng.integers(0, N, size=8)])
            rng.shuffle(lin)
            lin[rng.integers(0, U, size=12)] = lin[rng.integers(0, U, size=12)]
            idx = [np.asarray(v, np.int32) for v in np.unravel_index(lin, target)]
            out_of = rng.random(U) < 0.1
            idx[0] = np.where(out_of, rng.choice([target[0], -1, target[0] + 5], size=U), idx[0]).astype(np.int32)
            cond = rng.random(U) < 0.8
            win, dups, oob = plan(target, idx, cond)
            arg = tuple(jnp.asarray(i) for i in idx) if len(target) > 1 else jnp.asarray(idx[0])
            if rec:
                C = BY["Small"]
                base, vals = rt.records(C, rng, target, "uniform"), rt.records(C, rng, U, "uniform")
                exp = {p: apply_leaf(v, win, vals[p], True) for p, v in base.items()}
                out = xnp.update_on_condition(rt.build(C, base), arg, jnp.asarray(cond), rt.build(C, vals))
                rt.check_inst(ctx, C, out, exp, f"conditional update of {target} records", "huge")
            else:
                base = np.zeros(target, np.uint8)
                vals = np.arange(1, U + 1).astype(np.uint8)
                exp = apply_leaf(base, win, vals, True)
                got = np.asarray(xnp.update_on_condition(jnp.asarray(base), arg, jnp.asarray(cond), jnp.asarray(vals)))
                bad = np.flatnonzero(got.reshape(-1) != exp.reshape(-1))
                ctx.require(not len(bad), "huge", f"update of {target} cells is wrong at {bad[:4].tolist()}", expected=exp.reshape(-1)[bad[:4]], got=got.reshape(-1)[bad[:4]], indices=idx, condition=cond)
            note(ctx, win, dups, oob, cond, 0, (U,), len(target))
            ctx.ev("huge_targets")
            ctx.case("huge", target, *idx, cond, rec)
            ctx.tick()
