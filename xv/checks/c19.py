"""C19: reading and updating through every index form, against indexing an array of record labels."""
import jax
import jax.numpy as jnp
import numpy as np

from xv import rt
from xv.rtypes import BY

SHAPES = {1: [(6,), (3,), (1,), (9,)], 2: [(3, 4), (3, 3), (2, 5), (1, 4)], 3: [(2, 3, 2), (3, 1, 3)]}


def an_int(rng, d):
    v = int(rng.integers(-d, d))
    return [v, np.int64(v), np.int32(v), jnp.int32(v)][int(rng.integers(0, 4))] if rng.random() < 0.5 else v


def a_slice(rng, d):
    r = rng.random()
    if r < 0.15:
        return slice(None)
    lim = lambda: None if rng.random() < 0.3 else int(rng.integers(-d - 2, d + 3))
    step = [None, 1, 2, 3, -1, -2][int(rng.integers(0, 6))]
    return slice(lim(), lim(), step)


def an_array(rng, d, shape=None, unique=False):
    dt = [np.int32, np.int32, np.int8, np.int16, np.uint8, np.uint32][int(rng.integers(0, 6))]
    if unique:
        v = rng.permutation(d)[:int(rng.integers(1, d + 1))]
        if dt in (np.int32, np.int8, np.int16):
            v = np.where(rng.random(v.shape) < 0.3, v - d, v)
    else:
        shape = shape if shape is not None else [(2,), (4,), (2, 2), (1,), ()][int(rng.integers(0, 5))]
        lo = 0 if np.dtype(dt).kind == "u" else -d
        v = rng.integers(lo, d, size=shape)
    v = np.asarray(v).astype(dt)
    return v if rng.random() < 0.4 else jnp.asarray(v)


def a_mask(rng, shape):
    m = np.asarray(rng.random(shape) < 0.5)
    return m if rng.random() < 0.4 else jnp.asarray(m)


def gen_index(rng, b, unique=False):
    """(kind, index)"""
    nd = len(b)
    kind = ["int", "slice", "array", "mask", "tuple_basic", "tuple_mixed", "newaxis", "tuple_arrays", "mask_lead", "mask_tuple", "ellipsis"][int(rng.integers(0, 11))]
    if kind == "int":
        return kind, an_int(rng, b[0])
    if kind == "slice":
        return kind, a_slice(rng, b[0])
    if kind == "array":
        return kind, an_array(rng, b[0], unique=unique)
    if kind == "mask":
        return kind, a_mask(rng, b)
    if kind == "mask_lead":
        return kind, a_mask(rng, b[:int(rng.integers(1, nd + 1))])
    k = int(rng.integers(1, nd + 1))
    if kind == "tuple_basic":
        return kind, tuple(an_int(rng, d) if rng.random() < 0.5 else a_slice(rng, d) for d in b[:k])
    if kind == "newaxis":
        parts = [an_int(rng, d) if rng.random() < 0.4 else a_slice(rng, d) for d in b[:k]]
        parts.insert(int(rng.integers(0, len(parts) + 1)), None)
        return kind, tuple(parts)
    if kind == "tuple_arrays" or (kind == "mask_tuple" and nd == 1):
        if unique:   # distinct cells
            cells = rng.permutation(int(np.prod(b[:k])))[:int(rng.integers(1, int(np.prod(b[:k])) + 1))]
            return "tuple_arrays", tuple(jnp.asarray(c.astype(np.int32)) for c in np.unravel_index(cells, b[:k]))
        shp = [(2,), (3,), (2, 2)][int(rng.integers(0, 3))]
        return "tuple_arrays", tuple(an_array(rng, d, shape=[shp, shp, shp[-1:], ()][int(rng.integers(0, 4))]) for d in b[:k])
    if kind == "tuple_mixed":
        parts = [a_slice(rng, d) if rng.random() < 0.5 else an_int(rng, d) for d in b]
        j = int(rng.integers(0, nd))
        parts[j] = an_array(rng, b[j], unique=unique)
        return kind, tuple(parts)
    if kind == "mask_tuple":
        m = a_mask(rng, b[:1])
        rest = [a_slice(rng, d) if rng.random() < 0.6 else an_int(rng, d) for d in b[1:]]
        return kind, (m,) + tuple(rest)
    parts = [an_int(rng, d) if rng.random() < 0.5 else a_slice(rng, d) for d in b[:int(rng.integers(0, nd + 1))]]
    if rng.random() < 0.3:
        parts = [an_array(rng, b[0], unique=unique) if rng.random() < 0.5 else a_mask(rng, b[:1])]
    return "ellipsis", tuple(parts) + (Ellipsis,)


def host(i):
    if isinstance(i, tuple):
        return tuple(host(p) for p in i)
    return np.asarray(i) if isinstance(i, jax.Array) else i


def show(i):
    if isinstance(i, tuple):
        return [show(p) for p in i]
    return f"{np.asarray(i).dtype}{np.asarray(i).tolist()}" if hasattr(i, "dtype") else repr(i)


def flatrecs(C, arr, b):
    n = int(np.prod(b))
    return {lf.path: arr[lf.path].reshape((n,) + lf.shape) for lf in rt.leaves(C)}


def has_mask(i):
    return any(getattr(p, "dtype", None) == np.bool_ for p in (i if isinstance(i, tuple) else (i,)))


def read(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    jits = {}
    for it in range(count):
        nd = int(rng.integers(1, 4))
        b = SHAPES[nd][int(rng.integers(0, len(SHAPES[nd])))]
        arr = rt.records(C, rng, b, "uniform")
        kind, idx = gen_index(rng, b)
        lab = np.arange(int(np.prod(b))).reshape(b)[host(idx)]
        flat = flatrecs(C, arr, b)
        exp = {p: v[lab] for p, v in flat.items()}
        x = rt.build(C, arr, host=rng.random() < 0.1 and not any(isinstance(p, jax.Array) for p in (idx if isinstance(idx, tuple) else (idx,))))
        before = rt.tree_bytes(x)
        out = x[idx]
        rt.check_inst(ctx, C, out, exp, f"reading {show(idx)} of a batch {b}", "read", kind=kind, type=cls)
        ctx.require(rt.tree_bytes(x) == before, "mutates", "indexing changed the array", kind=kind)
        arrs = {i: p for i, p in enumerate(idx if isinstance(idx, tuple) else (idx,)) if isinstance(p, jax.Array)}
        if arrs and not has_mask(idx) and rng.random() < 0.25:   # traced index arrays
            def f(x, a):
                parts = [a.get(i, p) for i, p in enumerate(idx if isinstance(idx, tuple) else (idx,))]
                return x[tuple(parts) if isinstance(idx, tuple) else parts[0]]
            rt.check_inst(ctx, C, jax.jit(f)(x, arrs), exp, f"reading {show(idx)} of a batch {b}, compiled", "read:jit", kind=kind, type=cls)
            ctx.ev("compiled")
        ctx.ev("read_" + kind)
        ctx.ev("records_read", lab.size)
        ctx.case("read", cls, b, show(idx), nontrivial=lab.size > 0)
    ctx.sample(dict(type=cls, batch=b, kind=kind, index=show(idx)))


def value_for(C, rng, region):
    """(argument, per-leaf arrays broadcast to the region)"""
    k = int(rng.integers(0, 4))
    if k <= 1:
        v = rt.records(C, rng, region, "uniform")
        return rt.build(C, v), v, "records"
    if k == 2:
        j = int(rng.integers(0, len(region) + 1))
        v = rt.records(C, rng, region[j:], "uniform")
        return rt.build(C, v), {lf.path: np.broadcast_to(v[lf.path], region + lf.shape) for lf in rt.leaves(C)}, "broadcast"
    s = [0, 1, True, np.uint8(1), 1][int(rng.integers(0, 5))]
    return s, {lf.path: np.full(region + lf.shape, np.asarray(s).astype(lf.dtype), lf.dtype) for lf in rt.leaves(C)}, "scalar"


def write(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        nd = int(rng.integers(1, 4))
        b = SHAPES[nd][int(rng.integers(0, len(SHAPES[nd])))]
        N = int(np.prod(b))
        arr = rt.records(C, rng, b, "uniform")
        kind, idx = gen_index(rng, b, unique=True)
        lab = np.arange(N).reshape(b)[host(idx)]
        region = lab.shape
        if len(np.unique(lab)) != lab.size:
            continue
        arg, vals, vk = value_for(C, rng, region)
        if has_mask(idx) and vk == "broadcast":
            one = rt.records(C, rng, (), "uniform")
            arg, vals = rt.build(C, one), {lf.path: np.broadcast_to(one[lf.path], region + lf.shape) for lf in rt.leaves(C)}
        x = rt.build(C, arr)
        before = rt.tree_bytes((x, arg if vk != "scalar" else 0))
        exp = {p: v.copy() for p, v in flatrecs(C, arr, b).items()}
        det = dict(kind=kind, type=cls, batch=b, index=show(idx), value=vk)
        if rng.random() < 0.5:
            how = "set"
            out = x.at[idx].set(arg)
            for p in exp:
                exp[p][lab.reshape(-1)] = vals[p].reshape((lab.size,) + exp[p].shape[1:])
        else:
            how = "set_as_condition"
            only_int = all(isinstance(p, (int, np.integer)) or (hasattr(p, "dtype") and p.dtype != np.bool_) for p in (idx if isinstance(idx, tuple) else (idx,)))
            if only_int:  # negative positions are documented to have no effect there (C16)
                idx = tuple(np.where(np.asarray(p) < 0, np.asarray(p).astype(np.int64) + d, np.asarray(p)).astype(np.int32) for p, d in zip(idx if isinstance(idx, tuple) else (idx,), b))
                idx = idx if len(idx) > 1 else idx[0]
                det["index"] = show(idx)
            cs = region
            r = rng.random()
            npos = len(np.broadcast_shapes(*(np.shape(p) for p in (idx if isinstance(idx, tuple) else (idx,))))) if only_int else len(region)
            if r < 0.25:
                cs = ()
            elif only_int:
                cs = region[:npos]
            elif r < 0.5 and kind not in ("mask", "mask_lead") and len(region) > 1:
                cs = region[:int(rng.integers(1, len(region) + 1))]
            cond = np.asarray(rng.random(cs) < 0.6)
            det["condition"] = cond
            carg = [jnp.asarray(cond), cond, bool(cond) if cs == () else cond][int(rng.integers(0, 3))]
            if only_int and vk == "broadcast":
                one = rt.records(C, rng, region[npos:], "uniform")
                arg, vals = rt.build(C, one), {lf.path: np.broadcast_to(one[lf.path], region + lf.shape) for lf in rt.leaves(C)}
                before = rt.tree_bytes((x, arg))
            out = x.at[idx].set_as_condition(carg, arg)
            full = np.broadcast_to(cond.reshape(cs + (1,) * (len(region) - len(cs))), region).reshape(-1)
            rows = lab.reshape(-1)[full]
            for p in exp:
                exp[p][rows] = vals[p].reshape((lab.size,) + exp[p].shape[1:])[full]
            ctx.ev("conditional_sets")
        exp = {lf.path: exp[lf.path].reshape(b + lf.shape) for lf in rt.leaves(C)}
        rt.check_inst(ctx, C, out, exp, f"at[{show(idx)}].{how} on a batch {b}", how, **det)
        ctx.require(rt.tree_bytes((x, arg if vk != "scalar" else 0)) == before, "mutates", f"{how} changed its arguments", **det)
        ctx.ev("write_" + kind)
        ctx.ev("value_" + vk)
        ctx.ev("records_written", lab.size)
        ctx.case(how, cls, b, show(idx), vk, nontrivial=lab.size > 0)
    ctx.sample(dict(type=cls, batch=b, kind=kind, index=show(idx), value=vk))


def chains(ctx, cls, count, steps):
    """long random sequences of reads and writes against shadow arrays, compiled loops included."""
    C, rng = BY[cls], ctx.rng
    body = jax.jit(lambda x, i, v: jax.lax.fori_loop(0, 3, lambda k, s: s.at[i[k]].set(v[k]), x))
    for it in range(count):
        b = (5, 3)
        sh = rt.records(C, rng, b, "uniform")
        x = rt.build(C, sh)
        old = []
        for s in range(steps):
            r = int(rng.integers(0, 5))
            sh = {p: v.copy() for p, v in sh.items()}
            if r == 0:
                i = int(rng.integers(-5, 5))
                v = rt.records(C, rng, (3,), "uniform")
                x = x.at[i].set(rt.build(C, v))
                for p in sh:
                    sh[p][i] = v[p]
            elif r == 1:
                i, j = int(rng.integers(0, 5)), int(rng.integers(-3, 3))
                x = x.at[i, j].set(x[j, i % 3])
                for p in sh:
                    sh[p][i, j] = sh[p][j, i % 3].copy()
            elif r == 2:
                pm = rng.permutation(5)
                x = x[jnp.asarray(pm)]
                sh = {p: v[pm] for p, v in sh.items()}
            elif r == 3:
                m = rng.random(b) < 0.3
                v = rt.records(C, rng, (), "uniform")
                x = x.at[jnp.asarray(m)].set(rt.build(C, v))
                for p in sh:
                    sh[p][m] = v[p]
            else:
                i = rng.integers(0, 5, size=3)
                v = rt.records(C, rng, (3, 3), "uniform")
                x = body(x, jnp.asarray(i), rt.build(C, v))
                for k in range(3):
                    for p in sh:
                        sh[p][i[k]] = v[p][k]
            old.append((x, sh))
            rt.check_inst(ctx, C, x, sh, f"after step {s} (kind {r}) of a chain of updates", "chain", type=cls)
            y, e = old[int(rng.integers(0, len(old)))]
            rt.check_inst(ctx, C, y, e, "an earlier version after later updates", "chain:old", type=cls)
            ctx.case("chain", cls, it, s, r)
            ctx.ev("chain_steps")


def dropped(ctx, cls, count):
    """positions outside the array have no effect on a set."""
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        n = int(rng.integers(2, 7))
        arr = rt.records(C, rng, n, "uniform")
        pos = rng.permutation(n)[:2].tolist() + [n, n + 5]
        pos = np.array(pos)[rng.permutation(4)]
        v = rt.records(C, rng, 4, "uniform")
        out = rt.build(C, arr).at[jnp.asarray(pos)].set(rt.build(C, v))
        exp = {p: a.copy() for p, a in arr.items()}
        for j, q in enumerate(pos):
            if q < n:
                for p in exp:
                    exp[p][q] = v[p][j]
        rt.check_inst(ctx, C, out, exp, f"set at positions {pos.tolist()} of {n}", "dropped", type=cls)
        ctx.ev("out_of_range_sets")
        ctx.case("dropped", cls, n, pos)
        # through a trailing slice: a mixed index
        nb = (n, 3)
        arr = rt.records(C, rng, nb, "uniform")
        v = rt.records(C, rng, (4, 3), "uniform")
        cond = np.asarray(rng.random(4) < 0.7)
        y = rt.build(C, arr)
        for how, out in (("set", y.at[jnp.asarray(pos), :].set(rt.build(C, v))), ("set_as_condition", y.at[jnp.asarray(pos), :].set_as_condition(jnp.asarray(cond), rt.build(C, v)))):
            exp = {p: a.copy() for p, a in arr.items()}
            for j, q in enumerate(pos):
                if q < n and (how == "set" or cond[j]):
                    for p in exp:
                        exp[p][q] = v[p][j]
            rt.check_inst(ctx, C, out, exp, f"{how} at rows {pos.tolist()} of {n}", "dropped:" + how, type=cls)


def iteration(ctx, cls, count):
    """visiting the records of a batch visits each once, in order, and ends."""
    import itertools
    rng = ctx.rng
    C = BY[cls]
    for _ in range(count):
        b = tuple(int(d) for d in rng.integers(1, 5, size=int(rng.integers(1, 4))))
        if rng.random() < 0.15:
            b = (0,) + b[1:]
        x = rt.build(C, rt.records(C, rng, b))
        before = rt.tree_bytes(x)
        for form, it in {"for": lambda: iter(x), "reversed twice": lambda: iter([x[i] for i in range(b[0] - 1, -1, -1)][::-1]), "enumerate": lambda: (v for _, v in enumerate(x)), "zip": lambda: (v for v, _ in zip(x, itertools.count()))}.items():
            got = list(itertools.islice(it(), b[0] + 3))
            ctx.require(len(got) == b[0], "iteration:count", f"{form} over {b[0]} records visited {len(got)}{' or more' if len(got) > b[0] else ''}", type=cls, batch=b)
            for i, v in enumerate(got):
                rt.same_tree(ctx, v, jax.tree.map(lambda f: f[i], x), f"record {i} visited by {form}", "iteration:record", type=cls, batch=b)
            ctx.ev("visited", len(got))
        if b[0] == 2:
            p, q = x
            rt.same_tree(ctx, q, x[1], "unpacked second record", "iteration:unpack", type=cls, batch=b)

        def f(y):
            return [jax.tree.map(lambda v: v, r) for r in itertools.islice(iter(y), b[0] + 3)]
        got = jax.jit(f)(x) if rng.random() < 0.4 else f(x)
        ctx.require(len(got) == b[0], "iteration:count", f"iterating inside a function visited {len(got)} of {b[0]} records", type=cls, batch=b)
        # two interleaved iterations do not disturb each other
        i1, i2 = iter(x), iter(x)
        a = list(itertools.islice(i1, 1)) + list(itertools.islice(i2, b[0] + 3))
        a += list(itertools.islice(i1, b[0] + 3))
        ctx.require(len(a) == 2 * b[0], "iteration:count", f"two iterations over {b[0]} records visited {len(a)}", type=cls, batch=b)
        s = rt.build(C, rt.records(C, rng, ()))
        try:
            n = len(list(itertools.islice(iter(s), 5)))
        except TypeError:
            ctx.ev("single_refused")
        else:
            ctx.fail("iteration:single", f"iterating over a single record gave {n} items", type=cls)
        ctx.require(rt.tree_bytes(x) == before, "iteration:mutates", "iterating changed the batch", type=cls)
        ctx.case("iteration", cls, b, repr(before[1])[:2000])
