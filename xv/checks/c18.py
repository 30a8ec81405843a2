"""C18: selecting whole records with where / where_no_broadcast."""
import jax
import jax.numpy as jnp
import numpy as np
from xtructure import numpy as xnp

from xv import rt
from xv.rtypes import BY


def rec_where(cls, cond, a, b):
    """per-record reference on host arrays: cond has the batch shape."""
    out = {}
    for lf in rt.leaves(cls):
        x, y = a[lf.path], b[lf.path]
        c = cond.reshape(cond.shape + (1,) * (x.ndim - cond.ndim))
        out[lf.path] = np.where(c, x, y)
    return out


def gen_batch(rng, few):
    if few:
        return [(5,), (3, 3), (2, 1, 3), (3,)][int(rng.integers(0, 4))]
    k = int(rng.integers(0, 7))
    return [(int(rng.integers(1, 9)),), (3,), (2,), (3, 3), (2, 3), (int(rng.integers(1, 5)), int(rng.integers(1, 5))), (2, 1, 3)][k] if rng.random() < 0.95 else [(0,), (0, 3), (2, 0)][int(rng.integers(0, 3))]


def cond_forms(rng, cond):
    r = rng.random()
    if r < 0.5:
        return jnp.asarray(cond)
    if r < 0.7:
        return cond
    if r < 0.85:
        return jnp.asarray(cond.astype(np.int32) * np.int32(rng.choice([1, 2, -1, 256])))
    return cond.tolist() if cond.size and cond.ndim else jnp.asarray(cond.astype(np.uint8))


_jit = jax.jit(xnp.where)
_jit_nb = jax.jit(xnp.where_no_broadcast)


def select(ctx, cls, count, few=False):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        b = gen_batch(rng, few)
        a, y = rt.records(C, rng, b), rt.records(C, rng, b)
        kind = int(rng.integers(0, 6))
        x = rt.build(C, a, host=rng.random() < 0.1)
        f = _jit if few else xnp.where
        cond = rng.random(b) < [0.0, 0.5, 0.5, 1.0][int(rng.integers(0, 4))]
        cond = np.asarray(cond)
        det = dict(type=cls, batch=b, kind=kind, condition=cond)
        if kind <= 2:
            yi = rt.build(C, y)
            before = rt.tree_bytes((x, yi))
            out = f(cond_forms(rng, cond) if not few else jnp.asarray(cond), x, yi)
            rt.check_inst(ctx, C, out, rec_where(C, cond, a, y), "where with one flag per record", "where", **det)
            ctx.require(rt.tree_bytes((x, yi)) == before, "mutates", "where changed its arguments", **det)
            ctx.ev("record_masks")
        elif kind == 3:   # one alternative record, or one per trailing batch axis
            k = int(rng.integers(0, len(b) + 1))
            y1 = rt.records(C, rng, b[k:])
            yb = {lf.path: np.broadcast_to(y1[lf.path], b + lf.shape) for lf in rt.leaves(C)}
            out = f(jnp.asarray(cond), x, rt.build(C, y1))
            rt.check_inst(ctx, C, out, rec_where(C, cond, a, yb), f"where against records of batch {b[k:]}", "where:broadcast", **det)
            ctx.ev("broadcast_alternatives")
        elif kind == 4:   # a scalar condition picks everything from one side
            c = bool(rng.integers(0, 2))
            out = f([c, np.bool_(c), jnp.asarray(c), int(c)][int(rng.integers(0, 4))], x, rt.build(C, y))
            rt.check_inst(ctx, C, out, a if c else y, "where with a scalar condition", "where:scalar", **det)
            ctx.ev("scalar_conditions")
        else:
            s = [0, 1, -1, 7, 1.5, 0.0, True, False, np.float32(2), np.uint8(3), jnp.float16(1), jnp.int32(5), jnp.zeros(()), np.inf][int(rng.integers(0, 14))]
            if few:
                s = jnp.asarray(s)
            try:
                [jnp.result_type(jnp.zeros((), lf.dtype), s) for lf in rt.leaves(C)]
            except Exception:   # JAX itself refuses to promote (8-bit floats)
                continue
            out = f(jnp.asarray(cond), x, s)
            exp = {}
            for lf in rt.leaves(C):
                t = np.dtype(jnp.result_type(jnp.zeros((), lf.dtype), s))
                ctx.require(lf.dtype.kind == "b" or lf.dtype == t or not isinstance(s, int), "harness", f"{lf.dtype} with {s!r} promotes to {t}")
                v = a[lf.path]
                fill = np.asarray(jnp.asarray(s).astype(t))
                with np.errstate(all="ignore"):
                    exp[lf.path] = np.where(cond.reshape(b + (1,) * (v.ndim - len(b))), v.astype(t), fill)
                exp[lf.path] = exp[lf.path].astype(t)
            rt.check_inst(ctx, C, out, exp, f"where with the fill {s!r}", "where:fill", fill=repr(s), **det)
            ctx.ev("scalar_fills")
        ctx.case(cls, b, kind, cond, *rt.keys(C, {p: v for p, v in a.items()}, None)[:3], nontrivial=cond.size > 0)
        ctx.ev("records_selected", cond.size)
    ctx.sample(dict(type=cls, batch=b, condition=cond, kind=kind))


def flags(C, rng, shape):
    """a record-shaped structure of bools, and the bools by field."""
    m = {lf.path: rng.random(shape + lf.shape) < 0.5 for lf in rt.leaves(C)}
    return m


def strict(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    scal = all(lf.shape == () for lf in rt.leaves(C))
    shapes = {lf.shape for lf in rt.leaves(C)}
    for it in range(count):
        b = gen_batch(rng, True)
        a, y = rt.records(C, rng, b), rt.records(C, rng, b)
        x, yi = rt.build(C, a), rt.build(C, y)
        det = dict(type=cls, batch=b)
        m = flags(C, rng, b)
        mi = rt.build(C, m)
        f = _jit_nb if rng.random() < 0.5 else xnp.where_no_broadcast
        out = f(mi, x, yi)
        exp = {p: np.where(m[p], a[p], y[p]) for p in a}
        rt.check_inst(ctx, C, out, exp, "where_no_broadcast with a flag per element", "strict", **det)
        ctx.ev("strict_selections")
        ctx.case(cls, b, *[v for v in m.values()])
        if len(shapes) == 1:
            c = rng.random(b + next(iter(shapes))) < 0.5
            out = f(jnp.asarray(c), x, yi)
            rt.check_inst(ctx, C, out, {p: np.where(c, a[p], y[p]) for p in a}, "where_no_broadcast with an array", "strict:array", **det)
            ctx.ev("strict_arrays")
        # every mismatch is refused
        lf = rt.leaves(C)[int(rng.integers(0, len(rt.leaves(C))))]
        bad = dict(y)
        r = int(rng.integers(0, 7))
        args, name = None, None
        if r == 0:
            t = np.dtype(np.int8) if lf.dtype != np.int8 else np.dtype(np.int32)
            bad[lf.path] = bad[lf.path].astype(np.float32).astype(t) if not rt.is_float(lf.dtype) else np.zeros(bad[lf.path].shape, t)
            args, name = (mi, x, rt.build(C, bad)), "dtype of one field of y"
        elif r == 1:
            bad[lf.path] = np.broadcast_to(bad[lf.path], (2,) + bad[lf.path].shape)
            args, name = (mi, x, rt.build(C, bad)), "shape of one field of y"
        elif r == 2:
            y1 = rt.build(C, rt.records(C, rng, (b[0] + 1,) + b[1:]))
            args, name = (mi, x, y1), "batch of y"
        elif r == 3:
            D = BY["Signed"] if cls != "Signed" else BY["Pair"]
            args, name = (mi, x, rt.build(D, rt.records(D, rng, b))), "type of y"
        elif r == 4:
            args, name = (jnp.asarray(rng.random(b + (2,) * 3) < 0.5), x, yi), "shape of the condition"
        elif r == 5:
            one = rt.build(C, rt.records(C, rng, ()))
            args, name = (mi, x, one), "single record for y"
        else:
            m2 = dict(m)
            m2[lf.path] = m2[lf.path][..., None]
            args, name = (rt.build(C, m2), x, yi), "shape of one condition field"
        try:
            got = xnp.where_no_broadcast(*args)
        except (ValueError, TypeError):
            ctx.ev("refused_mismatches")
        else:
            ctx.fail("strict:accepted", f"where_no_broadcast accepted a mismatch ({name})", field=lf.path, got=rt.arrays_of(C, got), **det)
        if not scal:  # a per-record flag would need broadcasting
            c = jnp.asarray(rng.random(b) < 0.5)
            try:
                got = xnp.where_no_broadcast(c, x, yi)
            except (ValueError, TypeError):
                ctx.ev("refused_mismatches")
            else:
                ctx.fail("strict:broadcast", "where_no_broadcast broadcast a per-record condition", **det)


def mapped(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    f = jax.jit(jax.vmap(lambda c, x, y: xnp.where(c, x, y)))
    for it in range(count):
        b = (3, 4)
        a, y = rt.records(C, rng, b), rt.records(C, rng, b)
        cond = rng.random(b) < 0.5
        out = f(jnp.asarray(cond), rt.build(C, a), rt.build(C, y))
        rt.check_inst(ctx, C, out, rec_where(C, cond, a, y), "where mapped over the first axis", "mapped", type=cls)
        g = jax.vmap(jax.vmap(xnp.where))(jnp.asarray(cond), rt.build(C, a), rt.build(C, y))
        rt.check_inst(ctx, C, g, rec_where(C, cond, a, y), "where mapped over both axes", "mapped2", type=cls)
        ctx.ev("mapped")
        ctx.case(cls, cond, it)


def scalarbatches(ctx, count):
    """records of scalar fields: a condition broadcasts over batch axes as it does over labels; plain arrays too."""
    rng = ctx.rng
    for it in range(count):
        C = BY[["Pair", "U1", "Small"][it % 3]]
        b = (int(rng.integers(2, 4)), int(rng.integers(2, 5)))
        cs = [(1, b[1]), (b[0], 1), (b[1],), (1, 1), (1,)][int(rng.integers(0, 5))]
        cond = rng.random(cs) < 0.5
        a, y = rt.records(C, rng, b), rt.records(C, rng, b)
        out = xnp.where(jnp.asarray(cond), rt.build(C, a), rt.build(C, y))
        rt.check_inst(ctx, C, out, rec_where(C, np.broadcast_to(cond, b), a, y), f"where with a condition of shape {cs}", "broadcast", batch=b)
        ctx.ev("broadcast_conditions")
        v, w = rt.gen_array(rng, np.int32, b), rt.gen_array(rng, np.int32, b)
        g = np.asarray(xnp.where(jnp.asarray(cond), jnp.asarray(v), jnp.asarray(w)))
        ctx.require(np.array_equal(g, np.where(cond, v, w)), "array", "where on plain arrays is wrong")
        ctx.case(C.__name__, b, cs, cond)
    x, m = rt.build(BY["Pair"], rt.records(BY["Pair"], rng, 4)), rt.build(BY["Mat"], rt.records(BY["Mat"], rng, 4))
    c = jnp.array([True, False, True, False])
    for j, args in enumerate([(c, x, m), (c, 0, x), (c, jnp.zeros(4), x), (c, x), (jnp.array([True, False, True]), x, x), (c, m, rt.build(BY["Mat"], rt.records(BY["Mat"], rng, 3)))]):
        try:
            xnp.where(*args)
        except (TypeError, ValueError):
            ctx.ev("refused_mismatches")
        else:
            ctx.fail("refusal", f"where accepted mismatched arguments (case {j})")
        ctx.case("refusal", j)
