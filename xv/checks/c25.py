"""C25: equality, inequality, elementwise comparison and closeness against host arithmetic."""
import copy

import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import numpy as xnp

from xv import rt
from xv.rtypes import BY

SHAPES = [(), (1,), (3,), (4,), (2, 3), (3, 3), (2, 1, 2), (0,), (7,)]
BIG = (3001,)
jeq, jne = jax.jit(lambda a, b: a == b), jax.jit(lambda a, b: a != b)


def gen_shape(rng, big=False):
    return BIG if big else SHAPES[int(rng.integers(0, len(SHAPES)))]


def host_equal(C, a, b):
    """numpy equality over every element of every field."""
    return {lf.path: np.asarray(a[lf.path].astype(np.float64) == b[lf.path].astype(np.float64)) if rt.is_float(lf.dtype) else np.asarray(a[lf.path] == b[lf.path]) for lf in rt.leaves(C)}


def nudge(rng, C, arr, path=None):
    """a copy that differs in exactly one element, by the least amount its type allows (or a random one)."""
    out = {p: v.copy() for p, v in arr.items()}
    lv = [lf for lf in rt.leaves(C) if out[lf.path].size]
    lf = lv[int(rng.integers(0, len(lv)))]
    a = out[lf.path]
    flat = a.reshape(-1)
    j = int(rng.choice([0, flat.size - 1, rng.integers(0, flat.size)]))
    v = flat[j]
    if lf.dtype == np.bool_:
        flat[j] = not v
    elif rt.is_float(lf.dtype):
        u = np.dtype(f"u{lf.dtype.itemsize}")
        bits = np.array([v], lf.dtype).view(u)
        w = bits ^ u.type(1)
        n = w.view(lf.dtype)[0]
        f = float(n)
        if float(v) == 0.0 or f == 0.0 or f != f or abs(f) < float(ml_dtypes.finfo(lf.dtype).smallest_normal):
            n = lf.dtype.type(1.0 if float(v) != 1.0 else 2.0)
        flat[j] = n
    else:
        u = flat.view(f"u{lf.dtype.itemsize}")
        u[j] ^= u.dtype.type(1 << int(rng.integers(0, 8 * lf.dtype.itemsize)))
    out[lf.path] = flat.reshape(a.shape)
    return out, lf, j


def as_bool(v):
    a = np.asarray(v)
    assert a.shape == () and a.dtype == np.bool_, (a.shape, a.dtype)
    return bool(a)


def equality(ctx, cls, count, big=False):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        b = gen_shape(rng, big)
        a = rt.records(C, rng, b)
        kind = ["same", "copy", "one", "one", "one", "few", "zero", "nan", "other"][int(rng.integers(0, 9))]
        e, det = None, dict(type=cls, batch=b, kind=kind)
        size = sum(v.size for v in a.values())
        y = {p: v.copy() for p, v in a.items()}
        if kind == "one" and size:
            y, lf, j = nudge(rng, C, a)
            det.update(field=".".join(lf.path), element=j)
        elif kind == "few" and size:
            for _ in range(3):
                y = nudge(rng, C, y)[0]
        elif kind == "zero":   # -0.0 equals 0.0
            for lf in rt.leaves(C):
                if rt.is_float(lf.dtype) and a[lf.path].size:
                    a[lf.path].reshape(-1)[0] = 0.0
                    y[lf.path].reshape(-1)[0] = -0.0
        elif kind == "nan":
            fl = [lf for lf in rt.leaves(C) if rt.is_float(lf.dtype) and a[lf.path].size]
            if fl:
                lf = fl[int(rng.integers(0, len(fl)))]
                j = int(rng.integers(0, a[lf.path].size))
                a[lf.path] = np.array(a[lf.path])
                a[lf.path].reshape(-1)[j] = np.nan
                y[lf.path].reshape(-1)[j] = np.nan
        elif kind == "other":
            y = rt.records(C, rng, b)
        eq = host_equal(C, a, y)
        e = all(bool(v.all()) for v in eq.values())
        X, Y = rt.build(C, a, host=rng.random() < 0.1), rt.build(C, y)
        if kind == "same":
            Y, e = X, all(bool(v.all()) for v in host_equal(C, a, a).values())
        before = rt.tree_bytes((X, Y))
        for how, f, g in (("", lambda: X == Y, lambda: X != Y), ("swapped ", lambda: Y == X, lambda: Y != X), ("compiled ", lambda: jeq(X, Y), lambda: jne(X, Y))):
            if how == "compiled " and it % 4:
                continue
            q, n = as_bool(f()), as_bool(g())
            ctx.require(q == e, "equal", f"{how}== gives {q} for arrays that are {'equal' if e else 'not equal'}", differing=[(".".join(p), int((~v).sum())) for p, v in eq.items() if not v.all()], **det)
            ctx.require(n == (not e), "not_equal", f"{how}!= gives {n} for arrays that are {'equal' if e else 'not equal'}", **det)
            ctx.ev("equalities")
        ctx.ev("equal_pairs" if e else "unequal_pairs")
        # elementwise
        m = rng.random() < 0.5
        for nm, f, w in (("equal", (X.equal(Y) if m else xnp.equal(X, Y)), eq), ("not_equal", (X.not_equal(Y) if m else xnp.not_equal(X, Y)), {p: ~v for p, v in eq.items()})):
            if kind == "same":
                w = host_equal(C, a, a)
                w = w if nm == "equal" else {p: ~v for p, v in w.items()}
            got = rt.arrays_of(C, f)
            for lf in rt.leaves(C):
                g = got[lf.path]
                ctx.require(g.dtype == np.bool_ and g.shape == w[lf.path].shape and np.array_equal(g, w[lf.path]), "element:" + nm, f"elementwise {nm} of field {'.'.join(lf.path)} is wrong", got=g, expected=w[lf.path], **det)
                ctx.ev("elements_compared", g.size)
        ctx.require(rt.tree_bytes((X, Y)) == before, "mutates", "a comparison changed its arguments", **det)
        # record by record
        if len(b) == 1 and b[0] and it % 3 == 0:
            n = b[0]
            per = np.stack([v.reshape(n, -1).all(axis=1) for v in (eq if kind != "same" else host_equal(C, a, a)).values() if v.size], axis=0).all(axis=0)
            for nm, f, w in (("==", jax.vmap(lambda u, v: u == v), per), ("!=", jax.vmap(lambda u, v: u != v), ~per)):
                g = np.asarray(f(X, Y))
                ctx.require(np.array_equal(g, w), "mapped", f"record-wise {nm} under vmap is wrong", got=g, expected=w, **det)
                ctx.ev("mapped")
        ctx.case("eq", cls, b, kind, it, nontrivial=size > 0)
    # another type is never equal
    Z = rt.build(BY["Board"] if cls != "Board" else BY["U1"], rt.records(BY["Board"] if cls != "Board" else BY["U1"], rng, (3,)))
    X = rt.build(C, rt.records(C, rng, (3,)))
    for o in (Z, 3, "x", None, (1, 2)):
        ctx.require((X == o) is False and (X != o) is True, "other_type", f"== with {type(o).__name__} is {X == o}, != is {X != o}")
        ctx.ev("other_types")
    ctx.sample(det)


def broadcast(ctx, cls, count):
    """elementwise comparison against one record broadcast over the batch."""
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        b = [(4,), (2, 3), (3,)][it % 3]
        a, o = rt.records(C, rng, b, "small"), rt.records(C, rng, (), "small")
        if len(b) == 2 and rng.random() < 0.4:
            o = rt.records(C, rng, (1, 3), "small")
        w = {p: v == np.broadcast_to(o[p], v.shape) for p, v in a.items()}
        X, O = rt.build(C, a), rt.build(C, o)
        for f, ww in ((xnp.equal(X, O), w), (xnp.not_equal(O, X), {p: ~v for p, v in w.items()})):
            got = rt.arrays_of(C, f)
            for p in w:
                ctx.require(np.array_equal(got[p], ww[p]), "broadcast", f"comparison of a batch {b} with one record: field {'.'.join(p)}", got=got[p], expected=ww[p])
        ctx.ev("broadcasts")
        ctx.case("broadcast", cls, b, it)


TOLS = [(1e-5, 1e-8), (1e-2, 0.0), (0.0, 0.5), (0.0, 0.0), (1e-3, 1e-3), (0.5, 2.0), (1e-5, 1.0)]


def closeness(ctx, cls, count):
    """|a-b| <= atol + rtol*|b| for every element, judged where rounding cannot decide."""
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        b = gen_shape(rng)
        y = rt.records(C, rng, b)
        rtol, atol = TOLS[int(rng.integers(0, len(TOLS)))]
        en = bool(rng.integers(0, 2))
        plan = ["near", "one_far", "one_far", "far", "same", "nan"][int(rng.integers(0, 6))]
        a = {}
        lv = rt.leaves(C)
        tgt = lv[int(rng.integers(0, len(lv)))].path
        for lf in lv:
            v = y[lf.path]
            if lf.dtype == np.bool_:
                a[lf.path] = v.copy() if plan != "far" else ~v
                continue
            if not rt.is_float(lf.dtype):
                w = v.astype(np.int64)
                lim = np.iinfo(lf.dtype)
                lo, hi = int(lim.min), min(int(lim.max), 2 ** 20)
                v = np.clip(w, max(lo, -2 ** 20), hi).astype(lf.dtype) if lf.dtype.itemsize > 2 else v    # differences exact in float32
                y[lf.path] = v
            x = v.astype(np.float64)
            if rt.is_float(lf.dtype):     # differences must stay in the normal range
                v = np.where((x != 0) & (np.abs(x) < 1e-3), np.asarray(0.5).astype(lf.dtype), v).astype(lf.dtype)
                y[lf.path], x = v, v.astype(np.float64)
            tol = atol + rtol * np.abs(x)
            fac = {"near": 0.25, "same": 0.0, "nan": 0.0, "one_far": 0.0, "far": 4.0}[plan]
            d = fac * np.where(np.isfinite(tol), tol, 0.0) * rng.choice([-1, 1], size=x.shape)
            with np.errstate(all="ignore"):
                w = x + d
                if not rt.is_float(lf.dtype):
                    w = np.clip(np.round(w), lim.min, lim.max)
                a[lf.path] = np.where(d == 0, v, w.astype(lf.dtype)).astype(lf.dtype)
        det = dict(type=cls, batch=b, plan=plan, rtol=rtol, atol=atol, equal_nan=en)
        if plan in ("one_far", "nan") and a[tgt].size:
            j = int(rng.integers(0, a[tgt].size))
            a[tgt] = np.array(a[tgt])
            dt = a[tgt].dtype
            if dt == np.bool_:
                a[tgt].reshape(-1)[j] ^= True
            elif plan == "nan" and rt.is_float(dt):
                a[tgt].reshape(-1)[j] = np.nan
                if rng.random() < 0.6:
                    y[tgt] = np.array(y[tgt])
                    y[tgt].reshape(-1)[j] = np.nan
            else:
                c = float(y[tgt].reshape(-1)[j])
                n = 8 * (atol + rtol * abs(c)) + 1
                n = c + n if c < 0 or not np.isfinite(c) else c - n
                if rt.is_float(dt):
                    a[tgt].reshape(-1)[j] = np.asarray(n if np.isfinite(n) else 1.0).astype(dt)
                else:
                    i = np.iinfo(dt)
                    a[tgt].reshape(-1)[j] = min(max(int(n), i.min), i.max)
            det.update(field=".".join(tgt), element=j)
        X, Y = rt.build(C, a), rt.build(C, y)
        m = rng.random() < 0.5
        kw = dict(rtol=rtol, atol=atol, equal_nan=en)
        default = (rtol, atol) == (1e-5, 1e-8) and not en and rng.random() < 0.5
        if default:
            kw = {}
        pos = rng.random() < 0.3 and not default
        close = (X.isclose(Y, **kw) if m else xnp.isclose(X, Y, rtol, atol, en) if pos else xnp.isclose(X, Y, **kw))
        alls = (X.allclose(Y, **kw) if m else xnp.allclose(X, Y, rtol, atol, en) if pos else xnp.allclose(X, Y, **kw))
        got = rt.arrays_of(C, close)
        conj = True
        for lf in lv:
            p, g = lf.path, got[lf.path]
            ctx.require(g.dtype == np.bool_ and g.shape == a[p].shape, "close:form", f"isclose of field {'.'.join(p)} gives {g.dtype}{g.shape}", **det)
            conj = conj and bool(g.all())
            u, v = a[p].astype(np.float64), y[p].astype(np.float64)
            with np.errstate(all="ignore"):
                diff, tol = np.abs(u - v), atol + rtol * np.abs(v)
                yes = (u == v) | (np.isfinite(u) & np.isfinite(v) & (diff <= 0.6 * tol))
                no = (u != v) & ~(np.isfinite(u) & np.isfinite(v) & (diff <= 1.5 * tol))
            nn = np.isnan(u) & np.isnan(v)
            yes, no = np.where(nn, en, yes), np.where(nn, not en, no)
            if lf.dtype == np.bool_:
                yes, no = a[p] == y[p], (a[p] != y[p]) & (atol + rtol < 0.9)
            bad = (yes & ~g) | (no & g)
            ctx.require(not bad.any(), "close", f"isclose of field {'.'.join(p)} is wrong at {np.argwhere(bad)[:1].tolist()}: {u[bad][:1]} against {v[bad][:1]} gives {g[bad][:1]}", **det)
            ctx.ev("judged_elements", int((yes | no).sum()))
            ctx.ev("far_elements", int(no.sum()))
        ctx.require(as_bool(alls) == conj, "allclose", f"allclose is {bool(alls)} but the conjunction of isclose is {conj}", **det)
        ctx.ev("allclose_" + ("true" if conj else "false"))
        ctx.case("close", cls, b, plan, rtol, atol, it)
    ctx.sample(det)
