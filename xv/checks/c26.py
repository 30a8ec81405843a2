"""C26: filling, casting, broadcasting, promotion and cast queries, field by field."""
import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import numpy as xnp

from xv import rt
from xv.rtypes import BY, bf16

SHAPES = [(), (1,), (3,), (4,), (2, 3), (3, 3), (2, 1, 2), (0,), (5,)]


def gen_shape(rng):
    return SHAPES[int(rng.integers(0, len(SHAPES)))]


def field(x, path):
    for p in path:
        x = getattr(x, p)
    return x


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001 - both sides must agree on refusing
        return None, e


def agree(ctx, C, what, key, run, ref, numpy_ref=None, **det):
    """run() on the record array against ref(path) on every plain field; refusals must agree."""
    lv = rt.leaves(C)
    refs = [attempt(lambda lf=lf: ref(lf.path)) for lf in lv]
    out, err = attempt(run)
    bad = [e for _, e in refs if e is not None]
    if bad:
        ctx.require(err is not None, key + ":accepted", f"{what}: a plain field refuses ({bad[0]!r:.150}) but the record array is accepted", **det)
        ctx.ev("refusals_agree")
        return None
    ctx.require(err is None, key + ":refused", f"{what}: every plain field is accepted but the record array is refused: {err!r:.300}", **det)
    ctx.require(type(out) is C, key + ":type", f"{what}: the result is a {type(out).__name__}", **det)
    for lf, (r, _) in zip(lv, refs):
        g, e = np.asarray(field(out, lf.path)), np.asarray(r)
        nm = ".".join(lf.path)
        ctx.require(g.dtype == e.dtype and g.shape == e.shape, key + ":form", f"{what}: field {nm} is {g.dtype}{g.shape}, the plain field gives {e.dtype}{e.shape}", **det)
        ctx.require(g.tobytes() == e.tobytes(), key + ":value", f"{what}: field {nm} differs from the plain field", got=g, expected=e, **det)
        ctx.ev("fields_compared")
    return out


def fill(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        b = gen_shape(rng)
        arr = rt.records(C, rng, b)
        x = rt.build(C, arr, host=rng.random() < 0.15)
        v = [0, 1, True, False, 3, 1.0, 2.5, jnp.int32(2), np.float32(1.0), np.uint8(7), 100, jnp.asarray(True)][int(rng.integers(0, 12))]
        before = rt.tree_bytes(x)
        det = dict(type=cls, batch=b, fill=repr(v))
        out = agree(ctx, C, f"full_like with {v!r}", "full_like", lambda: xnp.full_like(x, v), lambda p: jnp.full_like(arr[p], v), **det)
        if out is not None:
            got = rt.arrays_of(C, out)
            for lf in rt.leaves(C):    # the declared type and shape survive, and the value is the one asked for
                e = np.asarray(v).astype(lf.dtype)
                ctx.require(got[lf.path].dtype == lf.dtype and got[lf.path].shape == b + lf.shape and bool(np.all(got[lf.path] == e)), "full_like:host", f"full_like({v!r}): field {'.'.join(lf.path)}", got=got[lf.path], expected=e, **det)
        for nm, f, e in (("zeros_like", xnp.zeros_like, 0), ("ones_like", xnp.ones_like, 1)):
            got = rt.arrays_of(C, (jax.jit(f) if it % 8 == 0 else f)(x))
            for lf in rt.leaves(C):
                g = got[lf.path]
                ctx.require(g.dtype == lf.dtype and g.shape == b + lf.shape and bool(np.all(g == np.asarray(e).astype(lf.dtype))), nm, f"{nm}: field {'.'.join(lf.path)} is {g.dtype}{g.shape}", got=g, **det)
                ctx.ev("filled_fields")
        ctx.require(rt.tree_bytes(x) == before, "mutates", "a fill helper changed its argument", **det)
        ctx.case("fill", cls, b, repr(v), it)
    ctx.sample(det)


DT = [np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.float16, np.float32, bf16, np.bool_, jnp.float32, jnp.int32, "uint8", "float32", jnp.bfloat16, bool, int, float]
STD = [np.dtype(d) for d in (np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.float16, np.float32, np.bool_)]


def cast(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        b = gen_shape(rng)
        arr = rt.records(C, rng, b, "small" if rng.random() < 0.5 else "mix")
        x = rt.build(C, arr)
        d = DT[int(rng.integers(0, len(DT)))]
        det = dict(type=cls, batch=b, dtype=str(d))
        before = rt.tree_bytes(x)
        how = int(rng.integers(0, 4))
        run = [lambda: xnp.astype(x, d), lambda: x.astype(d), lambda: xnp.astype(x, d, copy=True), lambda: jax.jit(lambda t: xnp.astype(t, d))(x)][how]
        out = agree(ctx, C, f"astype {d}", "astype", run, lambda p: jnp.asarray(arr[p]).astype(d), **det)
        ctx.require(out is not None, "astype:refused", f"astype {d} refused", **det)
        got = rt.arrays_of(C, out)
        w = jnp.dtype(d) if d not in (int, float) else np.dtype(np.int32 if d is int else np.float32)
        for lf in rt.leaves(C):    # host arithmetic where both types hold the value
            a, g = arr[lf.path], got[lf.path]
            ctx.require(g.dtype == w and g.shape == a.shape, "astype:form", f"astype {d}: field {'.'.join(lf.path)} is {g.dtype}{g.shape}", **det)
            v = a.astype(np.float64)
            if lf.dtype == np.bool_ or w == np.bool_:
                ok = np.isfinite(v)
                e = v != 0 if w == np.bool_ else v
            else:
                lim = (0.0, 127.0) if w.kind not in "iu" else (max(float(np.iinfo(w).min), -2.0 ** 24), min(float(np.iinfo(w).max), 2.0 ** 24))
                ok = (v == np.round(v)) & (v >= lim[0]) & (v <= lim[1])
                e = v
            ctx.require(bool(np.all(np.where(ok, g.astype(np.float64) == np.asarray(e).astype(np.float64), True))), "astype:host", f"astype {d}: field {'.'.join(lf.path)} changed values both types hold", got=g, source=a, **det)
            ctx.ev("cast_values", int(ok.sum()))
        ctx.require(rt.tree_bytes(x) == before, "mutates", "astype changed its argument", **det)
        # queries
        for casting in ("safe", "same_kind", "no", "equiv", "unsafe"):
            q = bool(xnp.can_cast(x, d, casting=casting)) if casting != "safe" or rng.random() < 0.5 else bool(xnp.can_cast(x, d))
            e = all(bool(jnp.can_cast(lf.dtype, d, casting=casting)) for lf in rt.leaves(C))
            ctx.require(q == e, "can_cast", f"can_cast to {d} ({casting}) is {q}; over the fields it is {e}", fields=[(".".join(lf.path), str(lf.dtype)) for lf in rt.leaves(C)], **det)
            if all(lf.dtype in STD for lf in rt.leaves(C)) and w in STD and d not in (int, float):
                e2 = all(np.can_cast(lf.dtype, w, casting=casting) for lf in rt.leaves(C))
                ctx.require(q == e2, "can_cast:host", f"can_cast to {d} ({casting}) is {q}; numpy says {e2} over the fields", **det)
            ctx.ev("can_cast_" + ("yes" if q else "no"))
        ctx.case("cast", cls, b, str(d), how, it)
    ctx.sample(det)


def random_cast_of(C, rng, x, one=False):
    """the record array with the types of some fields changed: (instance, {path: dtype})."""
    lv = rt.leaves(C)
    pick = {lv[int(rng.integers(0, len(lv)))].path} if one else {lf.path for lf in lv if rng.random() < 0.6}
    types = {lf.path: (np.dtype([np.uint8, np.int16, np.float32, np.float16, np.int32, np.uint32, np.bool_, bf16][int(rng.integers(0, 8))]) if lf.path in pick else lf.dtype) for lf in lv}
    leaves, td = jax.tree_util.tree_flatten(x)
    return jax.tree_util.tree_unflatten(td, [jnp.asarray(l).astype(types[lf.path]) for l, lf in zip(leaves, lv)]), types


def promote(ctx, cls, count):
    """result types and cast queries between two record arrays whose fields have different types."""
    C, rng = BY[cls], ctx.rng
    lv = rt.leaves(C)
    for it in range(count):
        x = rt.build(C, rt.records(C, rng, (2,)))
        ys = [random_cast_of(C, rng, x, one=rng.random() < 0.5) for _ in range(int(rng.integers(1, 3)))]
        tys = [{lf.path: lf.dtype for lf in lv}] + [t for _, t in ys]
        args = [x] + [y for y, _ in ys]
        want, errs = {}, []
        for lf in lv:
            r, e = attempt(lambda: np.dtype(jnp.result_type(*[t[lf.path] for t in tys])))
            want[lf.path] = r
            errs += [e] if e else []
        out, err = attempt(lambda: xnp.result_type(*args))
        det = dict(type=cls, types=[{".".join(p): str(t) for p, t in ty.items()} for ty in tys[1:]])
        ctx.require((err is not None) == bool(errs), "result_type:refused", f"result_type on records: {err!r:.200}; on the fields: {errs[:1]!r:.200}", **det)
        if not errs:
            for lf in lv:
                ctx.require(np.dtype(field(out, lf.path)) == want[lf.path], "result_type", f"result type of field {'.'.join(lf.path)} is {field(out, lf.path)}, expected {want[lf.path]}", **det)
                ctx.ev("promoted_fields")
        one = xnp.result_type(x)
        for lf in lv:
            ctx.require(np.dtype(field(one, lf.path)) == lf.dtype, "result_type:one", f"result type of one record array, field {'.'.join(lf.path)}", **det)
        for casting in ("safe", "same_kind", "no", "unsafe", "equiv"):
            y, ty = ys[0]
            for a, ta, c, tc in ((x, tys[0], y, ty), (y, ty, x, tys[0])):
                q = bool(xnp.can_cast(a, c, casting=casting))
                e = all(bool(jnp.can_cast(ta[lf.path], tc[lf.path], casting=casting)) for lf in lv)
                ctx.require(q == e, "can_cast:pair", f"can_cast between record arrays ({casting}) is {q}; over the fields it is {e}", **det)
                ctx.ev("pair_" + ("yes" if q else "no"))
        ctx.case("promote", cls, str(det["types"]), it)
    ctx.sample(det)


BC = [((3,), ()), ((3, 1), (1, 4)), ((4,), (3, 4)), ((2, 1, 3), (2, 1)), ((), ()), ((1,), (5,)), ((3,), (3,)), ((0,), (1,)), ((2, 3), (4,)), ((3,), (2,)), ((1, 1), (2, 3))]


def broadcast(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    for it in range(count):
        k = int(rng.integers(0, len(BC)))
        shapes = list(BC[k])
        if rng.random() < 0.3:
            shapes.append(BC[k][int(rng.integers(0, 2))])
        if rng.random() < 0.5:
            shapes = shapes[::-1]
        if rng.random() < 0.1:
            shapes = shapes[:1]
        arrs = [rt.records(C, rng, s) for s in shapes]
        xs = [rt.build(C, a) for a in arrs]
        before = rt.tree_bytes(xs)
        det = dict(type=cls, shapes=shapes)
        run = xnp.broadcast_arrays if it % 5 else (lambda *a: list(jax.jit(lambda *t: xnp.broadcast_arrays(*t))(*a)))
        out, err = attempt(lambda: run(*xs))
        exp, e2 = attempt(lambda: {p: np.broadcast_arrays(*[a[p] for a in arrs]) for p in arrs[0]})
        ctx.require((err is None) == (e2 is None), "broadcast_arrays:refused", f"broadcast_arrays of batches {shapes}: {err!r:.200}, plain fields: {e2!r:.200}", **det)
        if e2 is None:
            ctx.require(len(out) == len(xs), "broadcast_arrays:count", f"{len(out)} results for {len(xs)} arguments", **det)
            try:
                bs = np.broadcast_shapes(*shapes)
            except ValueError:
                bs = None
            for i, o in enumerate(out):
                rt.check_inst(ctx, C, o, {p: v[i] for p, v in exp.items()}, f"result {i} of broadcast_arrays over batches {shapes}", "broadcast_arrays", **det)
                if bs is not None:
                    ctx.require(o.batch_shape == bs, "broadcast_arrays:batch", f"result {i} has batch {o.batch_shape}, expected {bs}", **det)
            ctx.ev("broadcast_groups")
        else:
            ctx.ev("broadcast_refused")
        ctx.require(rt.tree_bytes(xs) == before, "mutates", "broadcast_arrays changed its arguments", **det)
        # broadcast_to: every field to the given shape, exactly as for a plain array
        to = [(4,), (2, 3), (3,), (5, 3), (2, 3, 3), (), (3, 2)][int(rng.integers(0, 7))]
        m = rng.random() < 0.5
        out, err = attempt(lambda: xs[0].broadcast_to(to) if m else xnp.broadcast_to(xs[0], to))
        exp, e2 = attempt(lambda: {p: np.broadcast_to(v, to) for p, v in arrs[0].items()})
        ctx.require((err is None) == (e2 is None), "broadcast_to:refused", f"broadcast_to {to} of a batch {shapes[0]}: {err!r:.200}, plain fields: {e2!r:.200}", **det)
        if e2 is None:
            rt.check_inst(ctx, C, out, exp, f"broadcast_to {to} of a batch {shapes[0]}", "broadcast_to", **det)
            ctx.ev("broadcast_to")
        # at least n axes
        n = int(rng.integers(1, 4))
        f = [xnp.atleast_1d, xnp.atleast_2d, xnp.atleast_3d][n - 1]
        g = [np.atleast_1d, np.atleast_2d, np.atleast_3d][n - 1]
        outs = f(*xs)
        outs = [outs] if len(xs) == 1 else outs
        ctx.require(len(outs) == len(xs), "atleast:count", f"atleast_{n}d gives {len(outs)} results for {len(xs)} arguments", **det)
        for a, o in zip(arrs, outs):
            rt.check_inst(ctx, C, o, {p: g(v) for p, v in a.items()}, f"atleast_{n}d", f"atleast_{n}d", **det)
            ctx.ev("atleast")
        ctx.case("broadcast", cls, shapes, to, n, it)
    ctx.sample(det)


def plain(ctx, count):
    """the same functions on plain arrays are the plain operations."""
    rng = ctx.rng
    for it in range(count):
        dt = STD[int(rng.integers(0, len(STD)))]
        a, b = rt.gen_array(rng, dt, (2, 3), "small"), rt.gen_array(rng, dt, (3,), "small")
        d = STD[int(rng.integers(0, len(STD)))]
        A, B = jnp.asarray(a), jnp.asarray(b)
        pairs = [("full_like", xnp.full_like(A, 1), np.full_like(a, 1)), ("full_like", xnp.full_like(A, 1, dtype=d, shape=(4,)), np.full((4,), 1, d)), ("zeros_like", xnp.zeros_like(A), np.zeros_like(a)), ("ones_like", xnp.ones_like(A), np.ones_like(a)),
                 ("astype", xnp.astype(jnp.abs(A) if dt != np.bool_ else A, d), (np.abs(a) if dt != np.bool_ else a).astype(d)), ("broadcast_to", xnp.broadcast_to(B, (4, 3)), np.broadcast_to(b, (4, 3))),
                 ("equal", xnp.equal(A, B), np.equal(a, b)), ("not_equal", xnp.not_equal(A, B), np.not_equal(a, b)), ("atleast_2d", xnp.atleast_2d(B), np.atleast_2d(b)), ("atleast_3d", xnp.atleast_3d(B), np.atleast_3d(b))]
        pairs += [("broadcast_arrays", g, e) for g, e in zip(xnp.broadcast_arrays(A, B), np.broadcast_arrays(a, b))]
        for nm, g, e in pairs:
            g = np.asarray(g)
            ctx.require(g.dtype == e.dtype and g.shape == e.shape and np.array_equal(g, e), "plain:" + nm, f"{nm} on a plain {dt} array", got=g, expected=e)
            ctx.ev("plain_results")
        ctx.require(xnp.can_cast(dt, d) == np.can_cast(dt, d) and np.dtype(xnp.result_type(A, B)) == dt and bool(xnp.allclose(A, A)) and bool(np.all(xnp.isclose(A, A))), "plain:queries", f"queries on plain arrays of {dt}, {d}")
        ctx.case("plain", str(dt), str(d), it)
