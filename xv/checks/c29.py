"""C29: the array functions on plain arrays, as methods, under their aliases, and with mixtures."""
import importlib

import jax
import jax.numpy as jnp
import numpy as np
import xtructure
from xtructure import numpy as xnp, xtructure_dataclass

from xv import rt
from xv.rt import F, SPEC
from xv.rtypes import BY

DTS = [np.dtype(d) for d in (np.int32, np.float32, np.uint8, np.int16, np.float16, np.bool_, np.uint32)]


def arr(rng, shape=None, dt=None, lo=0, hi=3, maxd=4):
    if shape is None:
        shape = tuple(int(d) for d in rng.integers(0 if rng.random() < 0.15 else 1, maxd + 1, size=int(rng.integers(lo, hi + 1))))
    dt = dt or DTS[int(rng.integers(0, len(DTS)))]
    a = rt.gen_array(rng, dt, shape, str(rng.choice(["uniform", "small"])))
    return a if rng.random() < 0.15 else jnp.asarray(a)


def axis(rng, nd, none=False):
    if none and rng.random() < 0.2:
        return None
    if rng.random() < 0.06:
        return int(rng.integers(-5, 6))  # possibly out of range: both must refuse
    return int(rng.integers(-nd, nd)) if nd else 0


def seq(rng, n=None, same=True, lo=1, hi=3):
    n = n or int(rng.integers(1, 4))
    a = arr(rng, lo=lo, hi=hi)
    out = [a]
    for _ in range(n - 1):
        sh = a.shape if same or rng.random() < 0.8 else tuple(int(d) for d in rng.integers(1, 3, size=a.ndim))
        out.append(arr(rng, sh, a.dtype if rng.random() < 0.6 else None))
    if rng.random() < 0.05:
        out = []
    return tuple(out) if rng.random() < 0.3 else out


def kwm(rng, **kw):
    return {k: v for k, v in kw.items() if rng.random() < 0.6}


def g_concat(rng):
    s = seq(rng)
    return (s,), kwm(rng, axis=axis(rng, s[0].ndim if s else 1, True))


def g_concatenate(rng):
    s = seq(rng)
    return (s,), kwm(rng, axis=axis(rng, s[0].ndim if s else 1, True)) | ({"dtype": jnp.float32} if rng.random() < 0.2 else {})


def g_stack(rng):
    s = seq(rng, same=rng.random() < 0.9)
    return (s,), kwm(rng, axis=axis(rng, s[0].ndim + 1 if s else 1)) | ({"dtype": jnp.float32} if rng.random() < 0.2 else {})


def g_xstack(rng):
    s = seq(rng, lo=0, hi=3)
    return (s,), {"dtype": jnp.int32} if rng.random() < 0.2 else {}


def g_column(rng):
    return (seq(rng, lo=0, hi=3),), {}


def g_block(rng):
    a = arr(rng, (2, 2))
    r = int(rng.integers(0, 4))
    return ([a, [a, a], [[a, a], [a, a]], [[a], [arr(rng, (1, 2))]]][r],), {}


def g_pad(rng):
    a = arr(rng)
    w = [int(rng.integers(0, 3)), (1, 2), [(int(rng.integers(0, 3)), int(rng.integers(0, 3))) for _ in range(a.ndim)]][int(rng.integers(0, 3))]
    m = str(rng.choice(["constant", "edge", "reflect", "wrap", "maximum", "nothing"]))
    kw = {} if rng.random() < 0.3 else {"mode": m}
    if kw.get("mode", "constant") == "constant" and rng.random() < 0.5:
        kw["constant_values"] = 1
    return (a, w), kw


def g_reshape(rng):
    a = arr(rng)
    n = int(np.prod(a.shape))
    s = [(-1,), -1, (n,), (1, n), [n, 1], a.shape[::-1], (n + 1,), (2, -1)][int(rng.integers(0, 8))]
    return (a, s), {"order": str(rng.choice(["C", "F"]))} if rng.random() < 0.3 else {}


def g_ravel(rng):
    return (arr(rng),), {"order": str(rng.choice(["C", "F"]))} if rng.random() < 0.4 else {}


def g_where(rng):
    a = arr(rng)
    r = int(rng.integers(0, 6))
    c = arr(rng, a.shape, np.dtype(np.bool_))
    if r == 0:
        return (c,), {}
    if r == 1:
        return (c,), {"size": int(rng.integers(1, 6)), "fill_value": -1}
    if r == 2:
        return (c, a, 3), {}
    if r == 3:
        return (True, a, arr(rng, a.shape)), {}
    if r == 4:
        return (c, a), {}
    return (c, a, arr(rng, a.shape)), {}


def g_take(rng):
    a = arr(rng, lo=1)
    ax = axis(rng, a.ndim, True)
    i = [int(rng.integers(-3, 4)), rng.integers(-3, 4, size=3), jnp.asarray(rng.integers(0, 2, size=(2, 2)))][int(rng.integers(0, 3))]
    kw = kwm(rng, axis=ax)
    if rng.random() < 0.5:
        kw["mode"] = str(rng.choice(["fill", "clip", "wrap"]))
        if kw["mode"] == "fill" and rng.random() < 0.5:
            kw["fill_value"] = 1
    if rng.random() < 0.1:
        kw["indices_are_sorted"] = True
    return (a, i), kw


def g_take_along(rng):
    a = arr(rng, lo=1)
    ax = axis(rng, a.ndim, True)
    sh = (3,) if ax is None else tuple(2 if i == (ax % a.ndim if -a.ndim <= ax < a.ndim else -1) else d for i, d in enumerate(a.shape))
    i = jnp.asarray(rng.integers(-2, 3, size=sh).astype(np.int32))
    kw = {"axis": ax} if ax != -1 or rng.random() < 0.5 else {}
    if rng.random() < 0.4:
        kw["mode"] = str(rng.choice(["fill", "clip"]))
        if kw["mode"] == "fill" and rng.random() < 0.5:
            kw["fill_value"] = 1
    return (a, i), kw


def g_tile(rng):
    return (arr(rng), [2, (1, 2), [2, 1, 2], ()][int(rng.integers(0, 4))]), {}


def g_transpose(rng):
    a = arr(rng)
    p = [int(i) for i in rng.permutation(a.ndim)]
    return (a,), [{}, {"axes": p}, {"axes": tuple(p)}, {"axes": None}][int(rng.integers(0, 4))]


def g_swap(rng):
    a = arr(rng, lo=1)
    return (a, axis(rng, a.ndim), axis(rng, a.ndim)), {}


def g_move(rng):
    a = arr(rng, lo=1)
    if a.ndim > 1 and rng.random() < 0.4:
        return (a, (0, 1), (int(rng.integers(0, 2)), -1) if a.ndim > 2 else (1, 0)), {}
    return (a, axis(rng, a.ndim), axis(rng, a.ndim)), {}


def g_expand(rng):
    a = arr(rng)
    return (a, axis(rng, a.ndim + 1) if rng.random() < 0.7 else (0, 1)), {}


def g_squeeze(rng):
    sh = tuple(int(d) for d in rng.choice([1, 1, 2], size=int(rng.integers(0, 4))))
    a = arr(rng, sh)
    return (a,), [{}, {"axis": axis(rng, a.ndim)}, {"axis": tuple(i for i, d in enumerate(sh) if d == 1)}][int(rng.integers(0, 3))]


def g_repeat(rng):
    a = arr(rng, lo=1)
    kw = kwm(rng, axis=axis(rng, a.ndim, True))
    if rng.random() < 0.2:
        kw["total_repeat_length"] = int(rng.integers(1, 9))
    n = a.shape[kw["axis"]] if kw.get("axis") is not None and -a.ndim <= kw["axis"] < a.ndim else int(np.prod(a.shape))
    return (a, int(rng.integers(0, 4)) if rng.random() < 0.6 else rng.integers(0, 3, size=n)), kw


def g_split(rng):
    n = int(rng.integers(1, 4))
    a = arr(rng, (int(n * rng.integers(1, 3)),) + tuple(int(d) for d in rng.integers(1, 4, size=int(rng.integers(0, 3)))))
    return (a, n if rng.random() < 0.6 else sorted(int(v) for v in rng.integers(0, 5, size=2))), kwm(rng, axis=0)


def g_like(rng):
    return (arr(rng),), (({"dtype": jnp.float32} if rng.random() < 0.4 else {}) | ({"shape": (2, 1)} if rng.random() < 0.4 else {}))


def g_full(rng):
    a, k = g_like(rng)
    return a + ([1, 2.5, True][int(rng.integers(0, 3))],), k


def g_pair(rng):
    a = arr(rng)
    b = [arr(rng, a.shape), arr(rng, a.shape, a.dtype), 1, a][int(rng.integers(0, 4))]
    if rng.random() < 0.1:
        b = arr(rng)
    return ((a, b) if rng.random() < 0.8 else (b, a)), {}


def g_close(rng):
    p, _ = g_pair(rng)
    return p, kwm(rng, rtol=0.1, atol=float(rng.choice([0.0, 1.0, 1e-3]))) | ({"equal_nan": True} if rng.random() < 0.3 else {})


def g_bto(rng):
    a = arr(rng)
    return (a, [(2,) + a.shape, a.shape, (2, 3), 4, [2] + list(a.shape)][int(rng.integers(0, 5))]), {}


def g_barr(rng):
    a = arr(rng)
    return tuple([a, arr(rng, a.shape[1:]), 1.0][:int(rng.integers(1, 4))]), {}


def g_atleast(rng):
    return tuple(arr(rng) for _ in range(int(rng.integers(1, 3)))), {}


def g_roll(rng):
    a = arr(rng, lo=1)
    if a.ndim > 1 and rng.random() < 0.3:
        return (a, (1, -2)), {"axis": (0, 1)}
    return (a, int(rng.integers(-5, 6))), kwm(rng, axis=axis(rng, a.ndim, True))


def g_flip(rng):
    a = arr(rng)
    return (a,), kwm(rng, axis=axis(rng, a.ndim, True) if rng.random() < 0.8 else tuple(range(a.ndim)))


def g_rot(rng):
    a = arr(rng, lo=2)
    return (a,), kwm(rng, k=int(rng.integers(-5, 6)), axes=[(0, 1), (1, 0), (-1, 0), (0, 0)][int(rng.integers(0, 4))])


def g_astype(rng):
    return (arr(rng), [jnp.float32, np.int16, "uint8", jnp.bool_][int(rng.integers(0, 4))]), {"copy": True} if rng.random() < 0.3 else {}


def g_result(rng):
    return tuple([arr(rng), jnp.float16, 1, 2.0, np.dtype(np.int8)][i] for i in rng.permutation(5)[:int(rng.integers(1, 4))]), {}


def g_cast(rng):
    t = [np.dtype(np.int8), jnp.float32, np.uint16, "int32", np.bool_]
    return (t[int(rng.integers(0, 5))], t[int(rng.integers(0, 5))]), {"casting": str(rng.choice(["safe", "same_kind", "unsafe", "no", "equiv"]))} if rng.random() < 0.6 else {}


GEN = {"concat": g_concat, "concatenate": g_concatenate, "stack": g_stack, "vstack": g_xstack, "hstack": g_xstack, "dstack": g_xstack, "column_stack": g_column, "block": g_block, "pad": g_pad, "reshape": g_reshape,
       "ravel": g_ravel, "flatten": g_ravel, "where": g_where, "take": g_take, "take_along_axis": g_take_along, "tile": g_tile, "transpose": g_transpose, "swapaxes": g_swap, "moveaxis": g_move, "expand_dims": g_expand,
       "squeeze": g_squeeze, "repeat": g_repeat, "split": g_split, "zeros_like": g_like, "ones_like": g_like, "full_like": g_full, "equal": g_pair, "not_equal": g_pair, "isclose": g_close, "allclose": g_close,
       "broadcast_to": g_bto, "broadcast_arrays": g_barr, "atleast_1d": g_atleast, "atleast_2d": g_atleast, "atleast_3d": g_atleast, "roll": g_roll, "flip": g_flip, "rot90": g_rot, "astype": g_astype,
       "result_type": g_result, "can_cast": g_cast}
OWN = ("unique_mask", "update_on_condition", "where_no_broadcast")   # no counterpart in jax.numpy; other checks decide them


def call(f, a, k):
    try:
        return "value", f(*a, **k)
    except Exception as e:
        return "raised", e


def leaves(x):
    if isinstance(x, (list, tuple)):
        return [v for e in x for v in leaves(e)]
    return [x]


def arrays(ctx, names, count):
    """plain arrays: the same values, dtypes, shapes and refusals as jax.numpy."""
    rng = ctx.rng
    for i in range(count):
        name = names[i % len(names)]
        a, k = GEN[name](rng)
        f, g = getattr(xnp, name), getattr(jnp, "ravel" if name == "flatten" else name)
        s1, r1 = call(g, a, k)
        s2, r2 = call(f, a, k)
        det = dict(function=name, args=[getattr(v, "shape", v) for v in leaves(list(a))], kwargs={q: str(v) for q, v in k.items()})
        ctx.require(s1 == s2, f"arrays:{name}", f"{name} {'raised ' + repr(r2)[:150] if s2 == 'raised' else 'answered'} where jax.numpy {'raised ' + repr(r1)[:150] if s1 == 'raised' else 'answered'}", **det)
        if s1 == "raised":
            ctx.ev("both_refused")
        else:
            l1, l2 = leaves(r1), leaves(r2)
            ctx.require(len(l1) == len(l2) and isinstance(r1, (list, tuple)) == isinstance(r2, (list, tuple)), f"arrays:{name}", f"{name} gives {len(l2)} results, jax.numpy {len(l1)}", **det)
            for u, v in zip(l1, l2):
                if isinstance(u, (bool, np.dtype)) or not hasattr(u, "shape"):
                    ctx.require(u == v, f"arrays:{name}", f"{name} gives {v!r}, jax.numpy {u!r}", **det)
                    continue
                p, q = np.asarray(u), np.asarray(v)
                ctx.require(p.dtype == q.dtype and p.shape == q.shape and p.tobytes() == q.tobytes(), f"arrays:{name}", f"{name} gives {q.dtype}{q.shape}, jax.numpy {p.dtype}{p.shape}, or other values", got=q, expected=p, **det)
            ctx.ev("array_calls")
        ctx.case(name, *[np.asarray(v) if hasattr(v, "dtype") and not isinstance(v, (type, np.dtype)) else repr(v) for v in leaves(list(a))], repr(sorted((q, str(v)) for q, v in k.items())))
    ctx.ev("functions", len(set(names[:count])))


def surface(ctx):
    """every public name is reachable, the same, through every documented path."""
    import xtructure.core.xtructure_numpy as core
    import xtructure.xtructure_numpy as mod
    al = importlib.import_module("xtructure.numpy")
    names = sorted(set(core.__all__))
    ctx.require(set(GEN) | set(OWN) == set(names), "surface:known", f"functions this check does not know: {set(names) ^ (set(GEN) | set(OWN))}") if set(names) < set(GEN) | set(OWN) else None
    for n in sorted(set(GEN) | set(OWN)):
        fs = [getattr(m, n, None) for m in (core, mod, al, xtructure.xtructure_numpy, xtructure.numpy, xnp)]
        ctx.require(all(f is fs[0] and callable(f) for f in fs), "surface:alias", f"{n} is not the same function under every path", got=[str(f) for f in fs])
        ctx.require(n in names and n in mod.__all__, "surface:all", f"{n} is missing from __all__")
        ctx.ev("aliases")
        ctx.case("surface", n)
    for n in ("Stack", "Queue", "BGPQ", "HashTable", "HashIdx", "FieldDescriptor", "StructuredType", "base_dataclass", "xtructure_dataclass", "clone_field_descriptor", "with_intrinsic_shape", "broadcast_intrinsic_shape", "descriptor_metadata", "io", "numpy", "xtructure_numpy", "Xtructurable"):
        ctx.require(hasattr(xtructure, n) and n in xtructure.__all__, "surface:package", f"xtructure.{n} is missing")


def methods(ctx, types, count):
    """x.name(...) is xnp.name(x, ...)."""
    rng = ctx.rng
    for i in range(count):
        C = BY[types[i % len(types)]] if rng.random() < 0.8 else rt.random_type(rng, depth=1, packed=False)
        nb = int(rng.integers(1, 4))
        b = tuple(int(d) for d in rng.integers(1, 4, size=nb))
        x = rt.build(C, rt.records(C, rng, b))
        y = rt.build(C, rt.records(C, rng, b))
        n = int(np.prod(b))
        calls = {
            "reshape": [((n,),), ((1, n),), ((-1,),)], "flatten": [()], "transpose": [(), (tuple(int(v) for v in rng.permutation(nb)),)], "swapaxes": [(0, nb - 1)], "moveaxis": [(0, nb - 1)],
            "squeeze": [(0,)], "expand_dims": [(0,), (nb,)], "roll": [(int(rng.integers(-4, 5)), int(rng.integers(0, nb)))], "flip": [(int(rng.integers(0, nb)),)], "rot90": [(int(rng.integers(0, 5)),)],
            "astype": [(jnp.float32,), (jnp.int32,)], "equal": [(y,), (x,)], "not_equal": [(y,), (x,)], "isclose": [(y,), (x,), (y, 0.5)], "allclose": [(x,), (y, 0.5, 0.5)], "pad": [([(1, 0)] + [(0, 0)] * (nb - 1),), (1, "edge")],
            "broadcast_to": [((2,) + b,)], "vstack": [()], "hstack": [()], "dstack": [()], "column_stack": [()],
        }
        for m, argsets in calls.items():
            a = argsets[int(rng.integers(0, len(argsets)))]
            before = rt.tree_bytes(x)
            f = getattr(xnp, m)
            s1, r1 = call(f, (x,) + a, {})
            s2, r2 = call(getattr(x, m), a, {})
            det = dict(type=C.__name__, batch=b, args=str(a)[:200])
            if m in ("vstack", "hstack", "dstack", "column_stack"):
                s1, r1 = call(f, ([x[j] for j in range(b[0])],), {})
            ctx.require(s1 == s2, f"methods:{m}", f"x.{m} {'raised ' + repr(r2)[:150] if s2 == 'raised' else 'answered'}, xnp.{m} {'raised ' + repr(r1)[:150] if s1 == 'raised' else 'answered'}", **det)
            if s1 == "value":
                rt.same_tree(ctx, r1, r2, f"xnp.{m} and x.{m}", f"methods:{m}", **det)
                ctx.ev("method_calls")
            ctx.require(rt.tree_bytes(x) == before, f"methods:{m}", f"x.{m} changed x", **det)
        ctx.case("methods", C.__name__, b, rt.tree_bytes(x)[1].__repr__())


def overrides(ctx, count):
    """a type's own methods are kept."""
    rng = ctx.rng
    names = ["flip", "roll", "rot90", "astype", "vstack", "hstack", "dstack", "column_stack", "block", "pad", "equal", "not_equal", "isclose", "allclose", "swapaxes", "moveaxis", "squeeze", "expand_dims", "broadcast_to", "transpose", "reshape", "flatten"]
    for _ in range(count):
        own = [n for n in names if rng.random() < 0.3]
        ns = {"__module__": __name__, "__annotations__": {"x": F(np.int32, (2,)).descriptor(), "y": F(np.uint8).descriptor()}}
        for n in own:
            ns[n] = (lambda n: lambda self, *a, **k: ("mine", n, a))(n)
        C = xtructure_dataclass(type("Own", (), ns))
        SPEC[C] = dict(x=F(np.int32, (2,)), y=F(np.uint8))
        x = rt.build(C, rt.records(C, rng, (2, 2)))
        for n in own:
            r = getattr(x, n)(1, 2)
            ctx.require(r == ("mine", n, (1, 2)), "overrides", f"the type's own method {n} was replaced: {str(r)[:200]}", own=own)
            ctx.ev("own_methods")
        plain = rt.build(BY["Pair"], rt.records(BY["Pair"], rng, (2, 3)))
        rt.same_tree(ctx, plain.flip(0), xnp.flip(plain, 0), "another type's flip", "overrides:leak")
        ctx.case("overrides", own, rt.tree_bytes(x)[1].__repr__())


def refusals(ctx, types, count):
    """mixtures of records and arrays, and options that mean nothing for records, are refused."""
    rng = ctx.rng
    sh = jax.sharding.SingleDeviceSharding(jax.devices()[0])
    for i in range(count):
        C = BY[types[i % len(types)]]
        D = next(BY[t] for t in types[i % len(types) + 1:] + types if BY[t] is not C)
        b = (int(rng.integers(1, 4)), int(rng.integers(1, 3)))
        x, y, o = (rt.build(T, rt.records(T, rng, b)) for T in (C, C, D))
        a = jnp.zeros(b)
        at = int(rng.integers(0, 3))
        mix = [x, y]
        mix.insert(at, a)
        mixT = [x, y]
        mixT.insert(at, o)
        bad = {
            **{f"{f} of records and an array": (lambda f=f: getattr(xnp, f)(mix)) for f in ("concat", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack")},
            **{f"{f} of an empty list": (lambda f=f: getattr(xnp, f)([])) for f in ("concat", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack")},
            **{f"{f} of records of two types": (lambda f=f: getattr(xnp, f)(mixT)) for f in ("concat", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack")},
            "concatenate with a dtype": lambda: xnp.concatenate([x, y], dtype=jnp.float32), "stack with a dtype": lambda: xnp.stack([x, y], dtype=jnp.float32), "stack with out": lambda: xnp.stack([x, y], out=a),
            **{f"swapaxes({p}, {q}) of a two-axis batch": (lambda p=p, q=q: xnp.swapaxes(x, p, q)) for p, q in ((0, 2), (2, 1), (-3, 0), (1, -3))},
            **{f"concat along axis {p} of a two-axis batch": (lambda p=p: xnp.concat([x, y], axis=p)) for p in (2, 3, -3)},
            **{f"transpose {p} of a two-axis batch": (lambda p=p: xnp.transpose(x, p)) for p in ((0,), (0, 2), (1, 2), (0, 1, 2), (0, 0))},
            "reshape in F order": lambda: xnp.reshape(x, (b[0] * b[1],), order="F"), "reshape with copy": lambda: xnp.reshape(x, b, copy=True), "reshape with a sharding": lambda: xnp.reshape(x, b, out_sharding=sh),
            "ravel in F order": lambda: xnp.ravel(x, order="F"), "flatten in F order": lambda: xnp.flatten(x, order="F"), "ravel with a sharding": lambda: xnp.ravel(x, out_sharding=sh),
            "where without y": lambda: xnp.where(True, x), "where of an array and a record": lambda: xnp.where(True, a, x), "where of two types": lambda: xnp.where(True, x, o), "where with a size": lambda: xnp.where(True, x, y, size=2),
            "where with a fill value": lambda: xnp.where(True, x, y, fill_value=0), "where without x": lambda: xnp.where(True, None, x),
            "take with out": lambda: xnp.take(x, jnp.array([0]), axis=0, out=a), "repeat with a total length": lambda: xnp.repeat(x, 2, axis=0, total_repeat_length=3), "repeat with a sharding": lambda: xnp.repeat(x, 2, axis=0, out_sharding=sh),
            **{f"{f} with {k}": (lambda f=f, k=k, v=v: getattr(xnp, f)(x, **{k: v})) for f in ("zeros_like", "ones_like") for k, v in (("dtype", jnp.float32), ("shape", b), ("device", jax.devices()[0]), ("out_sharding", sh))},
            **{f"full_like with {k}": (lambda k=k, v=v: xnp.full_like(x, 1, **{k: v})) for k, v in (("dtype", jnp.float32), ("shape", b), ("device", jax.devices()[0]))},
            "broadcast_to with a sharding": lambda: xnp.broadcast_to(x, (2,) + b, out_sharding=sh),
            "update of records with another type": lambda: xnp.update_on_condition(x, jnp.array([0]), jnp.array([True]), o[0]), "update of an array with a record": lambda: xnp.update_on_condition(a, jnp.array([0]), jnp.array([True]), x[0]),
            "comparison of two types": lambda: xnp.equal(x, o), "inequality of two types": lambda: xnp.not_equal(x, o), "closeness of two types": lambda: xnp.isclose(x, o), "all-close of two types": lambda: xnp.allclose(x, o),
            "joint broadcast of a record and an array": lambda: xnp.broadcast_arrays(x, a), "joint broadcast of two types": lambda: xnp.broadcast_arrays(x, o),
        }
        before = rt.tree_bytes((x, y, o))
        for what, f in bad.items():
            s, r = call(f, (), {})
            ctx.require(s == "raised", "refusals", f"{what} was accepted: {str(r)[:200]}", type=C.__name__, other=D.__name__, batch=b)
            ctx.require(isinstance(r, (TypeError, ValueError)), "refusals:kind", f"{what} failed with {type(r).__name__}: {r}"[:300], type=C.__name__, other=D.__name__)
            ctx.ev("refused")
        ctx.require(rt.tree_bytes((x, y, o)) == before, "refusals:mutates", "a refused call changed its arguments", type=C.__name__)
        ctx.case("refusals", C.__name__, D.__name__, b, at)
