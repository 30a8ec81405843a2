"""C20: shape, classification, dtypes, length, default and random values against the declarations kept in rt.SPEC."""
import copy
import pickle

import jax
import jax.numpy as jnp
import numpy as np
from xtructure import FieldDescriptor, StructuredType, xtructure_dataclass
from xtructure import numpy as xnp

from xv import rt
from xv.rt import F, SPEC, mk
from xv.rtypes import ALL, BY

G = globals()
Twins = mk(G, "Twins", dict(a=F(np.uint32, (4,)), b=F(np.uint32, (4,)), n=F(nested=BY["Vec"]), m=F(nested=BY["Vec"]), arr=F(nested=BY["Vec"], shape=(3,)), f=F(np.float32, (6,)), g=F(np.float32, (6,)), h=F(np.float16, (9,)), q=F(np.bool_, (70,)),
                          r=F(np.bool_, (70,)), s=F(np.int32, (4,)), t=F(np.int16, (8,)), u=F(np.int8, (16,)), v=F(np.uint8, (16,))))


def gen_shape(rng):
    k = int(rng.integers(0, 9))
    if k == 0:
        return ()
    if k == 1:
        return (int(rng.integers(1, 9)),)
    if k == 2:
        return (3,)
    if k == 3:
        return (3, 3)
    if k == 4:
        return (2, 3)
    if k == 5:
        return tuple(int(d) for d in rng.integers(1, 4, size=3))
    if k == 6:
        return tuple(int(d) for d in rng.integers(0, 3, size=int(rng.integers(1, 4))))
    if k == 7:
        return (1,)
    return (int(rng.integers(2, 5)), int(rng.integers(1, 5)))


def check_shape_tuple(ctx, C, got, own, what, **det):
    """the reported shape of a record, nested ones included."""
    ctx.require(tuple(got._fields) == ("batch",) + tuple(SPEC[C]), "shape:fields", f"{what}: shape has entries {got._fields}", type=C.__name__, **det)
    ctx.require(got.batch == own and type(got.batch) is tuple, "shape:batch", f"{what}: batch reported {got.batch}, expected {own}", type=C.__name__, **det)
    for k, f in SPEC[C].items():
        g = getattr(got, k)
        if f.nested is not None:
            check_shape_tuple(ctx, f.nested, g, f.shape, what + "." + k, **det)
        else:
            ctx.require(tuple(g) == f.store_shape(), "shape:field", f"{what}: field {k} reported {g}, declared {f.store_shape()}", type=C.__name__, **det)


def check_dtype_tuple(ctx, C, got, what, **det):
    ctx.require(tuple(got._fields) == tuple(SPEC[C]), "dtype:fields", f"{what}: dtype has entries {got._fields}", type=C.__name__, **det)
    for k, f in SPEC[C].items():
        g = getattr(got, k)
        if f.nested is not None:
            check_dtype_tuple(ctx, f.nested, g, what + "." + k, **det)
        else:
            ctx.require(np.dtype(g) == f.store_dtype(), "dtype:field", f"{what}: field {k} reported {g}, stored {f.store_dtype()}", type=C.__name__, **det)


def check_structured(ctx, C, x, b, what, **det):
    """every reported fact about a well-formed instance of batch b; read in random order (they are cached)."""
    facts = ["shape", "batch_shape", "ndim", "len", "kind", "dtype"]
    for f in (facts[i] for i in ctx.rng.permutation(len(facts))):
        if f == "shape":
            check_shape_tuple(ctx, C, x.shape, b, what, **det)
        elif f == "batch_shape":
            ctx.require(x.batch_shape == b, "batch_shape", f"{what}: batch_shape {x.batch_shape}, expected {b}", **det)
        elif f == "ndim":
            ctx.require(x.ndim == len(b), "ndim", f"{what}: ndim {x.ndim}, expected {len(b)}", **det)
        elif f == "len":
            n = len(x)
            ctx.require(n == (b[0] if b else 1), "len", f"{what}: len {n} for batch {b}", **det)
        elif f == "kind":
            e = StructuredType.BATCHED if b else StructuredType.SINGLE
            ctx.require(x.structured_type == e, "kind", f"{what}: classified {x.structured_type}, expected {e}", **det)
        else:
            check_dtype_tuple(ctx, C, x.dtype, what, **det)
        ctx.ev("facts_read")


def check_class(ctx, C):
    ds, dd = C.default_shape, C.default_dtype
    ctx.require(tuple(ds._fields) == tuple(SPEC[C]) == tuple(dd._fields), "default_shape:fields", f"{C.__name__}: {ds} {dd}")
    for k, f in SPEC[C].items():
        if f.nested is not None:
            ctx.require(tuple(getattr(ds, k)) == f.shape and getattr(dd, k) is f.nested, "default_shape", f"{C.__name__}.{k}: {getattr(ds, k)} {getattr(dd, k)}")
            check_class(ctx, f.nested)
        else:
            ctx.require(tuple(getattr(ds, k)) == f.store_shape() and np.dtype(getattr(dd, k)) == f.store_dtype(), "default_shape", f"{C.__name__}.{k}: {getattr(ds, k)} {getattr(dd, k)}")


def expected_default(C, b):
    return {lf.path: np.full(b + lf.shape, np.asarray(rt.fill_of(lf)).astype(lf.dtype), lf.dtype) for lf in rt.leaves(C)}


def check_random_values(ctx, C, x, b, **det):
    got = rt.arrays_of(C, x)
    for lf in rt.leaves(C):
        g = got[lf.path]
        nm = ".".join(lf.path)
        ctx.require(g.dtype == lf.dtype and g.shape == b + lf.shape, "random:form", f"random field {nm}: {g.dtype}{g.shape}, expected {lf.dtype}{b + lf.shape}", type=C.__name__, **det)
        if rt.is_float(lf.dtype):
            v = g.astype(np.float64)
            ctx.require(bool(np.all((v >= 0) & (v < 1))) or "float8" in lf.dtype.name and bool(np.all((v >= 0) & (v <= 1))), "random:range", f"random field {nm} has values outside [0, 1)", type=C.__name__, values=v.reshape(-1)[:20], **det)


def one_type(ctx, C, rng, k):
    check_class(ctx, C)
    nm = C.__name__
    for _ in range(k):
        b = gen_shape(rng)
        det = dict(batch_shape=b, spec=[(".".join(lf.path), str(lf.dtype), lf.shape) for lf in rt.leaves(C)])
        # default
        d = C.default(b)
        rt.check_inst(ctx, C, d, expected_default(C, b), f"{nm}.default({b})", "default", **det)
        check_structured(ctx, C, d, b, f"{nm}.default({b})", **det)
        # random
        key = jax.random.PRNGKey(int(rng.integers(0, 2**31)))
        x = C.random(b, key=key)
        check_structured(ctx, C, x, b, f"{nm}.random({b})", **det)
        check_random_values(ctx, C, x, b, **det)
        ctx.require(rt.tree_bytes(C.random(b, key=key)) == rt.tree_bytes(x), "random:repeat", f"{nm}.random({b}) differs between two calls with one key", **det)
        # an instance of given arrays
        arr = rt.records(C, rng, b)
        y = rt.build(C, arr, host=rng.random() < 0.3)
        check_structured(ctx, C, y, b, f"{nm} built with batch {b}", **det)
        ctx.case("type", nm, [(lf.dtype, lf.shape) for lf in rt.leaves(C)], b)
        ctx.ev("batch_" + ("single" if not b else "empty" if 0 in b else f"{len(b)}d"))
    if rng.random() < 0.3:
        ctx.require(rt.tree_bytes(C.random()) == rt.tree_bytes(C.random((), key=jax.random.PRNGKey(0))), "random:default_key", f"{nm}.random() is not the draw for key 0")
        rt.check_inst(ctx, C, C.default(), expected_default(C, ()), f"{nm}.default()", "default")


def known(ctx, types, k):
    for n in types:
        one_type(ctx, BY[n], ctx.rng, k)
        ctx.ev("types")
    ctx.sample(dict(types=types))


def declared(ctx, count, k):
    """types made up on the fly, in every declaration style."""
    for _ in range(count):
        C = rt.random_type(ctx.rng, depth=2)
        one_type(ctx, C, ctx.rng, k)
        ctx.ev("generated_types")
        if any(len(lf.path) > 2 for lf in rt.leaves(C)):
            ctx.ev("deep_types")
    ctx.sample(dict(type=[(".".join(lf.path), str(lf.dtype), lf.shape) for lf in rt.leaves(C)]))


def node_batch(C, arr, path=()):
    """the batch shape of a possibly inconsistent instance, or -1."""
    bs = []
    for k, f in SPEC[C].items():
        p = path + (k,)
        if f.nested is not None:
            s, own = node_batch(f.nested, arr, p), f.shape
        else:
            s, own = arr[p].shape, f.store_shape()
        if s == -1:
            return -1
        if own and s[-len(own):] != own:
            return -1
        bs.append(s[:len(s) - len(own)])
    return bs[0] if all(x == bs[0] for x in bs) else -1


def broken(ctx, count):
    """instances whose fields disagree about the batch are unstructured, whichever field, at any depth."""
    rng = ctx.rng
    names = ["Nest", "Deep", "NestArr", "Mat", "Mixed", "SameDim", "U1", "PkN", "Twins"]
    for it in range(count):
        C = rt.random_type(rng, depth=2) if rng.random() < 0.4 else dict(BY, Twins=Twins)[names[int(rng.integers(0, len(names)))]]
        b = gen_shape(rng)
        arr = rt.records(C, rng, b)
        lv = rt.leaves(C)
        lf = lv[int(rng.integers(0, len(lv)))]
        a = arr[lf.path]
        k = int(rng.integers(0, 5))
        if k == 0:
            a = a[None]
        elif k == 1 and a.ndim:
            a = np.concatenate([a, a], axis=int(rng.integers(0, a.ndim)))
        elif k == 2 and a.ndim:
            a = np.take(a, 0, axis=int(rng.integers(0, a.ndim))) if a.size else a[None]
        elif k == 3:
            a = a[..., None]
        else:
            a = a.reshape(-1)
        arr[lf.path] = a
        e = node_batch(C, arr)
        x = rt.build(C, arr, host=rng.random() < 0.5)
        det = dict(cls=C.__name__, batch=b, field=".".join(lf.path), field_shape=a.shape, declared=lf.shape)
        if e != -1:
            if all(arr[q.path].shape == e + q.shape for q in lv):
                check_structured(ctx, C, x, e, "instance with one field reshaped", **det)
            continue
        facts = ["kind", "batch", "len", "ndim"]
        for f in (facts[i] for i in rng.permutation(4)):
            if f == "kind":
                ctx.require(x.structured_type == StructuredType.UNSTRUCTURED, "unstructured:kind", f"fields disagree about the batch but the instance is classified {x.structured_type}", **det)
            elif f == "batch":
                ctx.require(x.shape.batch == -1 and x.batch_shape == -1, "unstructured:batch", f"fields disagree about the batch but it is reported as {x.shape.batch}", **det)
            else:
                try:
                    v = len(x) if f == "len" else x.ndim
                except TypeError:
                    continue
                ctx.fail("unstructured:" + f, f"fields disagree about the batch but {f} is {v}", **det)
        check_dtype_tuple(ctx, C, x.dtype, "unstructured instance", **det)
        ctx.ev("unstructured")
        ctx.case("broken", C.__name__, b, lf.path, k)


def history(ctx, count):
    """facts stay right along chains of operations (no stale cached facts on derived instances)."""
    rng = ctx.rng
    names = ["Nest", "Deep", "NestArr", "Mat", "Mixed", "SameDim", "U1", "Pk"]
    for it in range(count):
        nm = names[int(rng.integers(0, len(names)))]
        C = BY[nm]
        b = (3, 4)
        x = rt.build(C, rt.records(C, rng, b))
        trail = []
        for s in range(8):
            check_structured(ctx, C, x, b, f"{nm} after {trail}", steps=trail)
            k = int(rng.integers(0, 12))
            old = x
            ob = b
            if k == 0 and b:
                x, b = x[0], b[1:]
            elif k == 1 and int(np.prod(b)) > 0 and b:
                x, b = x.reshape((-1,)), (int(np.prod(b)),)
            elif k == 2:
                x, b = jax.tree_util.tree_map(lambda a: jnp.asarray(a)[None], x), (1,) + b
            elif k == 3 and b:
                x, b = xnp.concat([x, x], axis=0), (2 * b[0],) + b[1:]
            elif k == 4:
                x, b = xnp.stack([x, x, x]), (3,) + b
            elif k == 5:
                x = copy.copy(x) if rng.random() < 0.5 else copy.deepcopy(x)
            elif k == 6:
                x = pickle.loads(pickle.dumps(x))
            elif k == 7 and len(b) > 1:
                x, b = xnp.transpose(x), b[::-1]
            elif k == 8:
                x = jax.jit(lambda t: t)(x)
            elif k == 9:
                # one field replaced by a wider one: the copy must not keep the old facts
                name = list(SPEC[C])[0]
                y = x.replace(**{name: jax.tree_util.tree_map(lambda a: jnp.asarray(a)[None], getattr(x, name))})
                e = -1 if len(SPEC[C]) > 1 else (1,) + b
                ctx.require(y.batch_shape == e, "history:replace", f"{nm}: after replacing {name} by a wider one the batch is reported as {y.batch_shape}, expected {e}", steps=trail)
                z = y.replace(**{name: getattr(x, name)})
                check_structured(ctx, C, z, b, f"{nm} with the original field put back", steps=trail)
                ctx.ev("replaced")
            elif k == 10 and b and b[0] > 2:
                x, b = x[1:], (b[0] - 1,) + b[1:]
            elif k == 11:
                # facts read while tracing
                seen = {}

                def f(t):
                    seen["b"], seen["n"], seen["k"] = t.batch_shape, len(t), t.structured_type
                    check_dtype_tuple(ctx, C, t.dtype, f"{nm} while traced", steps=trail)
                    return t
                x = jax.jit(f)(x)
                ctx.require(seen["b"] == b and seen["n"] == (b[0] if b else 1) and seen["k"] == (StructuredType.BATCHED if b else StructuredType.SINGLE), "traced", f"{nm} of batch {b} while traced: {seen}", steps=trail)
                ctx.ev("traced")
                if b:
                    jax.vmap(lambda t: seen.__setitem__("v", (t.batch_shape, t.ndim)) or t)(x)
                    ctx.require(seen["v"] == (b[1:], len(b) - 1), "traced", f"{nm} of batch {b} inside vmap: {seen['v']}", steps=trail)
            trail.append(k)
            if int(np.prod(b)) > 300 or 0 in b:
                x, b = rt.build(C, rt.records(C, rng, (3, 4))), (3, 4)
                trail.append("fresh")
            check_structured(ctx, C, old, ob, f"{nm}: the argument after step {k}", steps=trail)
            ctx.case("history", it, s, k)
        ctx.ev("histories")


def randomness(ctx, count):
    """differences between keys, fields and records; coverage of each type's range."""
    C, rng = Twins, ctx.rng
    for it in range(count):
        k1, k2 = jax.random.split(jax.random.PRNGKey(int(rng.integers(0, 2**31))))
        if it % 3 == 2:
            k1, k2 = jax.random.key(it), jax.random.key(it + 1)
        a, b = rt.arrays_of(C, C.random((5, 2), key=k1)), rt.arrays_of(C, C.random((5, 2), key=k2))
        rows = {}
        for lf in rt.leaves(C):
            nm = ".".join(lf.path)
            big = int(np.prod(lf.shape)) * (1 if lf.dtype == np.bool_ else lf.dtype.itemsize * 6)
            ctx.require(a[lf.path].tobytes() != b[lf.path].tobytes(), "random:keys", f"field {nm} is the same for two keys")
            if big < 64:
                continue
            for j, r in enumerate(a[lf.path].reshape((10, -1))):
                sig = (lf.dtype, r.tobytes())
                if sig in rows:
                    ctx.fail("random:repeat_values", f"field {nm} of record {j} repeats field {rows[sig][0]} of record {rows[sig][1]}", values=r)
                rows[sig] = (nm, j)
                ctx.ev("rows_compared")
        ctx.case("random", it, a[("a",)])
    # range: every bit position of an integer seen set and clear, both halves of the unit interval, both truth values
    for nm in ("Twins", "Signed", "Mixed", "F8", "NestArr"):
        D = dict(BY, Twins=Twins)[nm]
        x = rt.arrays_of(D, D.random((256,), key=jax.random.PRNGKey(int(rng.integers(0, 2**31)))))
        for lf in rt.leaves(D):
            v = x[lf.path].reshape(-1)
            p = ".".join(lf.path)
            if lf.dtype == np.bool_:
                ctx.require(v.any() and not v.all(), "random:range", f"{nm}.{p} takes one truth value only")
            elif rt.is_float(lf.dtype):
                w = v.astype(np.float64)
                ctx.require((w < 0.25).any() and ((w > 0.7) | (w == 0.75)).any() and len(set(w.tolist())) > 3, "random:range", f"{nm}.{p} does not spread over [0, 1)", values=w[:30])
            else:
                u = v.view(f"u{lf.dtype.itemsize}").astype(np.uint64)
                o, z = int(np.bitwise_or.reduce(u)), int(np.bitwise_and.reduce(u))
                full = (1 << (8 * lf.dtype.itemsize)) - 1
                ctx.require(o == full and z == 0, "random:range", f"{nm}.{p}: bits never set {full & ~o:#x}, never clear {z:#x}")
            ctx.ev("ranges")


_calls = []


def _factory(shape, dtype):
    _calls.append((tuple(shape), np.dtype(dtype)))
    n = int(np.prod(shape))
    return (jnp.arange(n) % 7).reshape(shape).astype(dtype)


def factories(ctx, count):
    """fill factories receive the full field shape and type, and their values become the default."""
    rng = ctx.rng
    for it in range(count):
        sh = gen_shape(rng)[:2]
        dt = np.dtype([np.int32, np.uint8, np.float32][int(rng.integers(0, 3))])
        inner = xtructure_dataclass(type("FInner", (), {"__module__": __name__, "__annotations__": {"v": FieldDescriptor.tensor(dtype=jnp.dtype(dt), shape=sh, fill_value_factory=_factory), "w": FieldDescriptor.scalar(dtype=jnp.uint16, default=3)}}))
        lead = (2,) if rng.random() < 0.5 else ()
        outer = xtructure_dataclass(type("FOuter", (), {"__module__": __name__, "__annotations__": {"n": FieldDescriptor.tensor(dtype=inner, shape=lead), "s": FieldDescriptor.scalar(dtype=jnp.float32, fill_value_factory=_factory)}}))
        b = gen_shape(rng)
        _calls.clear()
        d = outer.default(b)
        vs = b + lead + sh
        ctx.require(sorted(_calls, key=str) == sorted([(vs, dt), (b, np.dtype(np.float32))], key=str), "factory:calls", f"fill factories were called with {_calls}", shape=b)
        e = (np.arange(int(np.prod(vs))) % 7).reshape(vs).astype(dt)
        ctx.require(np.asarray(d.n.v).dtype == dt and np.array_equal(np.asarray(d.n.v), e), "factory:value", f"default of a factory field of shape {vs} is not the factory's value", got=d.n.v)
        ctx.require(np.array_equal(np.asarray(d.s), (np.arange(int(np.prod(b))) % 7).reshape(b).astype(np.float32)), "factory:value", "default of the outer factory field", got=d.s)
        ctx.require(np.array_equal(np.asarray(d.n.w), np.full(b + lead, 3, np.uint16)), "factory:value", "default beside a factory field", got=d.n.w)
        ctx.ev("factories")
        ctx.case("factory", b, lead, sh, str(dt))
