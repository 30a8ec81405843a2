"""C21: runtime validation, decided against the declaration table for well-formed and malformed instances."""
import copy
import pickle

import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import FieldDescriptor, xtructure_dataclass
from xtructure import numpy as xnp

from xv import rt
from xv.rt import F, SPEC, mk

G = globals()
VVec = mk(G, "VVec", dict(p=F(np.float32, (3,)), c=F(np.uint8, (2,))), validate=True)
VSmall = mk(G, "VSmall", dict(a=F(np.uint8)), validate=True)
VMat = mk(G, "VMat", dict(s=F(np.int32), v=F(np.int16, (3,)), m=F(np.float32, (2, 3)), b=F(np.bool_, (2,))), validate=True)
VNest = mk(G, "VNest", dict(tag=F(np.uint32), inner=F(nested=VMat), last=F(np.uint8, (3,))), validate=True)
VArr = mk(G, "VArr", dict(id=F(np.uint32), cells=F(nested=VVec, shape=(2,)), grid=F(nested=VSmall, shape=(2, 3)), h=F(ml_dtypes.bfloat16)), validate=True)
VPk = mk(G, "VPk", dict(face=F(shape=(7,), packed=3), on=F(shape=(9,), packed=1), n=F(np.int16, (1,))), validate=True)
VBits = mk(G, "VBits", dict(a=F(np.uint8, (7,), bits=3, fill=0), b=F(np.uint32, bits=12, fill=0), c=F(np.bool_, (9,), bits=1, fill=False)), validate=True)
VOuter = mk(G, "VOuter", dict(n=F(nested=VNest), k=F(np.int16), a=F(nested=VArr)), validate=True)
PVec = mk(G, "PVec", dict(p=F(np.float32, (3,)), c=F(np.uint8, (2,))))                       # same layout as VVec, not validated
PNest = mk(G, "PNest", dict(tag=F(np.uint32), inner=F(nested=PVec), many=F(nested=PVec, shape=(2,))))
HalfV = mk(G, "HalfV", dict(tag=F(np.uint32), inner=F(nested=PVec), many=F(nested=PVec, shape=(2,))), validate=True)   # validated outside, plain inside
ByT = {c.__name__: c for c in (VVec, VSmall, VMat, VNest, VArr, VPk, VBits, VOuter, PVec, PNest, HalfV)}

ERR = (TypeError, ValueError)
_DT = [np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.float32, np.float16, np.bool_, ml_dtypes.bfloat16, np.complex64]


def gen_batch(rng):
    return [(), (3,), (1,), (2, 3), (3, 3), (0,), (4,), (2, 1, 2), (5,)][int(rng.integers(0, 9))]


def nodes(C, path=()):
    yield path, C
    for k, f in SPEC[C].items():
        if f.nested is not None:
            yield from nodes(f.nested, path + (k,))


def make(C, arr, bad, path=(), how=None):
    """instance from arrays, with the value at the field path in `bad` put in place of the right one."""
    kw = {}
    for k, f in SPEC[C].items():
        p = path + (k,)
        if p in bad:
            kw[k] = bad[p]
        elif f.nested is not None:
            kw[k] = make(f.nested, arr, bad, p, how)
        else:
            kw[k] = jnp.asarray(arr[p])
    if how == "positional":
        return C(*kw.values())
    return C(**kw)


def bad_value(rng, C, arr, path, f):
    """(kind, malformed value for the field)"""
    if f.nested is not None:
        kinds = ["other_type", "array", "none", "dict"] + (["nested_shape"] * 2 if f.shape else [])
        k = kinds[int(rng.integers(0, len(kinds)))]
        if k == "other_type":
            D = [VSmall, PVec, VVec, VMat][int(rng.integers(0, 4))]
            if issubclass(D, f.nested):
                D = VPk
            return k, D.default((2,))
        if k == "array":
            return k, jnp.zeros((3,), jnp.float32)
        if k == "none":
            return k, None
        if k == "dict":
            return k, {n: jnp.asarray(1) for n in SPEC[f.nested]}
        lead = tuple(int(d) for d in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        sh = [(), f.shape[:-1], f.shape[::-1] if f.shape[::-1] != f.shape else f.shape + (5,), lead + f.shape[:-1] + (f.shape[-1] + 1,), f.shape + (1,) if f.shape[-1] != 1 else f.shape + (2,)][int(rng.integers(0, 5))]
        if sh[-len(f.shape):] == f.shape:
            sh = ()
        return k, f.nested.default(sh)
    dt, sh = f.store_dtype(), f.store_shape()
    a = np.asarray(arr[path])
    kinds = ["dtype"] * 4 + ["none", "string", "record"] + (["trailing", "rank", "swap", "wrapped"] if sh else [])
    k = kinds[int(rng.integers(0, len(kinds)))]
    if k == "dtype":
        o = [np.dtype(d) for d in _DT if np.dtype(d) != dt]
        o = o[int(rng.integers(0, len(o)))]
        v = np.zeros(a.shape, o)
        return f"dtype", v if rng.random() < 0.4 else jnp.asarray(v)
    if k == "none":
        return k, None
    if k == "string":
        return k, "abc"
    if k == "record":
        return k, VSmall.default((2,))
    lead = a.shape[:a.ndim - len(sh)]
    if k == "rank":
        s = sh[1:] if rng.random() < 0.5 else ()
        if s[-len(sh):] == sh:
            s = ()
    elif k == "swap":
        s = lead + sh[::-1]
        if sh[::-1] == sh:
            s = lead + sh[:-1] + (sh[-1] + 1,)
    elif k == "wrapped":
        s = lead + sh + (1,)
        if s[-len(sh):] == sh:
            s = lead + sh + (2,)
    else:
        j = int(rng.integers(0, len(sh)))
        n = list(sh)
        n[j] = max(0, n[j] + int(rng.choice([-1, 1, 2])))
        s = lead + tuple(n)
        if tuple(n) == sh:
            s = lead + sh[:-1] + (sh[-1] + 1,)
    v = np.zeros(s, dt)
    return k, v if rng.random() < 0.4 else jnp.asarray(v)


def must_raise(ctx, f, key, what, **det):
    try:
        r = f()
    except ERR:
        ctx.ev("rejected")
        return
    ctx.fail(key, f"{what}: accepted", result=repr(type(r)), **det)


def malformed(ctx, types, count):
    rng = ctx.rng
    for it in range(count):
        C = ByT[types[it % len(types)]] if types else rt.random_type(rng, depth=2, validate=True)
        b = gen_batch(rng)
        arr = rt.records(C, rng, b)
        ns = list(nodes(C))
        if C.__name__ in ("HalfV",):
            ns = ns[:1]
        path, node = ns[int(rng.integers(0, len(ns)))]
        k = list(SPEC[node])[int(rng.integers(0, len(SPEC[node])))]
        f = SPEC[node][k]
        kind, v = bad_value(rng, C, arr, path + (k,), f)
        det = dict(type=C.__name__, field=".".join(path + (k,)), kind=kind, batch=b, declared=(str(f.store_dtype()) if f.nested is None else f.nested.__name__, f.shape if f.nested is not None else f.store_shape()),
                   value=f"{getattr(v, 'dtype', type(v))}{np.shape(v) if isinstance(v, (np.ndarray, jax.Array)) else getattr(v, 'batch_shape', '')}")
        bad = {path + (k,): v}
        must_raise(ctx, lambda: make(C, arr, bad), "accepts:" + kind, "construction with a malformed field", **det)
        r = int(rng.integers(0, 5))
        if r == 0:
            must_raise(ctx, lambda: make(C, arr, bad, how="positional"), "accepts:positional:" + kind, "positional construction with a malformed field", **det)
        elif r == 1:
            def rep():
                x = make(C, arr, {})
                owner = x
                for p in path:
                    owner = getattr(owner, p)
                return owner.replace(**{k: v})
            must_raise(ctx, rep, "accepts:replace:" + kind, "replacing a field by a malformed one", **det)
        elif r == 2:
            def tup():
                x = make(C, arr, {})
                owner = x
                for p in path:
                    owner = getattr(owner, p)
                vals = list(owner.to_tuple())
                vals[list(SPEC[node]).index(k)] = v
                return node.from_tuple(tuple(vals))
            must_raise(ctx, tup, "accepts:from_tuple:" + kind, "from_tuple with a malformed field", **det)
        elif r == 3 and kind != "record" and isinstance(v, (np.ndarray, jax.Array)):
            def traced():
                return jax.jit(lambda a, w: make(C, a, {path + (k,): w}))(arr, v)
            must_raise(ctx, traced, "accepts:traced:" + kind, "construction while traced with a malformed field", **det)
            ctx.ev("traced")
        # an accepted-then-damaged instance is refused by an explicit check
        x = make(C, arr, {})
        node_x = x
        for p in path:
            node_x = getattr(node_x, p)
        y = object.__new__(node)
        for n in SPEC[node]:
            object.__setattr__(y, n, v if n == k else getattr(node_x, n))
        must_raise(ctx, lambda: y.check_invariants(), "accepts:explicit:" + kind, "explicit check of a malformed instance", **det)
        ctx.ev("bad_" + kind)
        ctx.case("bad", C.__name__ if types else it, path, k, kind, b, det["value"])
    ctx.sample(det)


def explicit(ctx, count):
    """types declared without validation: nothing is refused at construction, the explicit check still decides."""
    rng = ctx.rng
    for it in range(count):
        C = [PVec, PNest][it % 2] if it % 3 else rt.random_type(rng, depth=1)
        b = gen_batch(rng)
        arr = rt.records(C, rng, b)
        k = list(SPEC[C])[int(rng.integers(0, len(SPEC[C])))]
        f = SPEC[C][k]
        kind, v = bad_value(rng, C, arr, (k,), f)
        x = make(C, arr, {(k,): v})    # must not raise
        must_raise(ctx, x.check_invariants, "accepts:explicit:" + kind, "explicit check of a malformed instance", type=C.__name__, field=k, kind=kind)
        make(C, arr, {}).check_invariants()
        ctx.ev("unvalidated_types")
        ctx.case("explicit", it, k, kind, b)


def wellformed(ctx, types, count):
    """nothing well formed is ever refused, through every way of making instances."""
    rng = ctx.rng
    for it in range(count):
        C = ByT[types[it % len(types)]] if types else rt.random_type(rng, depth=2, validate=True)
        b = gen_batch(rng)
        arr = rt.records(C, rng, b)
        step = "construct"
        try:
            x = rt.build(C, arr, host=rng.random() < 0.3)
            x.check_invariants()
            step = "default/random"
            C.default(b).check_invariants()
            C.random(b, key=jax.random.PRNGKey(it)).check_invariants()
            step = "to_tuple/from_tuple/replace/copy/pickle"
            C.from_tuple(x.to_tuple())
            x.replace()
            copy.copy(x).check_invariants()
            copy.deepcopy(x).check_invariants()
            if types:
                pickle.loads(pickle.dumps(x)).check_invariants()
            step = "jit"
            jax.jit(lambda t: C(**{k: getattr(t, k) for k in SPEC[C]}))(x).check_invariants()
            if b and b[0]:
                step = "index"
                x = x.at[0].set(x[-1])
                x[0].check_invariants()
                step = "vmap"
                jax.vmap(lambda t: t.replace())(x).check_invariants()
                step = "concat/reshape/where/stack"
                xnp.concat([x, x]).check_invariants()
                xnp.stack([x, x]).check_invariants()
                x.reshape((-1,)).check_invariants()
                xnp.where(jnp.arange(b[0]) % 2 == 0, x, x) if len(b) == 1 else None
                step = "set_as_condition"
                x.at[jnp.arange(b[0])].set_as_condition(jnp.arange(b[0]) % 2 == 0, x).check_invariants()
            if types and types[0] == "VPk":
                step = "from_unpacked"
                C.from_unpacked(shape=b, face=jnp.zeros(b + (7,), jnp.uint8)).check_invariants()
                x.set_unpacked(on=jnp.ones(x.batch_shape + (9,), bool)).check_invariants()
            if types and types[0] == "VBits":
                step = "pack"
                x.packed.unpack().check_invariants() if hasattr(x, "packed") else None
        except ERR as e:
            ctx.fail("refuses:" + step, f"a well-formed {C.__name__} of batch {b} was refused at {step}: {e}", spec=[(".".join(lf.path), str(lf.dtype), lf.shape) for lf in rt.leaves(C)])
        ctx.ev("accepted")
        ctx.case("good", C.__name__ if types else it, b)


class _Boom(ValueError):
    pass


LOG = []


def _v(name):
    def check(value):
        LOG.append((name, jax.tree_util.tree_structure(value).num_leaves))
        if not isinstance(jax.tree_util.tree_leaves(value)[0], jax.core.Tracer) and bool(np.any(np.asarray(jax.tree_util.tree_leaves(value)[0]) == 99)):
            raise _Boom(name)
    return check


def validators(ctx, count):
    """declared validators run once on their field's value at every construction, in nested records and on nested fields."""
    rng = ctx.rng
    mkc = lambda n, ann, **kw: xtructure_dataclass(type(n, (), {"__module__": __name__, "__annotations__": ann}), **kw)
    Inner = mkc("ValInner", {"a": FieldDescriptor.scalar(dtype=jnp.int32, default=0, validator=_v("inner.a")), "p": FieldDescriptor.packed_tensor(shape=(5,), packed_bits=2, validator=_v("inner.p"))}, validate=True)
    Outer = mkc("ValOuter", {"n": FieldDescriptor.scalar(dtype=Inner, validator=_v("outer.n")), "m": FieldDescriptor.tensor(dtype=Inner, shape=(2,)), "s": FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), fill_value=1, validator=_v("outer.s"))}, validate=True)
    Plain = mkc("ValPlain", {"s": FieldDescriptor.scalar(dtype=jnp.uint8, validator=_v("plain.s"))})
    for it in range(count):
        b = gen_batch(rng)
        LOG.clear()
        i = Inner(a=jnp.zeros(b, jnp.int32), p=jnp.zeros(b + (2,), jnp.uint8))
        ctx.require(sorted(n for n, _ in LOG) == ["inner.a", "inner.p"], "validator:inner", f"validators run while building a nested record: {LOG}", batch=b)
        m = Inner.default(b + (2,))
        LOG.clear()
        o = Outer(n=i, m=m, s=jnp.ones(b + (3,), jnp.uint8))
        ctx.require(sorted(n for n, _ in LOG) == ["outer.n", "outer.s"], "validator:outer", f"validators run while building the outer record: {LOG}", batch=b)
        for what, f, need in (("default", lambda: Outer.default(b), {"inner.a": 2, "inner.p": 2, "outer.n": 1, "outer.s": 1}), ("replace", lambda: o.replace(s=o.s), {"outer.n": 1, "outer.s": 1}),
                              ("traced construction", lambda: jax.jit(lambda a, c: Outer(n=Inner(a=a.n.a, p=a.n.p), m=a.m, s=c))(o, o.s), {"inner.a": 1, "inner.p": 1, "outer.n": 1, "outer.s": 1})):
            LOG.clear()
            f()
            cnt = {n: sum(1 for q, _ in LOG if q == n) for n in {q for q, _ in LOG}}
            ctx.require(cnt == need, "validator:" + what, f"validators run during {what}: {cnt}, expected {need}", batch=b)
        if 0 not in b:
            bad = np.zeros(b, np.int32)
            pos = tuple(int(rng.integers(0, d)) for d in b)
            bad[pos] = 99
            try:
                Inner(a=jnp.asarray(bad), p=i.p)
                ctx.fail("validator:raise", "a raising validator did not stop the construction", batch=b)
            except _Boom:
                pass
            sb = np.ones(b + (3,), np.uint8)
            sb[pos + (int(rng.integers(0, 3)),)] = 99
            for f in (lambda: Outer(n=i, m=m, s=jnp.asarray(sb)), lambda: o.replace(s=jnp.asarray(sb))):
                try:
                    f()
                    ctx.fail("validator:raise", "a raising validator did not stop the construction of the outer record", batch=b)
                except _Boom:
                    pass
        LOG.clear()
        p = Plain(s=jnp.zeros(b, jnp.uint8))
        ctx.require(not LOG, "validator:off", f"validators ran for a type without validation: {LOG}")
        p.check_invariants()
        ctx.require([n for n, _ in LOG] == ["plain.s"], "validator:explicit", f"explicit check ran {LOG}")
        # well-formedness is still decided after a validator accepted the value
        must_raise(ctx, lambda: Inner(a=jnp.zeros(b, jnp.int16), p=i.p), "validator:dtype", "wrong dtype in a field with a validator")
        must_raise(ctx, lambda: Inner(a=i.a, p=jnp.zeros(b + (3,), jnp.uint8)), "validator:shape", "wrong trailing shape in a field with a validator")
        ctx.ev("validator_runs")
        ctx.case("validators", b, it)


def every(ctx, types):
    """every other dtype and every nearby trailing shape, for every field at any depth of a type."""
    import itertools

    rng = ctx.rng
    for tname in types:
        C = ByT[tname]
        for b in ((), (3,), (2, 3), tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4))))):
            arr = rt.records(C, rng, b)
            ns = list(nodes(C))
            if tname == "HalfV":
                ns = ns[:1]
            for path, node in ns:
                good = make(C, arr, {})
                for p in path:
                    good = getattr(good, p)
                for k, f in SPEC[node].items():
                    if f.nested is not None:
                        sh = f.shape
                        dt = None
                    else:
                        dt, sh = f.store_dtype(), f.store_shape()
                    full = good.__dict__[k].shape.batch if f.nested is not None else np.shape(getattr(good, k))
                    lead = tuple(full)[: len(full) - len(sh)]
                    tails = set()
                    if sh:
                        tails |= set(itertools.permutations(sh)) | {(int(np.prod(sh)),), sh[1:], sh[:-1], (), sh + (1,), (1,) * len(sh), sh[:-1] + (0,)}
                        for j in range(len(sh)):
                            for d in (-1, 1, 2, sh[j]):
                                t = list(sh)
                                t[j] += d
                                tails.add(tuple(t))
                                if 1 in t:
                                    tails.add(tuple(v for v in t if v != 1))
                        tails = {lead + t for t in tails if min(t, default=0) >= 0} | {t for t in tails if min(t, default=0) >= 0}
                        tails = sorted(t for t in tails if t[len(t) - len(sh):] != sh or len(t) < len(sh))
                    if f.nested is not None:
                        vals = [("nested_shape", f.nested.default(t)) for t in list(tails)[:8]]
                    else:
                        vals = [("shape", np.zeros(t, dt)) for t in tails] + [("dtype", np.zeros(full, d)) for d in _DT if np.dtype(d) != dt]
                    for kind, v in vals:
                        kw = {n: (v if n == k else getattr(good, n)) for n in SPEC[node]}
                        det = dict(type=node.__name__, field=k, declared=(str(dt), sh), value=(str(getattr(v, "dtype", type(v).__name__)), np.shape(v) if isinstance(v, np.ndarray) else v.shape.batch))
                        must_raise(ctx, lambda: node(**kw), "accepts:every:" + kind, "construction with a malformed field", **det)
                        if path and rng.random() < 0.2:
                            must_raise(ctx, lambda: good.replace(**{k: v}), "accepts:replace:" + kind, "replacing a field by a malformed one", **det)
                        ctx.ev("every_" + kind)
                    ctx.case("every", tname, path, k, b)
                    # the same field with other batch axes in front is well formed
                    if f.nested is None:
                        for t in ((), (5,), (2, 2)):
                            v = np.zeros(t + sh, dt)
                            try:
                                node(**{n: (v if n == k else getattr(good, n)) for n in SPEC[node]})
                            except ERR as e:
                                if "batch" not in str(e).lower():
                                    ctx.fail("refuses:every", "a well-formed field is refused", type=node.__name__, field=k, shape=t + sh, error=repr(e))
    ctx.sample(det)
