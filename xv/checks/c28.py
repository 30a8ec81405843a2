"""C28: field declarations: every form means the same, derived ones change what was asked, impossible ones are refused."""
from typing import Annotated

import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import FieldDescriptor, broadcast_intrinsic_shape, clone_field_descriptor, descriptor_metadata, with_intrinsic_shape, xtructure_dataclass

from xv import rt
from xv.rt import F, SPEC, UNSET

FD = FieldDescriptor
DTS = [np.dtype(d) for d in (np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.float16, np.float32, np.bool_, ml_dtypes.bfloat16)]
ATTRS = ("dtype", "intrinsic_shape", "fill_value", "fill_value_factory", "validator", "bits", "packed_bits", "unpacked_dtype", "unpacked_intrinsic_shape")
_n = [0]


def decorate(annotations, extra=None, **decor):
    _n[0] += 1
    name = f"D{_n[0]}"
    cls = type(name, (), {"__module__": __name__, "__qualname__": name, "__annotations__": dict(annotations), **(extra or {})})
    return xtructure_dataclass(cls, **decor) if decor else xtructure_dataclass(cls)


def default_fill(dt):
    if dt == np.bool_:
        return False
    if rt.is_float(dt):
        return np.inf
    return int(np.iinfo(dt).max) if dt.kind == "u" else 0


def rand_shape(rng):
    return tuple(int(d) for d in rng.integers(0, 4, size=int(rng.choice([0, 0, 1, 1, 2, 3]))))


def rand_fill(rng, dt):
    return rt.gen_array(rng, dt, (), "edge" if dt.kind in "iu" else "small").item()


# ---------------------------------------------------------------- equivalent forms
def forms(dt, shape, fill):
    """the documented ways of declaring one field, as (name, descriptor)."""
    for tn, t in (("class", jnp.dtype(dt).type), ("instance", jnp.dtype(dt))):
        kw = {} if fill is UNSET else {"fill_value": fill}
        yield f"tensor/{tn}", FD.tensor(dtype=t, shape=shape, **kw)
        yield f"tensor positional/{tn}", FD.tensor(t, shape, **kw)
        yield f"constructor/{tn}", FD(dtype=t, intrinsic_shape=shape, **kw)
        yield f"constructor positional/{tn}", FD(t, shape) if fill is UNSET else FD(t, shape, fill)
        yield f"subscript/{tn}", FD[t, shape] if fill is UNSET else FD[t, shape, fill]
        if shape == ():
            yield f"scalar/{tn}", FD.scalar(dtype=t) if fill is UNSET else FD.scalar(dtype=t, default=fill)
            yield f"subscript short/{tn}", FD[t] if fill is UNSET else FD[t, fill]
            yield f"constructor short/{tn}", FD(t, **kw)


def forms_agree(ctx, count):
    rng = ctx.rng
    for _ in range(count):
        dt = DTS[int(rng.integers(0, len(DTS)))]
        shape = rand_shape(rng)
        fill = rand_fill(rng, dt) if rng.random() < 0.6 else UNSET
        if fill is not UNSET and rng.random() < 0.2:
            fill = np.asarray(fill).astype(dt)[()]
        ef = default_fill(dt) if fill is UNSET else fill
        det = dict(dtype=str(dt), shape=shape, fill="none given" if fill is UNSET else fill)
        other = FD.scalar(dtype=jnp.uint16)
        arr = {("x",): rt.gen_array(rng, dt, (3,) + shape, "uniform"), ("o",): rt.gen_array(rng, np.dtype(np.uint16), (3,))}
        key = jax.random.PRNGKey(int(rng.integers(0, 1000)))
        hashes, randoms = [], []
        fs = list(forms(dt, shape, fill))
        pick = rng.permutation(len(fs))[:4]
        for i in pick:
            name, d = fs[i]
            r = int(rng.integers(0, 4))
            if r == 1:
                d, name = clone_field_descriptor(d), name + "/cloned"
            elif r == 2:
                d, name = with_intrinsic_shape(FD.tensor(dtype=d.dtype, shape=(9,), fill_value=d.fill_value), list(shape) if rng.random() < 0.5 else shape), name + "/reshaped"
            ann = Annotated[jnp.ndarray, d] if rng.random() < 0.3 else Annotated[jnp.ndarray, "a note", d, 7] if rng.random() < 0.2 else d
            ctx.require(jnp.dtype(d.dtype) == dt and d.intrinsic_shape == shape, "forms:attributes", f"{name}: descriptor says {d.dtype}, {d.intrinsic_shape}", form=name, **det)
            ctx.require(np.asarray(d.fill_value).astype(dt).tobytes() == np.asarray(ef).astype(dt).tobytes(), "forms:fill", f"{name}: fill value {d.fill_value!r}, expected {ef!r}", form=name, **det)
            style = int(rng.integers(0, 3))
            decor = [{}, {"bitpack": "auto"}, {"validate": True}][style]
            first = rng.random() < 0.5
            C = decorate({"x": ann, "o": other} if first else {"o": other, "x": ann}, **decor)
            SPEC[C] = {k: f for k, f in sorted(dict(x=F(dt, shape, fill=ef), o=F(np.uint16)).items(), key=lambda t: (t[0] != "x") == first)}
            for b in [(), (2,), (2, 0, 3)][:2 if rng.random() < 0.7 else 3]:
                y = C.default(b)
                rt.check_inst(ctx, C, y, {("x",): np.full(b + shape, ef, dtype=np.float64 if rt.is_float(dt) else None).astype(dt), ("o",): np.full(b, 65535, np.uint16)}, f"{name}: default{b}", "forms:default", form=name, **det)
                ctx.require(y.shape.batch == b, "forms:shape", f"{name}: default({b}) has shape {y.shape}", form=name, **det)
            ds = C.default().default_shape
            ctx.require(tuple(ds.x) == shape and tuple(ds.o) == (), "forms:default_shape", f"{name}: default_shape {ds}", form=name, **det)
            x = rt.build(C, arr)
            h = np.asarray(jax.vmap(lambda v: v.hash())(x))
            randoms.append(C.random((4,), key=key))
            rr = rt.arrays_of(C, randoms[-1])
            ctx.require(rr[("x",)].dtype == dt and rr[("x",)].shape == (4,) + shape, "forms:random", f"{name}: random gives {rr[('x',)].dtype}{rr[('x',)].shape}", form=name, **det)
            hashes.append((first, h, rr))
            ctx.require(not hasattr(C, "Packed") and not hasattr(C, "set_unpacked"), "forms:packing", f"{name}: a field without bits made the type packable", form=name, **det)
            if style == 2:
                bad = dict(x=jnp.zeros(shape, jnp.float32 if dt != np.float32 else jnp.int32), o=jnp.zeros((), jnp.uint16))
                try:
                    C(**bad)
                except TypeError:
                    ctx.ev("validated")
                else:
                    ctx.fail("forms:validate", f"{name}: a wrong dtype passes validation", form=name, **det)
            ctx.ev("forms")
        for a in hashes:
            for b in hashes:
                if a[0] == b[0]:
                    ctx.require(np.array_equal(a[1], b[1]), "forms:hash", "the same record hashes differently under two forms of the declaration", **det)
                    ctx.require(all(a[2][p].tobytes() == b[2][p].tobytes() for p in a[2]), "forms:random", "the same key gives different random records under two forms", **det)
        ctx.case("forms", str(dt), shape, repr(fill), tuple(int(i) for i in pick))


# ---------------------------------------------------------------- derived descriptors
def rand_descriptor(rng):
    dt = DTS[int(rng.integers(0, len(DTS)))]
    kw = {}
    r = rng.random()
    if r < 0.4:
        kw["fill_value"] = rand_fill(rng, dt)
    elif r < 0.7:
        kw["fill_value_factory"] = lambda shape, dtype: jnp.zeros(shape, dtype)
    if rng.random() < 0.5:
        kw["validator"] = lambda v: None
    if rng.random() < 0.4:
        kw["bits"] = int(rng.integers(1, 33))
    if rng.random() < 0.3:
        kw.update(packed_bits=int(rng.integers(1, 33)), unpacked_dtype=jnp.uint32, unpacked_intrinsic_shape=rand_shape(rng))
    if rng.random() < 0.2:
        kw = {k: v for k, v in kw.items() if k in ("validator",)}
        return FD.packed_tensor(shape=rand_shape(rng), packed_bits=int(rng.integers(1, 33)), **kw)
    return FD(jnp.dtype(dt) if rng.random() < 0.5 else jnp.dtype(dt).type, rand_shape(rng), **kw)


def state(d):
    return {a: getattr(d, a) for a in ATTRS}


def same_attr(a, b):
    if a is b:
        return True
    if callable(a) or callable(b):
        return False
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


def derived(ctx, count):
    rng = ctx.rng
    for _ in range(count):
        d = rand_descriptor(rng)
        before = state(d)
        ctx.require(all(same_attr(descriptor_metadata(d).get(a, UNSET), before[a]) for a in ATTRS), "metadata", f"descriptor_metadata gives {descriptor_metadata(d)}", descriptor=repr(d))
        exp = dict(before)
        r = int(rng.integers(0, 3))
        if r == 0:
            kw = {}
            if rng.random() < 0.4:
                dt = DTS[int(rng.integers(0, len(DTS)))]
                kw["dtype"] = jnp.dtype(dt) if rng.random() < 0.5 else jnp.dtype(dt).type
            if rng.random() < 0.4:
                s = rand_shape(rng)
                kw["intrinsic_shape"] = list(s) if rng.random() < 0.3 else s
            q = rng.random()
            if q < 0.25:
                kw["fill_value"] = int(rng.integers(0, 2))
            elif q < 0.5:
                kw["fill_value_factory"] = lambda shape, dtype: jnp.ones(shape, dtype)
            if rng.random() < 0.4:
                kw["validator"] = None if rng.random() < 0.4 else (lambda v: None)
            c = clone_field_descriptor(d, **kw)
            exp.update({k: tuple(v) if k == "intrinsic_shape" else v for k, v in kw.items()})
            if "fill_value" in kw:
                exp["fill_value_factory"] = None
            if "fill_value_factory" in kw:
                exp["fill_value"] = None
            what = f"clone_field_descriptor({', '.join(kw)})"
        elif r == 1:
            s = rand_shape(rng)
            c = with_intrinsic_shape(d, list(s) if rng.random() < 0.3 else s)
            exp["intrinsic_shape"] = s
            what = f"with_intrinsic_shape({s})"
        else:
            s = rand_shape(rng)
            c = broadcast_intrinsic_shape(d, list(s) if rng.random() < 0.3 else s)
            exp["intrinsic_shape"] = s + before["intrinsic_shape"]
            what = f"broadcast_intrinsic_shape({s})"
        got = state(c)
        wrong = [a for a in ATTRS if not same_attr(got[a], exp[a])]
        ctx.require(not wrong, "derived", f"{what}: {[(a, got[a], exp[a]) for a in wrong]}", descriptor=repr(d))
        ctx.require(c is not d and all(same_attr(state(d)[a], before[a]) for a in ATTRS), "derived:source", f"{what} changed the descriptor it was derived from", descriptor=repr(d))
        try:
            clone_field_descriptor(d, fill_value=1, fill_value_factory=lambda s, t: 1)
        except ValueError:
            ctx.ev("refused")
        else:
            ctx.fail("derived:both", "a clone with both a fill value and a factory was accepted", descriptor=repr(d))
        ctx.ev("derived")
        ctx.case("derived", what, repr([(a, str(before[a])) for a in ATTRS if not callable(before[a])]))


def factories(ctx, count):
    """factories get the full field shape and the declared dtype, in nested and batched defaults too."""
    rng = ctx.rng
    for _ in range(count):
        calls = []
        dt = DTS[int(rng.integers(0, len(DTS)))]
        shape = rand_shape(rng)
        val = rt.gen_array(rng, dt, (), "small")
        kind = int(rng.integers(0, 4))

        def make(field_shape, dtype, kind=kind, val=val, dt=dt, shape=shape):
            calls.append((tuple(field_shape), np.dtype(jnp.dtype(dtype))))
            if kind == 0:
                return val.item()
            if kind == 1:
                return jnp.full(field_shape, val, dtype)
            if kind == 2:
                return np.arange(int(np.prod(field_shape)), dtype=np.int64).reshape(field_shape) % 2
            return jnp.full(shape, val, dtype)   # broadcast over the batch
        t = jnp.dtype(dt) if rng.random() < 0.5 else jnp.dtype(dt).type
        d = FD.tensor(dtype=t, shape=shape, fill_value_factory=make)
        if shape == () and rng.random() < 0.5:
            d = FD.scalar(dtype=t, fill_value_factory=make)
        if rng.random() < 0.3:
            d = clone_field_descriptor(d)
        In = decorate({"x": d, "k": FD.scalar(dtype=jnp.uint8, default=3)})
        SPEC[In] = dict(x=F(dt, shape), k=F(np.uint8))
        pre = rand_shape(rng)[:2]
        Out = decorate({"i": FD.tensor(dtype=In, shape=pre), "y": d})
        SPEC[Out] = dict(i=F(nested=In, shape=pre), y=F(dt, shape))
        b = [(), (2,), (3, 2), (0,)][int(rng.integers(0, 4))]

        def want(s):
            if kind == 2:
                return (np.arange(int(np.prod(s)), dtype=np.int64).reshape(s) % 2).astype(dt)
            return np.full(s, val, dtype=dt)
        det = dict(dtype=str(dt), shape=shape, nested=pre, batch=b, kind=kind)
        calls.clear()
        x = In.default(b)
        rt.check_inst(ctx, In, x, {("x",): want(b + shape), ("k",): np.full(b, 3, np.uint8)}, "default from a factory", "factory", **det)
        ctx.require(calls and set(calls) == {(b + shape, dt)}, "factory:arguments", f"the factory was called with {calls}, expected ({b + shape}, {dt})", **det)
        calls.clear()
        y = Out.default(b)
        rt.check_inst(ctx, Out, y, {("i", "x"): want(b + pre + shape), ("i", "k"): np.full(b + pre, 3, np.uint8), ("y",): want(b + shape)}, "nested default from a factory", "factory:nested", **det)
        ctx.require(set(calls) == {(b + pre + shape, dt), (b + shape, dt)}, "factory:arguments", f"the factory was called with {calls}", **det)
        ctx.ev("factory_calls", len(calls))
        ctx.case("factory", str(dt), shape, pre, b, kind)


# ---------------------------------------------------------------- packing policy
def tree(rng, depth, bits_everywhere):
    """random declaration: fields and whether every primitive leaf has bits under scalar nesting."""
    fields, every = {}, True
    for i in range(int(rng.integers(1, 4))):
        r = rng.random()
        if depth > 0 and r < 0.35:
            sub, e = tree(rng, depth - 1, bits_everywhere)
            shape = () if bits_everywhere or rng.random() < 0.7 else (2,)
            fields[f"f{i}"] = ("nested", sub, shape)
            every = every and e and shape == ()
        elif r < 0.5 and not bits_everywhere:
            fields[f"f{i}"] = ("packed", int(rng.integers(1, 33)), (int(rng.integers(1, 6)),))
            every = False
        else:
            bits = int(rng.integers(1, 9)) if bits_everywhere or rng.random() < 0.6 else None
            fields[f"f{i}"] = ("plain", bits, rand_shape(rng)[:2])
            every = every and bits is not None
    return fields, every


def realize(fields, policy, rng):
    ann, spec = {}, {}
    for k, (kind, a, shape) in fields.items():
        if kind == "nested":
            sub = realize(a, "auto" if rng.random() < 0.5 else "off", rng)
            ann[k], spec[k] = FD.tensor(dtype=sub, shape=shape), F(nested=sub, shape=shape)
        elif kind == "packed":
            ann[k], spec[k] = FD.packed_tensor(shape=shape, packed_bits=a), F(shape=shape, packed=a)
        else:
            ann[k], spec[k] = FD.tensor(dtype=jnp.uint8, shape=shape, fill_value=0, bits=a), F(np.uint8, shape, bits=a, fill=0)
    C = decorate(ann, **({} if policy is None else {"bitpack": policy} if policy != "legacy" else {"aggregate_bitpack": True}))
    SPEC[C] = spec
    return C


def policy(ctx, count):
    """which packing helpers a type gets depends on its declaration and the policy, and on nothing else."""
    rng = ctx.rng
    for _ in range(count):
        fields, every = tree(rng, 2, rng.random() < 0.5)
        packed = [k for k, f in fields.items() if f[0] == "packed"]
        plainbits = [k for k, f in fields.items() if f[0] == "plain"]
        ref = None
        for pol in (None, "auto", "aggregate", "legacy", "field", "off"):
            det = dict(policy=pol, fields=str(fields))
            sub = np.random.default_rng(7)
            try:
                C = realize(fields, pol, sub)
            except (ValueError, NotImplementedError) as e:
                ctx.require(pol in ("aggregate", "legacy") and not every, "policy:refused", f"declaration refused under {pol}: {e}", **det)
                ctx.ev("refused")
                continue
            ctx.require(every or pol not in ("aggregate", "legacy"), "policy:accepted", f"packing the whole record was forced although a leaf has no bits or an array of records is nested", **det)
            agg = every and pol not in ("field", "off")
            got = [n for n in ("packed", "Packed", "bitpack_schema") if hasattr(C, n)]
            ctx.require(len(got) == (3 if agg else 0), "policy:aggregate", f"under {pol} the type has {got}, expected {'all' if agg else 'none'} of the whole-record packing helpers", **det)
            for k in packed:
                ctx.require(hasattr(C, f"{k}_unpacked") == (pol != "off"), "policy:field", f"under {pol} the type {'has' if pol == 'off' else 'lacks'} {k}_unpacked", **det)
            for k in plainbits:
                ctx.require(not hasattr(C, f"{k}_unpacked"), "policy:field", f"the plain field {k} has a logical view", **det)
            for n in ("set_unpacked", "from_unpacked"):
                ctx.require(hasattr(C, n) == (pol != "off" and bool(packed)), "policy:field", f"under {pol} the type {'has' if hasattr(C, n) else 'lacks'} {n}", **det)
            # the policy changes nothing else
            r2 = np.random.default_rng(5)
            arr = rt.records(C, r2, (2,))
            x = rt.build(C, arr)
            if agg:
                rt.check_inst(ctx, C, x.packed.as_original(), arr, "packed and back", "policy:roundtrip", **det)
                ctx.ev("aggregates")
            facts = (C.default((2,)).shape.batch, [(lf.path, a.tobytes()) for lf, a in zip(rt.leaves(C), rt.arrays_of(C, C.default((2,))).values())],
                     np.asarray(jax.vmap(lambda v: v.hash())(x)).tolist(), [str(v) for v in jax.tree_util.tree_leaves(C.default().default_shape)])
            ref = ref or facts
            ctx.require(facts == ref, "policy:neutral", f"under {pol} defaults, hashes or shapes differ from those under the default policy", **det)
            ctx.ev("policies")
        ctx.case("policy", str(fields))


def packed_forms(ctx, count):
    """packed tensors: logical dtype and shape follow the declaration."""
    rng = ctx.rng
    for j in range(count):
        bits = j % 32 + 1 if j < 32 else int(rng.integers(1, 33))
        shape = rand_shape(rng) if rng.random() < 0.7 else (int(rng.integers(1, 40)),)
        kw = {}
        q = int(rng.integers(0, 3))
        if q == 0:
            d = FD.packed_tensor(shape=shape, packed_bits=bits)
        elif q == 1:
            d = FD.packed_tensor(unpacked_shape=shape, packed_bits=bits)
        else:
            d = FD.packed_tensor(shape=list(shape), unpacked_shape=shape, packed_bits=bits)
        un = np.dtype(np.bool_) if bits == 1 else np.dtype(np.uint8) if bits <= 8 else np.dtype(np.uint32)
        if rng.random() < 0.3:
            un = np.dtype(np.uint32)
            d = FD.packed_tensor(shape=shape, packed_bits=bits, unpacked_dtype=jnp.uint32)
        n = int(np.prod(shape))
        det = dict(bits=bits, shape=shape, dtype=str(un))
        ctx.require(jnp.dtype(d.dtype) == np.uint8 and len(d.intrinsic_shape) == 1 and d.intrinsic_shape[0] * 8 >= n * bits, "packed:storage", f"stored as {d.dtype}{d.intrinsic_shape}", **det)
        ctx.require(d.packed_bits == bits and jnp.dtype(d.unpacked_dtype) == un and d.unpacked_intrinsic_shape == shape and d.bits is None, "packed:attributes", f"{d}", **det)
        ann = Annotated[jnp.ndarray, d] if rng.random() < 0.3 else d
        C = decorate({"p": ann, "k": FD.scalar(dtype=jnp.int16)}, **[{}, {"bitpack": "field"}, {"validate": True}][int(rng.integers(0, 3))])
        SPEC[C] = dict(p=F(shape=shape, packed=bits, unpacked=un), k=F(np.int16))
        b = [(), (2,), (0,), (2, 3)][int(rng.integers(0, 4))]
        z = C.default(b)
        u = np.asarray(z.p_unpacked)
        ctx.require(u.dtype == un and u.shape == b + shape and not u.any(), "packed:default", f"the default's logical view is {u.dtype}{u.shape}", **det)
        v = rng.integers(0, 1 << bits, size=b + shape, dtype=np.uint64).astype(un)
        for y in (z.set_unpacked(p=jnp.asarray(v)), C.from_unpacked(shape=b, p=jnp.asarray(v)), C.from_unpacked(shape=b, p=jnp.asarray(v), k=z.k)):
            g = np.asarray(y.p_unpacked)
            ctx.require(g.dtype == un and g.shape == v.shape and np.array_equal(g, v), "packed:values", "the logical view is not what was set", got=g, expected=v, **det)
            ctx.require(np.asarray(y.p).dtype == np.uint8 and np.asarray(y.p).shape == b + tuple(d.intrinsic_shape), "packed:stored", f"stored {np.asarray(y.p).dtype}{np.asarray(y.p).shape}", **det)
        for what, f in (("set_unpacked of an unknown field", lambda: z.set_unpacked(nope=v)), ("set_unpacked of a plain field", lambda: z.set_unpacked(k=z.k)), ("from_unpacked of an unknown field", lambda: C.from_unpacked(shape=b, nope=v)),
                        ("from_unpacked of all fields and an unknown one", lambda: C.from_unpacked(shape=b, p=jnp.asarray(v), k=z.k, nope=1)), ("set_unpacked of a value with an axis too many", lambda: z.set_unpacked(p=jnp.asarray(v)[..., None]))):
            try:
                f()
            except (KeyError, TypeError, ValueError):
                ctx.ev("refused")
            else:
                ctx.fail("packed:refusal", f"{what} was accepted", **det)
        ctx.ev("packed_forms")
        ctx.case("packed", bits, shape, str(un), b, v)


# ---------------------------------------------------------------- impossible declarations
def refusals(ctx, count):
    rng = ctx.rng
    sub_bits = decorate({"a": FD.scalar(dtype=jnp.uint8, bits=3)})
    sub_plain = decorate({"a": FD.scalar(dtype=jnp.uint8)})

    def good(i):
        return [FD.scalar(dtype=jnp.uint8), FD.tensor(dtype=jnp.float32, shape=(2,)), FD.scalar(dtype=sub_plain), FD.packed_tensor(shape=(3,), packed_bits=2), Annotated[jnp.ndarray, FD[jnp.int32]]][i % 5]

    def goodbits(i):
        return [FD.scalar(dtype=jnp.uint8, bits=3), FD.tensor(dtype=jnp.uint16, shape=(2,), bits=11), FD.scalar(dtype=sub_bits)][i % 3]

    def around(bad, fields):
        """the bad field at any place among good ones."""
        names = ["p", "q", "r", "s"][:int(rng.integers(0, 4))]
        at = int(rng.integers(0, len(names) + 1))
        out = {}
        for i, k in enumerate(names[:at] + ["bad"] + names[at:]):
            out[k] = bad if k == "bad" else fields(int(rng.integers(0, 30)))
        return out

    for _ in range(count):
        x = int(rng.choice([0, -1, 33, 64, 40, 2 ** 31, -8, 100]))
        f = float(rng.choice([1.0, 3.0, 8.0, 2.5]))
        fn = lambda s, d: jnp.zeros(s, d)
        dt = [jnp.uint8, jnp.int32, jnp.float32, jnp.dtype("uint16")][int(rng.integers(0, 4))]
        bad = [
            ("bits out of range", lambda: FD.scalar(dtype=dt, bits=x)),
            ("bits out of range", lambda: FD.tensor(dtype=dt, shape=(2,), bits=x)),
            ("bits not an integer", lambda: FD(dt, bits=[f, str(int(f)), [3]][int(rng.integers(0, 3))])),
            ("packed_bits out of range", lambda: FD(dt, packed_bits=x)),
            ("packed_bits out of range", lambda: FD.packed_tensor(shape=(4,), packed_bits=x)),
            ("packed_bits not an integer", lambda: FD.packed_tensor(shape=(4,), packed_bits=f)),
            ("fill value and factory", lambda: FD(dt, (2,), 1, fill_value_factory=fn)),
            ("fill value and factory", lambda: FD.tensor(dtype=dt, shape=(2,), fill_value=0, fill_value_factory=fn)),
            ("fill value and factory", lambda: FD.scalar(dtype=dt, default=0, fill_value_factory=fn)),
            ("packed tensor without a shape", lambda: FD.packed_tensor(packed_bits=3)),
            ("packed tensor with two shapes", lambda: FD.packed_tensor(shape=(2, 3), unpacked_shape=(3, 2), packed_bits=3)),
            ("subscript with four entries", lambda: FD[dt, (2,), 1, 2]),
            ("subscript without entries", lambda: FD[()]),
            ("a field without a descriptor", lambda: decorate(around([int, "x", np.ndarray, jnp.ndarray, None, Annotated[jnp.ndarray, "note"], (FD.scalar(dtype=jnp.uint8),), jnp.uint8, sub_plain][int(rng.integers(0, 9))], good))),
            ("an unsupported dtype", lambda: decorate(around(FD(dtype=[str, dict, "nonsense", object(), list, 5, None][int(rng.integers(0, 7))]), good))),
            ("an unknown packing policy", lambda: decorate(around(good(0), good), bitpack=["on", "", "AUTO", "Aggregate", True, "fields", "none"][int(rng.integers(0, 7))])),
            ("contradicting policies", lambda: decorate(around(goodbits(0), goodbits), bitpack="field", aggregate_bitpack=True)),
            ("contradicting policies", lambda: decorate(around(goodbits(0), goodbits), bitpack="off", aggregate_bitpack=True)),
            ("whole-record packing with a leaf without bits", lambda: decorate(around(FD.tensor(dtype=jnp.uint8, shape=(2,)), goodbits), **[{"bitpack": "aggregate"}, {"aggregate_bitpack": True}][int(rng.integers(0, 2))])),
            ("whole-record packing with a nested leaf without bits", lambda: decorate(around(FD.scalar(dtype=sub_plain), goodbits), **[{"bitpack": "aggregate"}, {"aggregate_bitpack": True}][int(rng.integers(0, 2))])),
            ("whole-record packing with an array of records", lambda: decorate(around(FD.tensor(dtype=sub_bits, shape=(2,)), goodbits), bitpack="aggregate")),
        ]
        for what, f_ in bad:
            try:
                r = f_()
            except (TypeError, ValueError, NotImplementedError, KeyError, ZeroDivisionError) as e:
                ctx.ev("refused")
            else:
                ctx.fail("refusal", f"{what} was accepted: {str(r)[:200]}", bits=x)
        ok = [
            ("bits in range", lambda b: FD.scalar(dtype=dt, bits=b)),
            ("packed bits in range", lambda b: FD.packed_tensor(shape=(3,), packed_bits=b)),
            ("good fields", lambda b: decorate({f"f{i}": good(int(rng.integers(0, 30))) for i in range(1 + b % 4)})),
            ("good fields with bits", lambda b: decorate({f"f{i}": goodbits(int(rng.integers(0, 30))) for i in range(1 + b % 3)}, **[{"bitpack": "aggregate"}, {"aggregate_bitpack": True}, {"aggregate_bitpack": True, "bitpack": "aggregate"}][b % 3])),
            ("array of records under auto", lambda b: decorate({"f": FD.tensor(dtype=sub_bits, shape=(2,)), **{f"g{i}": goodbits(i) for i in range(b % 3)}})),
        ]
        for what, f_ in ok:
            b = int(rng.integers(1, 33))
            try:
                f_(b)
            except Exception as e:
                ctx.fail("accepts", f"{what} ({b}) was refused: {type(e).__name__}: {e}", bits=b)
            ctx.ev("accepted")
        ctx.case("refusals", x, f, str(dt), int(rng.integers(0, 2 ** 62)))


def shared(ctx, count):
    """one descriptor object may serve several fields and types; types do not influence each other."""
    rng = ctx.rng
    for _ in range(count):
        dt = DTS[int(rng.integers(0, len(DTS)))]
        shape = rand_shape(rng)
        fill = rand_fill(rng, dt)
        d = FD.tensor(dtype=jnp.dtype(dt), shape=shape, fill_value=fill)
        before = state(d)
        A = decorate({"x": d, "y": d})
        SPEC[A] = dict(x=F(dt, shape, fill=fill), y=F(dt, shape, fill=fill))
        e = FD.scalar(dtype=A)
        B = decorate({"y": d, "a": e, "b": e, "x": broadcast_intrinsic_shape(d, (2,))})
        SPEC[B] = dict(y=F(dt, shape, fill=fill), a=F(nested=A), b=F(nested=A), x=F(dt, (2,) + shape, fill=fill))
        late = decorate({"x": FD.scalar(dtype=jnp.uint8)}, validate=True)  # an unrelated type in between
        SPEC[late] = dict(x=F(np.uint8))
        for C in (A, B, late):
            for b in ((), (3,)):
                exp = {lf.path: np.full(b + lf.shape, rt.fill_of(lf)).astype(lf.dtype) for lf in rt.leaves(C)}
                rt.check_inst(ctx, C, C.default(b), exp, f"default{b}", "shared", dtype=str(dt), shape=shape)
        r = rt.arrays_of(A, A.random((64,), key=jax.random.PRNGKey(1)))
        if int(np.prod(shape)) and dt != np.bool_:
            ctx.require(r[("x",)].tobytes() != r[("y",)].tobytes(), "shared:random", "two fields sharing a descriptor get the same random values", dtype=str(dt), shape=shape)
        ctx.require(all(same_attr(state(d)[a], before[a]) for a in ATTRS), "shared:descriptor", "declaring types changed the descriptor", dtype=str(dt))
        ctx.ev("shared")
        ctx.case("shared", str(dt), shape, repr(fill))
