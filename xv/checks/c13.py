"""C13: packed tensor fields against shadow logical arrays."""
import jax
import jax.numpy as jnp
import numpy as np
from xtructure import numpy as xnp

from xv import rt, rtypes
from xv.rt import F
from xv.rtypes import BY

_n = [0]


def logical_dtype(f):
    if f.unpacked is not None:
        return np.dtype(f.unpacked)
    return np.dtype(np.bool_) if f.packed == 1 else np.dtype(np.uint8) if f.packed <= 8 else np.dtype(np.uint32)


def gen_type(rng, bits=None):
    fields = {}
    k = int(rng.integers(1, 4))
    for i in range(k):
        b = int(bits if bits and i == 0 else rng.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, int(rng.integers(1, 33))]))
        shape = [(1,), (int(rng.integers(2, 20)),), (2, 3), (3, 1, 2), (int(rng.integers(20, 70)),), (), (2, 0)][min(6, int(rng.integers(0, 6) + (rng.random() < 0.06)))]
        un = None
        if rng.random() < 0.35:
            c = [d for d in (np.uint8, np.uint16, np.uint32, np.int16, np.int32) if np.iinfo(d).max >= (1 << b) - 1]
            un = np.dtype(c[int(rng.integers(0, len(c)))]) if c else None
        fields[f"p{i}"] = F(shape=shape, packed=b, unpacked=un)
    if rng.random() < 0.7:
        fields["n"] = F(np.int32, (2,))
    if rng.random() < 0.4:
        fields["f"] = F(np.float32)
    names = list(fields)
    order = rng.permutation(len(names))
    _n[0] += 1
    return rt.mk(rtypes.G, f"PkGen{_n[0]}", {names[i]: fields[names[i]] for i in order}, validate=bool(rng.random() < 0.5))


def values(rng, f, batch):
    d = logical_dtype(f)
    m = rng.choice(["uniform", "edge", "small"])
    top = (1 << f.packed) - 1
    shape = batch + f.shape
    if m == "edge":
        v = np.where(rng.random(shape) < 0.5, top, rng.integers(0, 2, size=shape))
    elif m == "small":
        v = rng.integers(0, min(top, 3) + 1, size=shape)
    else:
        v = rng.integers(0, top + 1, size=shape)
    return np.asarray(v).astype(d)


def plain(rng, f, batch):
    return rt.gen_array(rng, f.dtype, batch + f.shape, "uniform")


class Shadow:
    def __init__(self, ctx, C, batch):
        self.ctx, self.C, self.batch, self.rng = ctx, C, batch, ctx.rng
        self.spec = rt.SPEC[C]
        self.trace = []
        self.info = {k: (f"packed {f.packed} bits as {logical_dtype(f)}" if f.packed else str(f.dtype)) + str(f.shape) for k, f in self.spec.items()}

    def new(self, names, batch=None):
        return {k: (values if self.spec[k].packed else plain)(self.rng, self.spec[k], self.batch if batch is None else batch) for k in names}

    def check(self, x, shadow, what):
        det = dict(type=self.info, batch=self.batch, trace=self.trace[-8:])
        C = self.C
        self.ctx.require(type(x) is C, "type", f"{what}: not a {C.__name__}", **det)
        for k, f in self.spec.items():
            g = np.asarray(getattr(x, k + "_unpacked") if f.packed else getattr(x, k))
            e = shadow[k]
            if f.packed:
                st = getattr(x, k)
                n = (int(np.prod(f.shape)) * f.packed + 7) // 8
                self.ctx.require(st.dtype == jnp.uint8 and st.shape[:-1] == e.shape[: e.ndim - len(f.shape)] and st.shape[-1] >= n, "storage", f"{what}: storage of {k} is {st.dtype}{st.shape}", **det)
            self.ctx.require(g.dtype == e.dtype and g.shape == e.shape, "shape", f"{what}: {k} reads as {g.dtype}{g.shape}, expected {e.dtype}{e.shape}", **det)
            if g.tobytes() != e.tobytes():
                self.ctx.fail("value", f"{what}: field {k} does not read back what was written", got=g, expected=e, bits=f.packed, **det)
            self.ctx.ev("fields_read")


def history(ctx, C, batch, steps):
    rng = ctx.rng
    S = Shadow(ctx, C, batch)
    names = list(S.spec)
    pk = [k for k in names if S.spec[k].packed]
    sh = S.new(names)
    J = (lambda d: {k: jnp.asarray(v) for k, v in d.items()})
    if rng.random() < 0.5:
        x = C.from_unpacked(shape=batch, **J(sh))
        S.trace.append("from_unpacked(all)")
    else:
        part = [k for k in names if rng.random() < 0.6] or pk[:1]
        x = C.from_unpacked(shape=batch, **{k: v for k, v in J(sh).items() if k in part})
        S.trace.append(f"from_unpacked({part})")
        d = C.default(batch)
        for k in names:
            if k not in part:
                f = S.spec[k]
                sh[k] = np.zeros(batch + f.shape, logical_dtype(f)) if f.packed else np.full(batch + f.shape, {"i": 0, "f": np.inf}[f.dtype.kind], f.dtype)
                ctx.require(np.array_equal(np.asarray(getattr(d, k)), np.asarray(getattr(x, k))), "default", f"from_unpacked did not leave {k} at its default")
    S.check(x, sh, "construction")
    keep = [(x, dict(sh))]
    for step in range(steps):
        r = rng.random()
        if r < 0.45:
            which = [k for k in pk if rng.random() < 0.7] or [pk[0]]
            v = S.new(which)
            arg = J(v) if rng.random() < 0.6 else dict(v)
            if rng.random() < 0.15:   # other integer types holding the same values
                k = which[0]
                if v[k].dtype != np.bool_:
                    wide = np.uint32 if S.spec[k].packed > 31 else np.int32
                    arg[k] = jnp.asarray(v[k].astype(wide))
            x = x.set_unpacked(**arg)
            sh.update(v)
            S.trace.append(f"set_unpacked({which})")
            ctx.ev("sets")
        elif r < 0.6:
            k = names[int(rng.integers(0, len(names)))]
            if S.spec[k].packed:   # raw bytes moved between records of the same type
                v = S.new([k])
                y = C.from_unpacked(shape=batch, **J(v))
                x = x.replace(**{k: getattr(y, k)})
            else:
                v = S.new([k])
                x = x.replace(**J(v))
            sh.update(v)
            S.trace.append(f"replace({k})")
            ctx.ev("replaces")
        elif r < 0.75 and batch and batch[0]:
            i = int(rng.integers(0, batch[0]))
            v = S.new(names, batch[1:])
            y = C.from_unpacked(shape=batch[1:], **J(v))
            x = x.at[i].set(y)
            for k in names:
                sh[k] = sh[k].copy()
                sh[k][i] = v[k]
            S.trace.append(f"at[{i}].set")
            ctx.ev("indexed_sets")
        elif r < 0.85 and batch and batch[0]:
            i = rng.integers(0, batch[0], size=batch[0])
            x = x[jnp.asarray(i)]
            sh = {k: v[i] for k, v in sh.items()}
            S.trace.append("gather")
        elif r < 0.93:
            w = [k for k in pk if rng.random() < 0.7] or [pk[0]]
            v = S.new(w)
            x = jax.jit(lambda a, b: a.set_unpacked(**b))(x, J(v))
            sh.update(v)
            S.trace.append(f"set_unpacked({w}) compiled")
            ctx.ev("compiled_sets")
        else:
            k = pk[0]
            x = x.set_unpacked(**{k: getattr(x, k + "_unpacked")})   # write back what was read
            S.trace.append("rewrite")
        S.check(x, sh, S.trace[-1])
        if step % 4 == 3:
            keep.append((x, dict(sh)))
            for y, s in keep[-4:]:
                S.check(y, s, "an earlier instance")
        ctx.case(S.info, batch, tuple(S.trace[-3:]), *[v for v in sh.values()])
    if len(batch) >= 1:
        f = jax.jit(jax.vmap(lambda r: {k: getattr(r, k + "_unpacked") for k in pk}))(x)
        for k in pk:
            ctx.require(np.asarray(f[k]).tobytes() == sh[k].tobytes(), "vmap", f"{k} reads differently under vmap", type=S.info)
        g = jax.vmap(lambda **kw: C.from_unpacked(shape=batch[1:], **kw))(**J(sh))
        S.check(g, sh, "from_unpacked under vmap")
        z = xnp.concat([x, x])
        S.check(z, {k: np.concatenate([v, v]) for k, v in sh.items()}, "concat")
        ctx.ev("mapped")
    # bad shapes are refused
    k = pk[0]
    f = S.spec[k]
    bad = np.zeros(batch + f.shape + (2,), logical_dtype(f))
    try:
        x.set_unpacked(**{k: bad})
    except (ValueError, TypeError):
        ctx.ev("refused_shapes")
    else:
        ctx.fail("refusal", "set_unpacked accepted a value of another shape", type=S.info)
    ctx.sample(dict(type=S.info, batch=batch, history=S.trace[:12]))


def gen(ctx, count, steps, bits=None):
    for i in range(count):
        C = gen_type(ctx.rng, bits[i % len(bits)] if bits else None)
        b = [(), (3,), (2, 2), (1,), (4,), (0,), (2, 0)][int(ctx.rng.integers(0, 6))]
        history(ctx, C, b, steps)
        ctx.ev("types")


def named(ctx, cls, steps):
    if cls == "Pk":
        for b in ((), (5,), (2, 3)):
            history(ctx, BY["Pk"], b, steps)
        return
    # packed fields of nested records
    C, D, rng = BY["PkN"], BY["Pk"], ctx.rng
    for b in ((), (4,)):
        f = rt.SPEC[D]
        inner = {k: (values if v.packed else plain)(rng, v, b) for k, v in f.items()}
        q = values(rng, rt.SPEC[C]["q"], b)
        p = D.from_unpacked(shape=b, **{k: jnp.asarray(v) for k, v in inner.items()})
        x = C.from_unpacked(shape=b, n=jnp.full(b, 5, jnp.int16), p=p, q=jnp.asarray(q))
        for step in range(steps):
            for k, v in f.items():
                g = np.asarray(getattr(x.p, k + "_unpacked") if v.packed else getattr(x.p, k))
                ctx.require(g.tobytes() == inner[k].tobytes() and g.shape == inner[k].shape, "nested", f"nested field {k} reads back other values", got=g, expected=inner[k])
            ctx.require(np.asarray(x.q_unpacked).tobytes() == q.tobytes() and x.q_unpacked.dtype == jnp.int32, "nested", "outer field reads back other values")
            if rng.random() < 0.5:
                k = ["face", "on", "wide"][int(rng.integers(0, 3))]
                inner[k] = values(rng, f[k], b)
                x = x.replace(p=x.p.set_unpacked(**{k: jnp.asarray(inner[k])}))
            else:
                q = values(rng, rt.SPEC[C]["q"], b)
                x = x.set_unpacked(q=jnp.asarray(q))
            ctx.case("nested", b, step, *inner.values(), q)
            ctx.ev("nested_steps")
