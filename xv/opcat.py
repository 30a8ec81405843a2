"""Catalogue of record-array operations, each with the same operation on arrays of record labels.

An op draws a case with gen(rng, b) -> dict(shapes=[batch shapes of the inputs], ...), b being a batch shape;
run(insts, p) calls the code under test; lab(labels, p) does it on label arrays (label -1: the default record)."""
import jax.numpy as jnp
import numpy as np
from xtructure import numpy as xnp

OPS = {}


class Op:
    def __init__(self, name, gen, run, lab, min_nd=1, max_nd=4, scalar_only=False, vmap=True):
        self.name, self.gen, self.run, self.lab = name, gen, run, lab
        self.min_nd, self.max_nd, self.scalar_only, self.vmap = min_nd, max_nd, scalar_only, vmap
        OPS[name] = self


def ax(rng, nd, neg=False):
    a = int(rng.integers(0, nd))
    return a - nd if neg and rng.random() < 0.5 else a


def pick(rng, *xs):
    return xs[int(rng.integers(0, len(xs)))]


# --- joining
def g_concat(rng, b):
    a = ax(rng, len(b))
    k = int(rng.integers(1, 4))
    sh = []
    for _ in range(k):
        s = list(b)
        s[a] = int(rng.integers(1, 4))
        sh.append(tuple(s))
    return dict(shapes=sh, axis=pick(rng, a, a - len(b)))


Op("concat", g_concat, lambda x, p: xnp.concat(x, axis=p["axis"]), lambda l, p: np.concatenate(l, axis=p["axis"]))
Op("concatenate", g_concat, lambda x, p: xnp.concatenate(x, p["axis"]), lambda l, p: np.concatenate(l, axis=p["axis"]))


def g_concat0(rng, b):
    k = int(rng.integers(1, 4))
    sh = []
    for _ in range(k):
        s = list(b)
        s[0] = int(rng.integers(0 if k > 1 else 1, 4))
        sh.append(tuple(s))
    if not any(s[0] for s in sh):
        sh[0] = (1,) + sh[0][1:]
    return dict(shapes=sh)


Op("concat-default", g_concat0, lambda x, p: xnp.concat(x), lambda l, p: np.concatenate(l))


def g_stack(rng, b):
    k = int(rng.integers(1, 4))
    a = int(rng.integers(-len(b) - 1, len(b) + 1))
    return dict(shapes=[tuple(b)] * k, axis=a)


Op("stack", g_stack, lambda x, p: xnp.stack(x, axis=p["axis"]), lambda l, p: np.stack(l, axis=p["axis"]), min_nd=0)
Op("concat-single", lambda rng, b: dict(shapes=[()] * int(rng.integers(2, 5))), lambda x, p: xnp.concat(x), lambda l, p: np.stack(l), min_nd=0, max_nd=0)


def g_same(k):
    return lambda rng, b: dict(shapes=[tuple(b)] * k)


def g_join_along(axis):
    def g(rng, b):
        sh = []
        for _ in range(int(rng.integers(2, 4))):
            s = list(b)
            s[axis] = int(rng.integers(1, 4))
            sh.append(tuple(s))
        return dict(shapes=sh)
    return g


Op("vstack", g_join_along(0), lambda x, p: xnp.vstack(x), lambda l, p: np.concatenate(l, axis=0), min_nd=2)
Op("hstack", g_join_along(1), lambda x, p: xnp.hstack(x), lambda l, p: np.concatenate(l, axis=1), min_nd=2)
Op("dstack", g_join_along(2), lambda x, p: xnp.dstack(x), lambda l, p: np.concatenate(l, axis=2), min_nd=3)
Op("column_stack", g_join_along(1), lambda x, p: xnp.column_stack(x), lambda l, p: np.concatenate(l, axis=1), min_nd=2)
Op("block", lambda rng, b: dict(shapes=[(2, 3), (2, 1), (1, 3), (1, 1)]), lambda x, p: xnp.block([[x[0], x[1]], [x[2], x[3]]]),
   lambda l, p: np.block([[l[0], l[1]], [l[2], l[3]]]), min_nd=2, max_nd=2, scalar_only=True)
Op("block-row", lambda rng, b: dict(shapes=[(3,), (2,), (4,)]), lambda x, p: xnp.block(list(x)), lambda l, p: np.block(list(l)), min_nd=1, max_nd=1, scalar_only=True)
Op("vstack1", g_same(3), lambda x, p: xnp.vstack(x), lambda l, p: np.vstack(l), max_nd=1, scalar_only=True)
Op("hstack1", g_same(3), lambda x, p: xnp.hstack(x), lambda l, p: np.hstack(l), max_nd=1, scalar_only=True)
Op("dstack1", g_same(2), lambda x, p: xnp.dstack(x), lambda l, p: np.dstack(l), max_nd=2, scalar_only=True)
Op("column_stack1", g_same(2), lambda x, p: xnp.column_stack(x), lambda l, p: np.column_stack(l), max_nd=1, scalar_only=True)
Op("tile", lambda rng, b: dict(shapes=[tuple(b)], reps=pick(rng, 2, 3, tuple(int(v) for v in rng.integers(1, 4, size=len(b))), (2, 1, 3))),
   lambda x, p: xnp.tile(x[0], p["reps"]), lambda l, p: np.tile(l[0], p["reps"]), scalar_only=True)


# --- shape
def splits_of(n, rng):
    """a random factorisation of n into 1..3 factors."""
    out, m = [], n
    for _ in range(int(rng.integers(0, 3))):
        d = [k for k in range(1, m + 1) if m % k == 0]
        k = int(rng.choice(d))
        out.append(k)
        m //= k
    out.append(m)
    return tuple(int(v) for v in rng.permutation(out))


def g_reshape(rng, b):
    n = int(np.prod(b))
    if n == 0:
        return dict(shapes=[tuple(b)], shape=pick(rng, (0,), (0, 2), (3, 0)), form="xnp")
    s = list(splits_of(n, rng))
    if rng.random() < 0.4:
        s[int(rng.integers(0, len(s)))] = -1
    return dict(shapes=[tuple(b)], shape=tuple(s), form=pick(rng, "xnp", "method", "args"))


def r_reshape(x, p):
    s = p["shape"]
    if p["form"] == "xnp":
        return xnp.reshape(x[0], s if len(s) != 1 else s[0])
    if p["form"] == "args":
        return x[0].reshape(*s)
    return x[0].reshape(s)


Op("reshape", g_reshape, r_reshape, lambda l, p: l[0].reshape(p["shape"]))
FL = dict(xnp=lambda x: xnp.flatten(x), ravel=lambda x: xnp.ravel(x), method=lambda x: x.flatten())
Op("flatten", lambda rng, b: dict(shapes=[tuple(b)], form=pick(rng, *FL)), lambda x, p: FL[p["form"]](x[0]), lambda l, p: l[0].reshape(-1))


def g_transpose(rng, b):
    return dict(shapes=[tuple(b)], axes=pick(rng, None, tuple(int(v) for v in rng.permutation(len(b)))), m=bool(rng.integers(0, 2)))


Op("transpose", g_transpose, lambda x, p: (x[0].transpose(p["axes"]) if p["m"] else xnp.transpose(x[0], p["axes"])), lambda l, p: l[0].transpose(p["axes"]))
Op("swapaxes", lambda rng, b: dict(shapes=[tuple(b)], a=ax(rng, len(b), True), c=ax(rng, len(b), True), m=bool(rng.integers(0, 2))),
   lambda x, p: (x[0].swapaxes(p["a"], p["c"]) if p["m"] else xnp.swapaxes(x[0], p["a"], p["c"])), lambda l, p: l[0].swapaxes(p["a"], p["c"]))


def g_moveaxis(rng, b):
    nd = len(b)
    if nd > 1 and rng.random() < 0.3:
        k = int(rng.integers(1, nd + 1))
        return dict(shapes=[tuple(b)], s=tuple(int(v) for v in rng.permutation(nd)[:k]), d=tuple(int(v) for v in rng.permutation(nd)[:k]), m=False)
    return dict(shapes=[tuple(b)], s=ax(rng, nd), d=ax(rng, nd), m=bool(rng.integers(0, 2)))


Op("moveaxis", g_moveaxis, lambda x, p: (x[0].moveaxis(p["s"], p["d"]) if p["m"] else xnp.moveaxis(x[0], p["s"], p["d"])), lambda l, p: np.moveaxis(l[0], p["s"], p["d"]))


def g_squeeze(rng, b):
    b = list(b)
    a = ax(rng, len(b))
    b[a] = 1
    if len(b) > 1 and rng.random() < 0.3:
        c = (a + 1) % len(b)
        b[c] = 1
        return dict(shapes=[tuple(b)], axis=(a, c), m=False)
    return dict(shapes=[tuple(b)], axis=a, m=bool(rng.integers(0, 2)))


Op("squeeze", g_squeeze, lambda x, p: (x[0].squeeze(p["axis"]) if p["m"] else xnp.squeeze(x[0], axis=p["axis"])), lambda l, p: l[0].squeeze(p["axis"]))
Op("expand_dims", lambda rng, b: dict(shapes=[tuple(b)], axis=int(rng.integers(0, len(b) + 1)), m=bool(rng.integers(0, 2))),
   lambda x, p: (x[0].expand_dims(p["axis"]) if p["m"] else xnp.expand_dims(x[0], p["axis"])), lambda l, p: np.expand_dims(l[0], p["axis"]), min_nd=0)


def g_repeat(rng, b):
    a = ax(rng, len(b))
    r = pick(rng, 1, 2, 3, 0, "arr")
    if r == "arr":
        r = rng.integers(0, 3, size=b[a])
        if r.sum() == 0 and len(r):
            r[0] = 1
    return dict(shapes=[tuple(b)], axis=a, r=r)


Op("repeat", g_repeat, lambda x, p: xnp.repeat(x[0], p["r"] if isinstance(p["r"], int) else np.asarray(p["r"]), axis=p["axis"]),
   lambda l, p: np.repeat(l[0], p["r"], axis=p["axis"]))


def g_roll(rng, b):
    if len(b) > 1 and rng.random() < 0.4:
        k = tuple(int(v) for v in rng.permutation(len(b))[:2])
        return dict(shapes=[tuple(b)], s=tuple(int(v) for v in rng.integers(-5, 6, size=2)), axis=k, m=bool(rng.integers(0, 2)))
    return dict(shapes=[tuple(b)], s=int(rng.integers(-5, 6)), axis=ax(rng, len(b)), m=bool(rng.integers(0, 2)))


Op("roll", g_roll, lambda x, p: (x[0].roll(p["s"], axis=p["axis"]) if p["m"] else xnp.roll(x[0], p["s"], axis=p["axis"])), lambda l, p: np.roll(l[0], p["s"], axis=p["axis"]))
Op("rot90", lambda rng, b: dict(shapes=[tuple(b)], k=int(rng.integers(-2, 5)), axes=tuple(int(v) for v in rng.permutation(len(b))[:2]), m=bool(rng.integers(0, 2))),
   lambda x, p: (x[0].rot90(k=p["k"], axes=p["axes"]) if p["m"] else xnp.rot90(x[0], k=p["k"], axes=p["axes"])), lambda l, p: np.rot90(l[0], k=p["k"], axes=p["axes"]), min_nd=2)
Op("flip", lambda rng, b: dict(shapes=[tuple(b)], axis=pick(rng, ax(rng, len(b)), tuple(range(len(b)))), m=bool(rng.integers(0, 2))),
   lambda x, p: (x[0].flip(axis=p["axis"]) if p["m"] else xnp.flip(x[0], axis=p["axis"])), lambda l, p: np.flip(l[0], axis=p["axis"]))


# --- pad
def g_pad(rng, b):
    nd = max(1, len(b))
    form = pick(rng, "int", "pair", "pairs", "list")
    if form == "int":
        w = int(rng.integers(0, 3))
        full = [(w, w)] * nd
    elif form == "pair":
        w = tuple(int(v) for v in rng.integers(0, 3, size=2))
        full = [w] + [(0, 0)] * (nd - 1)
    elif form == "pairs" or nd == 2:
        w = tuple(tuple(int(v) for v in rng.integers(0, 3, size=2)) for _ in range(nd))
        full = list(w)
    else:
        w = [int(v) for v in rng.integers(0, 3, size=nd)]
        full = [(v, v) for v in w]
    mode = pick(rng, "constant", "constant", "edge", "wrap", "reflect", "symmetric")
    if mode != "constant":
        lim = [d if mode in ("wrap", "symmetric", "edge") else d - 1 for d in (b or (1,))]
        if any(d == 0 for d in (b or (1,))) or any(max(f) > m for f, m in zip(full, lim)):
            mode = "constant"
    return dict(shapes=[tuple(b)], w=w, full=full, mode=mode, m=bool(rng.integers(0, 2)))


def r_pad(x, p):
    kw = {} if p["mode"] == "constant" else dict(mode=p["mode"])
    return x[0].pad(p["w"], **kw) if p["m"] else xnp.pad(x[0], p["w"], **kw)


def l_pad(l, p):
    a = l[0]
    if all(f == (0, 0) for f in p["full"]):
        return a
    if a.ndim == 0:
        a = a[None]
    if p["mode"] == "constant":
        return np.pad(a, p["full"], constant_values=-1)
    return np.pad(a, p["full"], mode=p["mode"])


Op("pad", g_pad, r_pad, l_pad, min_nd=0, max_nd=3)


# --- select
def g_split(rng, b):
    b = list(b)
    a = ax(rng, len(b))
    if rng.random() < 0.5:
        k = int(rng.integers(1, 4))
        b[a] = k * int(rng.integers(1, 3))
        return dict(shapes=[tuple(b)], axis=a, s=k)
    b[a] = max(b[a], 2)
    return dict(shapes=[tuple(b)], axis=a, s=tuple(sorted(int(v) for v in rng.integers(0, b[a] + 1, size=int(rng.integers(1, 3))))))


Op("split", g_split, lambda x, p: xnp.split(x[0], p["s"] if isinstance(p["s"], int) else np.array(p["s"]), axis=p["axis"]),
   lambda l, p: np.split(l[0], p["s"] if isinstance(p["s"], int) else list(p["s"]), axis=p["axis"]))


def g_take(rng, b):
    a = ax(rng, len(b))
    sh = pick(rng, (), (4,), (2, 3), (1,))
    lo = -b[a] if rng.random() < 0.4 else 0
    return dict(shapes=[tuple(b)], axis=a, i=rng.integers(lo, b[a], size=sh).astype(pick(rng, np.int32, np.int32, np.int16)))


Op("take", g_take, lambda x, p: xnp.take(x[0], jnp.asarray(p["i"]), axis=p["axis"]), lambda l, p: np.take(l[0], p["i"], axis=p["axis"]))


def g_taa(rng, b):
    a = ax(rng, len(b))
    s = list(b)
    s[a] = int(rng.integers(1, 5))
    return dict(shapes=[tuple(b)], axis=a, i=rng.integers(0, b[a], size=s).astype(np.int32))


Op("take_along_axis", g_taa, lambda x, p: xnp.take_along_axis(x[0], jnp.asarray(p["i"]), axis=p["axis"]), lambda l, p: np.take_along_axis(l[0], p["i"], axis=p["axis"]))
Op("atleast_1d", g_same(1), lambda x, p: xnp.atleast_1d(x[0]), lambda l, p: np.atleast_1d(l[0]), min_nd=1)


def g_bc(rng, b):
    return dict(shapes=[tuple(b)])


def batch_shape(rng, nd, allow_zero=False):
    s = tuple(int(v) for v in rng.integers(1, 5, size=nd))
    if allow_zero and nd and rng.random() < 0.06:
        s = list(s)
        s[int(rng.integers(0, nd))] = 0
        s = tuple(s)
    return s


ZERO_OK = {"concat", "concatenate", "stack", "flatten", "transpose", "swapaxes", "moveaxis", "expand_dims", "flip", "roll", "pad", "reshape"}
