"""Record types, adversarial generators and byte-level oracles shared by the checks.

Types are declared by a table kept here (SPEC), so that expected shapes, dtypes and fill
values never come from the code under test."""
import os
from typing import Annotated

import jax
import jax.numpy as jnp
import numpy as np
import ml_dtypes
from xtructure import FieldDescriptor, xtructure_dataclass

UNSET = object()


class F:
    """One declared field: plain dtype, nested class, or packed tensor."""

    def __init__(self, dtype=None, shape=(), *, bits=None, fill=UNSET, nested=None, packed=None, unpacked=None, short=False):
        self.dtype = None if dtype is None else np.dtype(dtype)
        self.shape = tuple(shape)
        self.bits, self.fill, self.nested = bits, fill, nested
        self.packed, self.unpacked, self.short = packed, unpacked, short

    def descriptor(self):
        kw = {}
        if self.fill is not UNSET:
            kw["fill_value"] = self.fill
        if self.nested is not None:
            return FieldDescriptor.tensor(dtype=self.nested, shape=self.shape)
        if self.packed is not None:
            if self.unpacked is not None:
                kw["unpacked_dtype"] = self.unpacked
            return FieldDescriptor.packed_tensor(shape=self.shape, packed_bits=self.packed, **kw)
        if self.bits is not None:
            kw["bits"] = self.bits
        return FieldDescriptor.tensor(dtype=jnp.dtype(self.dtype), shape=self.shape, **kw)

    def annotation(self, rng):
        """the same declaration in one of the documented styles."""
        d = self.descriptor()
        if self.packed is None and self.bits is None and rng is not None:
            t = self.nested if self.nested is not None else jnp.dtype(self.dtype).type if rng.random() < 0.5 else jnp.dtype(self.dtype)
            kw = {} if self.fill is UNSET else {"fill_value": self.fill}
            r = int(rng.integers(0, 5))
            if r == 0 and self.shape == ():
                d = FieldDescriptor.scalar(dtype=t, **({"default": self.fill} if kw else {}))
            elif r == 1:
                d = FieldDescriptor(t, self.shape, **kw) if not kw or rng.random() < 0.5 else FieldDescriptor(t, self.shape, self.fill)
            elif r == 2:
                d = FieldDescriptor[t, self.shape] if not kw else FieldDescriptor[t, self.shape, self.fill]
            elif r == 3 and self.shape == ():
                d = FieldDescriptor[t] if not kw else FieldDescriptor[t, self.fill]
            elif r == 4:
                d = FieldDescriptor.tensor(dtype=t, shape=self.shape, **kw)
        return Annotated[object, d] if rng is not None and rng.random() < 0.2 else d

    # storage seen as a plain leaf
    def store_dtype(self):
        return np.dtype(np.uint8) if self.packed is not None else self.dtype

    def store_shape(self):
        if self.packed is not None:
            return tuple(self.descriptor().intrinsic_shape)  # the byte stream's length is the library's choice
        return self.shape


SPEC = {}


def mk(module_globals, name, fields, style=None, **decor):
    cls = type(name, (), {"__module__": module_globals["__name__"], "__qualname__": name,
                          "__annotations__": {k: f.annotation(style) for k, f in fields.items()}})
    cls = xtructure_dataclass(cls, **decor)
    SPEC[cls] = dict(fields)
    module_globals[name] = cls
    return cls


class Leaf:
    __slots__ = ("path", "dtype", "shape", "field")

    def __init__(self, path, dtype, shape, field):
        self.path, self.dtype, self.shape, self.field = path, dtype, shape, field


_leaf_cache = {}


def leaves(cls):
    if cls in _leaf_cache:
        return _leaf_cache[cls]
    out = []

    def rec(c, path, pre):
        for k, f in SPEC[c].items():
            if f.nested is not None:
                rec(f.nested, path + (k,), pre + f.shape)
            else:
                out.append(Leaf(path + (k,), f.store_dtype(), pre + f.store_shape(), f))

    rec(cls, (), ())
    _leaf_cache[cls] = out
    return out


# ------------------------------------------------------------------ generators
_SPECIAL_F = [0.0, 1.0, -1.0, np.inf, -np.inf, 0.5, 1e-3, 3.0, -2.5]


def is_float(dt):
    return dt.kind == "f" or dt in (np.dtype(ml_dtypes.bfloat16),) or "float8" in dt.name


def gen_array(rng, dt, shape, mode="mix", bits=None):
    dt = np.dtype(dt)
    n = int(np.prod(shape, dtype=np.int64))
    if mode == "mix":
        mode = rng.choice(["uniform", "small", "edge", "uniform"])
    if dt == np.bool_:
        return rng.integers(0, 2, size=shape).astype(bool)
    if is_float(dt):
        fi = ml_dtypes.finfo(dt) if dt.kind != "f" else np.finfo(dt)
        if mode == "small":
            v = rng.integers(0, 3, size=n).astype(np.float32)
        elif mode == "edge":
            hasinf = True
            try:
                hasinf = bool(np.isinf(np.array(np.inf).astype(dt).astype(np.float32)))
            except Exception:
                hasinf = False
            sp = [x for x in _SPECIAL_F if hasinf or np.isfinite(x)] + [float(fi.max), float(fi.min), float(fi.smallest_normal)]
            v = np.array(sp, dtype=np.float64)[rng.integers(0, len(sp), size=n)]
        else:
            v = rng.standard_normal(n) * 10.0 ** rng.integers(-2, 3, size=n)
            if "float8" in dt.name:
                v = np.clip(v, -8, 8)
        with np.errstate(over="ignore"):
            a = np.asarray(v).astype(dt)
        a = np.where(a == 0, np.zeros((), dt), a).astype(dt)  # no -0.0
        return a.reshape(shape)
    if dt == np.uint64:
        v = rng.integers(0, 2**64, size=n, dtype=np.uint64)
        if mode != "uniform":
            v = v % np.uint64(3) if mode == "small" else np.where(v % np.uint64(2) == 0, np.uint64(2**64 - 1), v >> np.uint64(int(rng.integers(1, 63))))
        if bits is not None:
            v = v & np.uint64((1 << bits) - 1)
        return v.astype(dt).reshape(shape)
    info = np.iinfo(dt)
    lo, hi = int(info.min), int(info.max)
    if bits is not None:
        lo, hi = 0, min(hi, (1 << bits) - 1)
    if mode == "small":
        v = rng.integers(max(lo, -1), min(hi, 2) + 1, size=n)
    elif mode == "edge":
        sp = sorted({lo, lo + 1, hi, hi - 1 if hi > lo else hi, 0, 1, (hi + 1) // 2, max(lo, -1)})
        sp = [x for x in sp if lo <= x <= hi]
        v = np.array(sp, dtype=np.int64)[rng.integers(0, len(sp), size=n)]
    else:
        v = rng.integers(lo, hi, size=n, endpoint=True, dtype=np.int64)
    return v.astype(dt).reshape(shape)


def records(cls, rng, batch=(), mode="mix"):
    """dict path -> numpy array of shape batch + intrinsic."""
    if isinstance(batch, int):
        batch = (batch,)
    out = {}
    for lf in leaves(cls):
        f = lf.field
        if f.packed is not None:
            out[lf.path] = gen_array(rng, lf.dtype, batch + lf.shape, mode)
        else:
            out[lf.path] = gen_array(rng, lf.dtype, batch + lf.shape, mode, bits=f.bits)
    return out


def unique_records(cls, rng, n, mode="uniform"):
    """n pairwise distinct records (1-D batch)."""
    got, seen = None, set()
    tries = 0
    while len(seen) < n:
        arr = records(cls, rng, max(4, 2 * (n - len(seen))), mode)
        ks = keys(cls, arr)
        sel = []
        for i, k in enumerate(ks):
            if k not in seen and len(seen) < n:
                seen.add(k)
                sel.append(i)
        part = take(arr, sel)
        got = part if got is None else {p: np.concatenate([got[p], part[p]]) for p in got}
        tries += 1
        if tries > 200:
            raise RuntimeError("record domain too small")
    return got


def take(arr, idx):
    return {p: a[idx] for p, a in arr.items()}


def cat(arrs):
    return {p: np.concatenate([a[p] for a in arrs]) for p in arrs[0]}


def build(cls, arr, host=False):
    """instance from dict path -> numpy array."""

    def rec(c, path):
        kw = {}
        for k, f in SPEC[c].items():
            if f.nested is not None:
                kw[k] = rec(f.nested, path + (k,))
            else:
                a = arr[path + (k,)]
                kw[k] = a if host else jnp.asarray(a)
        return c(**kw)

    return rec(cls, ())


def arrays_of(cls, inst):
    out = {}
    for lf in leaves(cls):
        v = inst
        for p in lf.path:
            v = getattr(v, p)
        out[lf.path] = np.asarray(v)
    return out


def keys(cls, arr, batch_ndim=1):
    """list of byte strings, one per record (row-major over the batch)."""
    parts = []
    n = None
    for lf in leaves(cls):
        a = np.array(arr[lf.path], order="C")
        b = a.shape[:a.ndim - len(lf.shape)]
        if batch_ndim is not None and len(b) != batch_ndim:
            raise ValueError(f"leaf {lf.path}: batch {b}, wanted {batch_ndim} dims")
        n = int(np.prod(b, dtype=np.int64))
        if a.dtype == np.bool_:
            a = a.astype(np.uint8)
        raw = a.reshape(n, int(np.prod(lf.shape, dtype=np.int64)))
        if raw.shape[1] == 0:
            continue
        parts.append(raw.view(np.uint8).reshape(n, raw.shape[1] * raw.dtype.itemsize))
    m = np.concatenate(parts, axis=1) if parts else np.zeros((n or 0, 0), np.uint8)
    return [r.tobytes() for r in m]


def inst_keys(cls, inst, batch_ndim=1):
    return keys(cls, arrays_of(cls, inst), batch_ndim)


def check_inst(ctx, cls, inst, exp, what, key, **detail):
    """inst must be exactly the records `exp` (dict of numpy arrays), bitwise, with dtypes."""
    if type(inst) is not cls:
        ctx.fail(key + ":type", f"{what}: expected a {cls.__name__}, got {type(inst).__name__}", **detail)
    got = arrays_of(cls, inst)
    for lf in leaves(cls):
        g, e = got[lf.path], np.asarray(exp[lf.path])
        if g.shape != e.shape:
            ctx.fail(key + ":shape", f"{what}: field {'.'.join(lf.path)} has shape {g.shape}, expected {e.shape}", **detail)
        if g.dtype != e.dtype:
            ctx.fail(key + ":dtype", f"{what}: field {'.'.join(lf.path)} has dtype {g.dtype}, expected {e.dtype}", **detail)
        if g.tobytes() != e.tobytes():
            ne = np.ascontiguousarray(g).reshape(-1).view(np.uint8) != np.ascontiguousarray(e).reshape(-1).view(np.uint8)
            pos = int(np.flatnonzero(ne)[0]) // max(1, g.dtype.itemsize)
            at = tuple(int(i) for i in np.unravel_index(pos, g.shape)) if g.ndim else ()
            ctx.fail(key + ":value", f"{what}: field {'.'.join(lf.path)} differs at {at}: got {g[at]!r}, expected {e[at]!r}",
                     got=g, expected=e, **detail)


def tree_bytes(tree):
    """bit-exact snapshot of any pytree of arrays."""
    lv, td = jax.tree_util.tree_flatten(tree)
    return (str(td), tuple((np.asarray(x).dtype.str + str(np.asarray(x).dtype), np.asarray(x).shape, np.asarray(x).tobytes()) for x in lv))


def same_tree(ctx, a, b, what, key, **detail):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
        ctx.fail(key + ":structure", f"{what}: structures differ: {ta} vs {tb}", **detail)
    for i, (x, y) in enumerate(zip(la, lb)):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype or x.tobytes() != y.tobytes():
            ctx.fail(key + ":value", f"{what}: leaf {i} differs: {x.dtype}{x.shape} vs {y.dtype}{y.shape}", left=x, right=y, **detail)


# ------------------------------------------------------------------ near-duplicates
def perturb(cls, rng, arr, i):
    """changes one element of one field of record i in place, staying a legal, normal value."""
    lv = [lf for lf in leaves(cls) if int(np.prod(lf.shape, dtype=np.int64)) > 0]
    lf = lv[int(rng.integers(0, len(lv)))]
    a = arr[lf.path]
    sub = a[i].reshape(-1).copy()
    j = int(rng.integers(0, sub.size))
    v = sub[j]
    if lf.dtype == np.bool_:
        sub[j] = not v
    elif is_float(lf.dtype):
        opts = np.array([1.0, 2.0, -1.0, 0.5, 0.0]).astype(lf.dtype)
        opts = [o for o in opts if o != v]
        sub[j] = opts[int(rng.integers(0, len(opts)))]
    else:
        bits = lf.field.bits if (lf.field.bits is not None and lf.field.packed is None) else lf.dtype.itemsize * 8
        u = sub.view(f"u{lf.dtype.itemsize}")
        u[j] ^= np.asarray(1 << int(rng.integers(0, bits)), u.dtype)
    a[i] = sub.reshape(a[i].shape)


def top_flips(cls, rng, one):
    """change the highest bit of two elements of the largest leaf (weak mixing cancels such pairs)."""
    lv = [l for l in leaves(cls) if l.field.bits is None and l.field.packed is None and l.dtype != np.bool_ and int(np.prod(l.shape)) > 1]
    if not lv:
        return perturb(cls, rng, one, 0)
    lf = max(lv, key=lambda l: int(np.prod(l.shape)))
    u = np.ascontiguousarray(one[lf.path][0]).reshape(-1).view(f"u{lf.dtype.itemsize}")
    for i in rng.choice(u.size, size=2, replace=False):
        if not (is_float(lf.dtype) and u[i] in (0, 1 << (lf.dtype.itemsize * 8 - 1))):
            u[i] ^= np.asarray(1 << (lf.dtype.itemsize * 8 - 1), u.dtype)
    one[lf.path][0] = u.view(lf.dtype).reshape(lf.shape)


def pool_records(cls, rng, n, near=0.5, mode="uniform"):
    """n distinct records, a share of them one element away from another one."""
    base = unique_records(cls, rng, max(2, int(n * (1 - near))), mode)
    nb = len(keys(cls, base))
    seen = set(keys(cls, base))
    parts = [base]
    have, tries = nb, 0
    while have < n:
        src = int(rng.integers(0, nb))
        one = {p: v[src:src + 1].copy() for p, v in base.items()}
        if rng.random() < 0.35:
            top_flips(cls, rng, one)
        else:
            perturb(cls, rng, one, 0)
        k = keys(cls, one)[0]
        tries += 1
        if k in seen:
            if tries > 50 * n:
                raise RuntimeError("record domain too small")
            continue
        seen.add(k)
        parts.append(one)
        have += 1
    out = cat(parts)
    perm = rng.permutation(have)[:n]
    return take(out, perm)


def fill_of(lf):
    """declared (or documented default) fill value of a leaf."""
    f = lf.field
    if f.fill is not UNSET:
        return f.fill
    if f.packed is not None:
        return 0
    if lf.dtype == np.bool_:
        return False
    if is_float(lf.dtype):
        return np.inf
    if lf.dtype.kind == "u":
        return np.iinfo(lf.dtype).max
    return 0


# ------------------------------------------------------------------ types made up on the fly
_DTS = [np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.float32, np.float16, np.bool_, ml_dtypes.bfloat16]
_n_types = [0]


def random_type(rng, depth=2, module_globals=None, nested_arrays=True, packed=True, fills=True, max_fields=4, **decor):
    """A fresh record type with random fields (declared through a random mix of styles)."""
    fields = {}
    for i in range(int(rng.integers(1, max_fields + 1))):
        shape = tuple(int(d) for d in rng.integers(1, 4, size=int(rng.choice([0, 0, 1, 1, 2]))))
        r = rng.random()
        if depth > 0 and r < 0.3:
            sub = random_type(rng, depth - 1, module_globals, nested_arrays, packed, fills, max_fields, **decor)
            f = F(nested=sub, shape=shape if nested_arrays and rng.random() < 0.4 else ())
        elif packed and r < 0.38:
            f = F(shape=shape or (3,), packed=int(rng.choice([1, 2, 3, 5, 8, 11])))
        else:
            dt = np.dtype(_DTS[int(rng.integers(0, len(_DTS)))])
            fill = UNSET
            if fills and rng.random() < 0.4:
                v = gen_array(rng, dt, (), "edge" if dt.kind in "iu" else "small")
                fill = v.item()
            f = F(dt, shape, fill=fill)
        fields[f"f{i}"] = f
    _n_types[0] += 1
    g = module_globals if module_globals is not None else {"__name__": __name__}
    return mk(g, f"T{_n_types[0]}", fields, style=rng, **decor)
