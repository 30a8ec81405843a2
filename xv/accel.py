"""Stand-ins for an accelerator: Pallas kernels run in interpret mode (jit-able, used end to end) or on a
simulator that executes the kernel's programs as interleaved threads over watched memory (direct calls).

install(kind) must run before xtructure is imported.
"""
import threading

import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import pallas as pl
from jax.experimental.pallas import triton as plt

_real_call = pl.pallas_call
_real_pid = pl.program_id
_real_np = pl.num_programs
_real_mult = pl.multiple_of

ATOMICS = {
    "atomic_or": lambda a, v: a | v, "atomic_and": lambda a, v: a & v, "atomic_xor": lambda a, v: a ^ v,
    "atomic_add": lambda a, v: a + v, "atomic_max": lambda a, v: jnp.maximum(a, v), "atomic_min": lambda a, v: jnp.minimum(a, v),
    "atomic_xchg": lambda a, v: v,
}


class State:
    kind = None         # "gpu" / "tpu": what jax.default_backend() reports
    sim = None          # active Simulator
    calls = 0           # kernels launched
    perm = 0            # program order of interpreted parallel kernels (0: ascending, 1: descending)


_tls = threading.local()


class OutOfBounds(Exception):
    pass


def _interpret_call(kernel, args, kw, real_args=()):
    kw = dict(kw)
    kw.pop("backend", None)
    kw.pop("compiler_params", None)
    kw["interpret"] = True
    return _real_call(kernel, *args, **kw)


def pallas_call(kernel, *args, **kw):
    State.calls += 1
    sequential = kw.get("backend") == "mosaic_tpu"
    sim = State.sim
    if sim is not None and not args and set(kw) <= {"grid", "out_shape", "backend", "compiler_params", "input_output_aliases", "interpret", "name", "debug", "cost_estimate"}:
        return sim.call(kernel, sequential=sequential, **kw)
    if sim is not None:
        sim.fallbacks += 1
    grid = kw.get("grid")
    flip = State.perm and not sequential and isinstance(grid, tuple) and len(grid) == 1 and "grid_spec" not in kw and "in_specs" not in kw

    if flip:
        def flipped(*refs):
            old = getattr(_tls, "flip", None)
            _tls.flip = grid[0]
            try:
                return kernel(*refs)
            finally:
                _tls.flip = old
        return _interpret_call(flipped, args, kw)
    return _interpret_call(kernel, args, kw)


def program_id(axis):
    st = getattr(_tls, "prog", None)
    if st is not None:
        return st.pid(axis)
    n = getattr(_tls, "flip", None)
    p = _real_pid(axis)
    if n is not None and axis == 0:
        return jnp.int32(n - 1) - p
    return p


def num_programs(axis):
    st = getattr(_tls, "prog", None)
    return jnp.int32(st.grid[axis]) if st is not None else _real_np(axis)


def multiple_of(x, values):
    st = getattr(_tls, "prog", None)
    if st is None:
        return _real_mult(x, values)
    if int(np.asarray(x)) % int(values) != 0:
        raise OutOfBounds(f"multiple_of({int(np.asarray(x))}, {values}) does not hold")
    return x


def _mk_atomic(name, op):
    def atomic(ref, idx, val, *, mask=None, **_):
        if isinstance(ref, FakeRef):
            return ref.atomic(idx, val, op, mask)
        # sequential interpretation: read, combine, write
        old = ref[idx]
        new = op(old, jnp.asarray(val, old.dtype))
        ref[idx] = new if mask is None else jnp.where(mask, new, old)
        return old
    atomic.__name__ = name
    return atomic


def atomic_cas(ref, idx_or_cmp, *rest, **kw):
    # jax: atomic_cas(x_ref_or_view, cmp, val); views are not supported by the stand-in
    raise NotImplementedError("atomic_cas has no stand-in")


def install(kind):
    State.kind = kind
    pl.pallas_call = pallas_call
    pl.program_id = program_id
    pl.num_programs = num_programs
    pl.multiple_of = multiple_of
    for n, op in ATOMICS.items():
        if hasattr(plt, n):
            setattr(plt, n, _mk_atomic(n, op))
    jax.default_backend = lambda: State.kind


# ---------------------------------------------------------------- simulator
class Prog:
    def __init__(self, index, grid):
        self.index, self.grid = index, grid

    def pid(self, axis):
        i = self.index
        for ax in range(len(self.grid) - 1, axis, -1):
            i //= self.grid[ax]
        return jnp.int32(i % self.grid[axis])


class FakeRef:
    """memory of one kernel operand; every access is a scheduling point and is bounds-checked."""

    def __init__(self, sim, name, data, owner=None):
        self.sim, self.name = sim, name
        self.data = data
        self.writer = owner if owner is not None else np.full(data.shape, -1, np.int32)

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)

    def __len__(self):
        return self.data.shape[0]

    def _index(self, idx):
        """-> (numpy index usable on self.data, in-bounds flag, result shape)"""
        if idx is Ellipsis or (isinstance(idx, tuple) and not idx):
            return Ellipsis, True
        idx = idx if isinstance(idx, tuple) else (idx,)
        out, ok = [], True
        for ax, i in enumerate(idx):
            n = self.data.shape[ax]
            if isinstance(i, pl.Slice):
                st, sz, stride = int(np.asarray(i.start)), int(i.size), int(getattr(i, "stride", 1) or 1)
                ok &= st >= 0 and st + (sz - 1) * stride < n
                out.append(st + np.arange(sz) * stride)
            elif isinstance(i, slice):
                out.append(np.arange(n)[i])
            elif i is Ellipsis:
                raise NotImplementedError("ellipsis index")
            else:
                a = np.asarray(i)
                ok &= bool(((a >= 0) & (a < n)).all())
                out.append(a)
        if any(isinstance(o, np.ndarray) and o.ndim for o in out):
            # orthogonal indexing, scalars dropped afterwards
            grids = np.ix_(*[np.atleast_1d(o) for o in out])
            return (grids, tuple(k for k, o in enumerate(out) if np.ndim(o) == 0)), ok
        return tuple(int(o) for o in out), ok

    def _get(self, ix):
        if isinstance(ix, tuple) and ix and isinstance(ix[0], tuple):
            g, drop = ix
            return self.data[g].squeeze(axis=drop) if drop else self.data[g]
        return self.data[ix]

    def _put(self, ix, v):
        if isinstance(ix, tuple) and ix and isinstance(ix[0], tuple):
            g, drop = ix
            v = np.asarray(v)
            for d in drop:
                v = np.expand_dims(v, d)
            self.data[g] = v
            self.writer[g] = _tls.prog.index
            return
        self.data[ix] = np.asarray(v)
        self.writer[ix] = _tls.prog.index

    def __getitem__(self, idx):
        ix, ok = self._index(idx)
        self.sim.point(self, "load")
        if not ok:
            self.sim.oob_loads += 1
            shp = np.shape(np.empty(self.data.shape[len(idx) if isinstance(idx, tuple) else 1:]))
            sizes = [() if np.ndim(i) == 0 and not isinstance(i, (pl.Slice, slice)) else (int(i.size) if isinstance(i, pl.Slice) else np.shape(i)[0],)
                     for i in (idx if isinstance(idx, tuple) else (idx,))]
            full = tuple(x for s in sizes for x in s) + shp
            return jnp.asarray(garbage(self.sim.rng, full, self.data.dtype))
        self.sim.loads += 1
        return jnp.asarray(np.array(self._get(ix)))

    def __setitem__(self, idx, val):
        ix, ok = self._index(idx)
        self.sim.point(self, "store")
        if not ok:
            raise OutOfBounds(f"store outside {self.name}{self.data.shape} at {idx!r:.120} by program {_tls.prog.index}")
        self.sim.stores += 1
        v = np.asarray(val)
        self._put(ix, v)

    def atomic(self, idx, val, op, mask):
        ix, ok = self._index(idx)
        self.sim.point(self, "atomic")
        on = True if mask is None else bool(np.asarray(mask))
        if not on:
            return jnp.asarray(garbage(self.sim.rng, (), self.data.dtype))
        if not ok:
            raise OutOfBounds(f"atomic outside {self.name}{self.data.shape} at {idx!r:.120} by program {_tls.prog.index}")
        old = np.array(self._get(ix))
        new = np.asarray(op(jnp.asarray(old), jnp.asarray(val, old.dtype)))
        self._put(ix, new)
        self.sim.atomics += 1
        if (old & np.asarray(val)).any():
            self.sim.lost_claims += 1
        return jnp.asarray(old)


def garbage(rng, shape, dtype):
    n = int(np.prod(shape, dtype=np.int64)) if shape else 1
    dt = np.dtype(dtype)
    if dt == np.bool_:
        return rng.integers(0, 2, size=n).astype(bool).reshape(shape)
    return rng.integers(0, 256, size=n * dt.itemsize, dtype=np.uint8).view(dt).reshape(shape)


class Simulator:
    """runs the programs of one launch as threads; exactly one runs at a time, switching at memory accesses."""

    def __init__(self, rng, switch=0.5, order="random", window=None):
        self.rng, self.switch, self.order, self.window = rng, switch, order, window
        self.launches = self.loads = self.stores = self.atomics = self.switches = self.oob_loads = self.lost_claims = self.fallbacks = 0
        self.schedules = set()

    def __enter__(self):
        self._old, State.sim = State.sim, self
        return self

    def __exit__(self, *a):
        State.sim = self._old

    # one launch
    def call(self, kernel, *, grid, out_shape, sequential, input_output_aliases=None, **_):
        grid = (grid,) if isinstance(grid, int) else tuple(int(g) for g in grid)
        aliases = dict(input_output_aliases or {})
        outs, treedef = jax.tree_util.tree_flatten(out_shape, is_leaf=lambda x: hasattr(x, "shape") and hasattr(x, "dtype"))

        def run(*inputs):
            if any(isinstance(x, jax.core.Tracer) for x in inputs):
                raise NotImplementedError("the simulator needs concrete operands (disable jit)")
            self.launches += 1
            ins = [np.array(x) for x in inputs]
            in_refs = [FakeRef(self, f"in{i}", a) for i, a in enumerate(ins)]
            out_refs = []
            inv = {o: i for i, o in aliases.items()}
            for k, o in enumerate(outs):
                if k in inv:
                    # input and output share memory
                    r = FakeRef(self, f"out{k}", in_refs[inv[k]].data)
                    in_refs[inv[k]].writer = r.writer
                else:
                    r = FakeRef(self, f"out{k}", np.array(garbage(self.rng, tuple(o.shape), o.dtype)))
                out_refs.append(r)
            self.run_programs(kernel, grid, in_refs + out_refs, sequential)
            res = [jnp.asarray(r.data.copy()) for r in out_refs]
            return jax.tree_util.tree_unflatten(treedef, res)
        return run

    def run_programs(self, kernel, grid, refs, sequential):
        n = int(np.prod(grid))
        if sequential or n == 1:
            self._threads = None
            for p in range(n):
                _tls.prog = Prog(p, grid)
                try:
                    with jax.disable_jit():
                        kernel(*refs)
                finally:
                    _tls.prog = None
            return
        order = list(range(n))
        if self.order == "random":
            self.rng.shuffle(order)
        elif self.order == "reverse":
            order.reverse()
        window = self.window or n   # how many programs are resident at once
        self._log, errors = [], []
        self._go = {p: threading.Semaphore(0) for p in order}
        self._main = threading.Semaphore(0)
        live, waiting = [], list(order)

        def body(p):
            self._go[p].acquire()
            _tls.prog = Prog(p, grid)
            try:
                with jax.disable_jit():
                    kernel(*refs)
            except BaseException as e:  # noqa
                errors.append(e)
            finally:
                _tls.prog = None
                self._done = p
                self._main.release()

        self._threads = True
        self._done = None
        cur = None
        while waiting or live:
            while waiting and len(live) < window:
                p = waiting.pop(0)
                threading.Thread(target=body, args=(p,), daemon=True).start()
                live.append(p)
            if cur is None or cur not in live or self.rng.random() < self.switch:
                nxt = live[int(self.rng.integers(0, len(live)))]
                if cur is not None and nxt != cur:
                    self.switches += 1
                cur = nxt
            self._log.append(cur)
            self._done = None
            self._go[cur].release()
            self._main.acquire()
            if self._done is not None:
                live.remove(self._done)
        self._threads = None
        self.schedules.add(hash(tuple(self._log)))
        if errors:
            raise errors[0]

    def point(self, ref, kind):
        if self._threads is None:
            return
        p = _tls.prog.index
        self._main.release()
        self._go[p].acquire()
