"""Containers as small machines: named pure operations `fn(container, x) -> (container, outputs)` over a common
argument dict, with a tiny host-side tracker that keeps histories inside the documented domain."""
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import BGPQ, HashTable, Queue, Stack

from xv import rt
from xv.rtypes import BY


class Machine:
    ops = {}

    def __init__(self, rng, cls):
        self.rng, self.C = rng, BY[cls]

    def names(self):
        return list(self.ops)

    def run(self, name, c, x):
        return self.ops[name](self, c, x)


def batch_of(C, rng, pool, n):
    return rt.build(C, rt.take(pool, rng.integers(0, len(next(iter(pool.values()))), size=n)))


class StackM(Machine):
    def __init__(self, rng, cls, cap=12, b=3, k=2):
        super().__init__(rng, cls)
        self.cap, self.b, self.k = cap, b, k
        self.pool = rt.records(self.C, rng, 24, "uniform")

    def fresh(self):
        return Stack.build(self.cap, self.C), 0

    def args(self):
        return dict(many=batch_of(self.C, self.rng, self.pool, self.b), one=rt.build(self.C, rt.take(self.pool, int(self.rng.integers(0, 24)))),
                    i=jnp.uint32(self.rng.integers(0, self.cap)))

    def track(self, n, op):
        """tracker after op, or None when the op is outside the domain."""
        d = dict(push=self.b, push1=1, pop=-self.k, pop1=-1, peek=0, peek1=0, get=0)[op]
        if op == "peek" and n < self.k or op in ("peek1", "get") and n < 1 or n + d < 0 or n + d > self.cap:
            return None
        return n + d

    ops = dict(
        push=lambda m, c, x: (c.push(x["many"]), ()),
        push1=lambda m, c, x: (c.push(x["one"]), ()),
        pop=lambda m, c, x: c.pop(m.k),
        pop1=lambda m, c, x: c.pop(),
        peek=lambda m, c, x: (c, c.peek(m.k)),
        peek1=lambda m, c, x: (c, c.peek()),
        get=lambda m, c, x: (c, (c[x["i"] % jnp.maximum(c.size, 1)], c.size)),
    )


class QueueM(StackM):
    """tracker: (size, used budget)."""

    def fresh(self):
        return Queue.build(self.cap, self.C), (0, 0)

    def track(self, s, op):
        n, used = s
        if op == "clear":
            return (0, 0)
        add = dict(enq=self.b, enq1=1).get(op, 0)
        rem = dict(deq=self.k, deq1=1).get(op, 0)
        need = dict(deq=self.k, deq1=1, peek=self.k, peek1=1, get=1).get(op, 0)
        if n < need or used + add > self.cap:
            return None
        return (n + add - rem, used + add)

    ops = dict(
        enq=lambda m, c, x: (c.enqueue(x["many"]), ()),
        enq1=lambda m, c, x: (c.enqueue(x["one"]), ()),
        deq=lambda m, c, x: c.dequeue(m.k),
        deq1=lambda m, c, x: c.dequeue(),
        peek=lambda m, c, x: (c, c.peek(m.k)),
        peek1=lambda m, c, x: (c, c.peek()),
        get=lambda m, c, x: (c, (c[x["i"] % jnp.maximum(c.size, 1)], c.size)),
        clear=lambda m, c, x: (c.clear(), ()),
    )


class HeapM(Machine):
    def __init__(self, rng, cls, total=24, batch=4, dtype=np.float32):
        super().__init__(rng, cls)
        self.total, self.b, self.dt = total, batch, np.dtype(dtype)
        self.pool = rt.records(self.C, rng, 24, "uniform")

    def fresh(self):
        return BGPQ.build(self.total, self.b, self.C, self.dt), 0

    def args(self):
        k = self.rng.integers(-20, 20, size=self.b).astype(np.float32).astype(self.dt)
        n = int(self.rng.integers(1, self.b + 1))
        part = k.copy()
        part[n:] = np.inf
        return dict(full=jnp.asarray(k), part=jnp.asarray(part), short=jnp.asarray(k[:2]), many=batch_of(self.C, self.rng, self.pool, self.b),
                    two=batch_of(self.C, self.rng, self.pool, 2))

    def track(self, n, op):
        add = dict(ins=self.b, ins_part=self.b, ins_short=2).get(op, 0)
        if n + add > self.total:
            return None
        return max(0, n + add - (self.b if op == "del" else 0))

    def _short(m, c, x):
        k, v = BGPQ.make_batched(x["short"], x["two"], m.b)
        return c.insert(k, v), (k, v)

    def _del(m, c, x):
        c, k, v = c.delete_mins()
        return c, (k, v)

    ops = dict(
        ins=lambda m, c, x: (c.insert(x["full"], x["many"]), c.size),
        ins_part=lambda m, c, x: (c.insert(x["part"], x["many"]), c.size),
        ins_short=_short,
        size=lambda m, c, x: (c, c.size),
    )
    ops["del"] = _del


class TableM(Machine):
    def __init__(self, rng, cls, cap=20, bucket=4, mult=1, seed=5, b=6, max_probes=None):
        super().__init__(rng, cls)
        self.kw = dict(bucket_size=bucket, hash_size_multiplier=mult)
        if max_probes is not None:
            self.kw["max_probes"] = max_probes
        self.cap, self.seed, self.b = cap, seed, b
        self.pool = rt.pool_records(self.C, rng, 30)

    def fresh(self):
        return HashTable.build(self.C, self.seed, self.cap, **self.kw), 0

    def args(self):
        return dict(many=batch_of(self.C, self.rng, self.pool, self.b), one=rt.build(self.C, rt.take(self.pool, int(self.rng.integers(0, 30)))),
                    mask=jnp.asarray(self.rng.random(self.b) < 0.7), cost=jnp.asarray(self.rng.integers(0, 4, size=self.b).astype(np.float32)))

    def track(self, n, op):
        return n + 1

    def _ins(m, c, x):
        c, ok, idx = c.insert(x["one"])
        return c, (ok, idx, c[idx])

    def _pins(m, c, x):
        c, a, u, idx = c.parallel_insert(x["many"], x["mask"])
        return c, (a, u, idx)

    def _pcost(m, c, x):
        c, a, u, idx = c.parallel_insert(x["many"], x["mask"], unique_key=x["cost"])
        return c, (a, u, idx)

    def _pall(m, c, x):
        c, a, u, idx = c.parallel_insert(x["many"])
        return c, (a, u, idx)

    def _look(m, c, x):
        idx, f = c.lookup(x["one"])
        return c, (jnp.where(f, idx.index, 0), f, c.size)

    def _plook(m, c, x):
        idx, f = c.lookup_parallel(x["many"], x["mask"])
        return c, (jnp.where(f, idx.index, 0), f)

    ops = dict(insert=_ins, pinsert=_pins, pcost=_pcost, pall=_pall, lookup=_look, plookup=_plook)


KINDS = dict(stack=StackM, queue=QueueM, heap=HeapM, table=TableM)
DT = dict(f16=np.dtype(np.float16), f32=np.dtype(np.float32), bf16=np.dtype(ml_dtypes.bfloat16))


def make(rng, kind, cls, **kw):
    if "dtype" in kw:
        kw["dtype"] = DT[kw["dtype"]]
    return KINDS[kind](rng, cls, **kw)


def pick_op(m, rng, st, names=None):
    names = names or m.names()
    for j in rng.permutation(len(names)):
        s2 = m.track(st, names[j])
        if s2 is not None:
            return names[j], s2
    raise RuntimeError("no operation possible")
