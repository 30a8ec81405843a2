"""Hash-table histories against a set of record bytes."""
import jax.numpy as jnp
import numpy as np
from xtructure import HashTable

from xv import rt, rtypes
from xv.rtypes import BY

_weak = {}


def weak_type(name, h1bits, h2bits):
    """a copy of a record type whose hash pair keeps only a few bits: collisions everywhere."""
    key = (name, h1bits, h2bits)
    if key in _weak:
        return _weak[key]
    C = rt.mk(rtypes.G, f"Weak_{name}_{h1bits}_{h2bits}", dict(rt.SPEC[BY[name]]))
    m1, m2 = jnp.uint32((1 << h1bits) - 1), jnp.uint32((1 << h2bits) - 1)
    pair, pairw = C.hash_pair, C.hash_pair_with_uint32ed

    def hash_pair(self, seed=0):
        a, b = pair(self, seed)
        return a & m1, b & m2

    def hash_pair_with_uint32ed(self, seed=0):
        (a, b), w = pairw(self, seed)
        return (a & m1, b & m2), w

    one, onew = C.hash, C.hash_with_uint32ed
    C.hash = lambda self, seed=0: one(self, seed) & m1

    def hash_with_uint32ed(self, seed=0):
        h, w = onew(self, seed)
        return h & m1, w

    C.hash_with_uint32ed = hash_with_uint32ed
    C.hash_pair, C.hash_pair_with_uint32ed = hash_pair, hash_pair_with_uint32ed
    _weak[key] = C
    return C


def get_type(cls, weak):
    return BY[cls] if weak is None else weak_type(cls, *weak)


def slots_of(capacity, bucket, mult):
    n = int(mult * capacity / bucket)
    b = 1
    while b < n:
        b *= 2
    return b * bucket


class Shadow:
    """the table under test and its model, one step at a time."""

    def __init__(self, ctx, C, seed, capacity, bucket, mult, max_probes, B, npool, near=0.5, mode="uniform"):
        self.ctx, self.C, self.rng, self.B = ctx, C, ctx.rng, B
        kw = {}
        if max_probes is not None:
            kw["max_probes"] = max_probes
        if (bucket, mult) != (8, 2):
            kw.update(bucket_size=bucket, hash_size_multiplier=mult)
        self.t = HashTable.build(C, seed, capacity, **kw)
        self.slots = slots_of(capacity, bucket, mult)
        self.limit = self.slots if max_probes is None else min(max_probes, self.slots)
        self.limited = self.limit < self.slots
        self.pool = rt.pool_records(C, self.rng, npool, near, mode)
        self.pk = rt.keys(C, self.pool)
        self.n = npool
        self.model = {}   # key -> slot index
        self.trace = []
        self.info = dict(seed=seed, capacity=capacity, bucket_size=bucket, multiplier=mult, max_probes=max_probes, slots=self.slots)

    def req(self, cond, key, msg, **d):
        if not cond:
            self.ctx.fail(key, msg, trace=self.trace[-10:], held=len(self.model), table=self.info, **d)

    def inst(self, i):
        return rt.build(self.C, rt.take(self.pool, i))

    def size_ok(self, what):
        n = int(self.t.size)
        self.req(n == len(self.model), "size", f"{what}: size is {n}, {len(self.model)} distinct records held")

    def reads_back(self, idx, rows, what):
        """table[idx] must be the pool records `rows`."""
        if not len(rows):
            return
        got = rt.inst_keys(self.C, self.t[idx], None if np.ndim(idx.index) == 0 else 1)
        for j, i in enumerate(rows):
            if i is not None:
                self.req(got[j] == self.pk[i], "readback", f"{what}: index {np.asarray(idx.index).reshape(-1)[j]} reads back another record", row=j,
                         got=got[j], expected=self.pk[i])

    def rejected_ok(self, what):
        """a new record may be refused only when its probe sequence is full."""
        self.req(len(self.model) >= self.limit, "refused", f"{what}: a new record was refused although only {len(self.model)} slots are taken (limit {self.limit})")
        self.ctx.ev("refused")

    def insert(self, i):
        k = self.pk[i]
        self.trace.append(f"insert {i}")
        self.t, ok, idx = self.t.insert(self.inst(i))
        ok = bool(ok)
        if k in self.model:
            self.req(not ok, "reinsert", "an already present record was reported inserted", record=k)
            self.req(int(idx.index) == self.model[k], "index", "inserting a present record returned another index", got=int(idx.index), expected=self.model[k])
            self.ctx.ev("insert_present")
        elif ok:
            self.model[k] = int(idx.index)
            self.ctx.ev("insert_new")
        else:
            self.rejected_ok("insert")
        if k in self.model:
            self.reads_back(idx, [i], "insert")
        self.size_ok("insert")

    def lookup(self, i):
        k = self.pk[i]
        self.trace.append(f"lookup {i}")
        idx, found = self.t.lookup(self.inst(i))
        self.req(bool(found) == (k in self.model), "lookup", f"lookup found={bool(found)} for a record that is {'' if k in self.model else 'not '}held", record=k)
        if bool(found):
            self.req(int(idx.index) == self.model[k], "index", "lookup returned another index", got=int(idx.index), expected=self.model[k])
            self.reads_back(idx, [i], "lookup")
            self.ctx.ev("lookup_hit")
        else:
            self.ctx.ev("lookup_miss")

    def lookup_batch(self, rows, mask=None, form="array"):
        self.trace.append(f"lookup_parallel[{len(rows)}] {form}")
        x = rt.build(self.C, rt.take(self.pool, rows))
        if form == "default":
            idx, found = self.t.lookup_parallel(x)
        elif form == "scalar":
            idx, found = self.t.lookup_parallel(x, True)
        elif form == "none":
            idx, found = self.t.lookup_parallel(x, False)
            mask = np.zeros(len(rows), bool)
        else:
            idx, found = self.t.lookup_parallel(x, jnp.asarray(mask))
        if mask is None:
            mask = np.ones(len(rows), bool)
        found = np.asarray(found)
        self.req(found.shape == (len(rows),), "lookup-shape", "found has another shape", got=found.shape)
        ids = np.asarray(idx.index)
        for j, i in enumerate(rows):
            exp = bool(mask[j]) and self.pk[i] in self.model
            self.req(bool(found[j]) == exp, "lookup", f"batched lookup row {j} found={bool(found[j])}, expected {exp} (selected={bool(mask[j])})", record=self.pk[i])
            if exp:
                self.req(int(ids[j]) == self.model[self.pk[i]], "index", "batched lookup returned another index", got=int(ids[j]), expected=self.model[self.pk[i]])
        self.reads_back(idx, [i if found[j] else None for j, i in enumerate(rows)], "batched lookup")
        self.ctx.ev("batch_lookup_rows", int(mask.sum()))

    def parallel(self, rows, mask=None, form="array", cost=None, contract=True):
        """parallel_insert of pool rows with the full contract."""
        rows = [int(r) for r in rows]
        self.trace.append(f"parallel_insert[{len(rows)}] {form} cost={None if cost is None else str(np.asarray(cost).dtype)}")
        x = rt.build(self.C, rt.take(self.pool, rows))
        kw = {}
        if form == "array":
            kw["filled"] = jnp.asarray(mask)
        elif form == "true":
            kw["filled"] = True
        elif form == "false":
            kw["filled"] = False
            mask = np.zeros(len(rows), bool)
        if mask is None:
            mask = np.ones(len(rows), bool)
        if cost is not None:
            kw["unique_key"] = cost if np.ndim(cost) == 0 else jnp.asarray(cost)
        self.t, ins, uni, idx = self.t.parallel_insert(x, **kw)
        ins, uni, ids = np.asarray(ins), np.asarray(uni), np.asarray(idx.index)
        self.req(ins.shape == (len(rows),) and ins.dtype == np.bool_, "flags-shape", "inserted flags have another shape or type", shape=ins.shape, dtype=ins.dtype)
        self.req(not (ins & ~mask).any(), "unselected", "a row excluded by the mask was reported inserted", rows=np.flatnonzero(ins & ~mask))
        groups = {}
        for j, i in enumerate(rows):
            if mask[j]:
                groups.setdefault(self.pk[i], []).append(j)
        refused = []
        before = dict(self.model)
        for k, js in groups.items():
            fl = [j for j in js if ins[j]]
            ul = [j for j in js if uni[j]]
            if contract:
                self.req(len(ul) == 1, "unique-mask", f"{len(ul)} representatives for one distinct record", rows=js, unique=ul)
                if cost is not None:
                    c = np.broadcast_to(np.asarray(cost), (len(rows),))
                    best = min(js, key=lambda j: (c[j], j))
                    self.req(ul == [best], "cost", f"representative of equal rows {js} is row {ul}, the cheapest is row {best}", costs=[c[j] for j in js])
                    self.ctx.ev("cost_groups" if len(js) > 1 else "cost_singles")
                    if len(js) > 1 and len({float(c[j]) for j in js}) < len(js):
                        self.ctx.ev("cost_ties")
            if k in before:
                self.req(not fl, "reinsert", "a record already held was reported inserted", rows=fl)
                self.ctx.ev("parallel_present")
            else:
                self.req(len(fl) <= 1, "double-insert", f"{len(fl)} equal rows were all reported inserted", rows=fl)
                if fl:
                    if contract:
                        self.req(fl == ul, "representative", "the inserted row is not the unique representative", inserted=fl, unique=ul)
                    self.model[k] = int(ids[fl[0]])
                    self.ctx.ev("parallel_new")
                else:
                    refused.append(js)
        self.req(not (uni & ~mask).any(), "unique-unselected", "the unique mask contains an excluded row", rows=np.flatnonzero(uni & ~mask))
        if refused:
            self.rejected_ok(f"parallel_insert (rows {refused[:3]})")
        self.size_ok("parallel_insert")
        self.reads_back(idx, [i if (mask[j] and self.pk[i] in self.model) else None for j, i in enumerate(rows)], "parallel_insert")
        for j, i in enumerate(rows):
            if mask[j] and self.pk[i] in before:
                self.req(int(ids[j]) == before[self.pk[i]], "index", "parallel_insert of a present record returned another index", row=j)
        if len(groups) < int(mask.sum()):
            self.ctx.ev("batches_with_duplicates")
        if not mask.all():
            self.ctx.ev("batches_masked")

    def audit(self):
        """every pool record, held or not, through batched lookups of the fixed size B."""
        rows = list(range(self.n))
        while rows:
            part, rows = rows[:self.B], rows[self.B:]
            part = part + [0] * (self.B - len(part))
            self.lookup_batch(part, None, "default")
        self.size_ok("audit")
        self.ctx.ev("audits")


def pick_rows(rng, n, B, dup):
    if dup == 0 and n >= B:
        return rng.permutation(n)[:B]
    src = rng.integers(0, n, size=max(1, int(round(B * (1 - dup)))))
    return src[rng.integers(0, len(src), size=B)] if dup else rng.integers(0, n, size=B)


def pick_mask(rng, B):
    r = rng.random()
    if r < 0.1:
        return np.zeros(B, bool)
    if r < 0.2:
        m = np.zeros(B, bool)
        m[int(rng.integers(0, B))] = True
        return m
    return rng.random(B) < rng.choice([0.2, 0.5, 0.9])
