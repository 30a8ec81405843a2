"""Priority-queue histories with an exact model (sorted keys, multiset of pairs)."""
import bisect
from collections import Counter

import jax
import jax.numpy as jnp
import ml_dtypes
import numpy as np
from xtructure import BGPQ

from xv import rt
from xv.rtypes import BY

DT = {"f16": np.dtype(np.float16), "f32": np.dtype(np.float32), "bf16": np.dtype(ml_dtypes.bfloat16)}


def gen_keys(rng, n, dt, mode, step):
    if mode == "few":
        v = rng.integers(-1, 2, size=n).astype(np.float32)
    elif mode == "const":
        v = np.full(n, 2.5, np.float32)
    elif mode == "asc":
        v = np.full(n, float(step), np.float32) + rng.integers(0, 3, size=n)
    elif mode == "desc":
        v = np.full(n, -float(step), np.float32) - rng.integers(0, 3, size=n)
    elif mode == "edge":
        fi = ml_dtypes.finfo(dt)
        sp = np.array([float(fi.max), float(fi.min), 0.0, 1.0, -1.0, float(fi.max) / 2, float(fi.smallest_normal)])
        v = sp[rng.integers(0, len(sp), size=n)]
    else:
        v = rng.standard_normal(n) * 10.0 ** float(rng.integers(0, 3))
    a = np.asarray(v).astype(dt)
    fi = ml_dtypes.finfo(dt)
    f = a.astype(np.float64)
    a = np.where(np.abs(f) < float(fi.smallest_normal), np.zeros((), dt), a).astype(dt)  # no denormals, no -0
    return a


def f64(a):
    return np.asarray(a).astype(np.float64)


class Tagger:
    """values with a unique tag each (in the first 32-bit field when there is one)."""

    def __init__(self, C, rng):
        self.C, self.rng, self.n = C, rng, 0
        self.tagpath = next((lf.path for lf in rt.leaves(C) if lf.dtype in (np.dtype(np.uint32), np.dtype(np.int32)) and lf.field.bits is None), None)

    def make(self, n, dup=False):
        arr = rt.records(self.C, self.rng, n, "uniform")
        if self.tagpath is not None and not dup:
            a = arr[self.tagpath]
            tags = np.arange(self.n, self.n + n).astype(a.dtype)
            arr[self.tagpath] = np.broadcast_to(tags.reshape((n,) + (1,) * (a.ndim - 1)), a.shape).copy()
            self.n += n
        return arr


def check_batch(ctx, keys, batch, detail):
    """shape of one delete-min answer: ascending, infinities only at its end."""
    k = f64(keys)
    ctx.require(k.shape == (batch,), "batch-shape", "delete_mins returned keys of another length", got_shape=k.shape, **detail)
    ctx.require(not np.isnan(k).any(), "nan", "delete_mins returned NaN", keys=k, **detail)
    ctx.require(bool((k[1:] >= k[:-1]).all()), "unsorted", "delete_mins keys are not in ascending order", keys=k, **detail)
    ctx.require(not np.isneginf(k).any(), "neg-inf", "delete_mins returned -inf", keys=k, **detail)
    return int(np.isfinite(k).sum())


def make_block(ctx, rng, h, batch, kn, arr, C, form):
    """kn finite keys -> one full block, in one of the forms a caller can use."""
    n = len(kn)
    v = rt.build(C, arr)
    if form == "pad" or n == 0:
        if n == 0:
            k = jnp.full((batch,), jnp.inf, kn.dtype)
            v = C.default((batch,))
            return k, v
        if rng.integers(0, 2):
            return BGPQ.make_batched(jnp.asarray(kn), v, batch)
        return h.make_batched_like(jnp.asarray(kn), v)
    # scattered infinities
    pos = np.sort(rng.permutation(batch)[:n]) if form == "mask" else np.arange(n)
    full = np.full(batch, np.inf, dtype=np.float64).astype(kn.dtype)
    full[pos] = kn
    filler = rt.records(C, rng, batch, "uniform")
    for p in filler:
        filler[p][pos] = arr[p]
    return jnp.asarray(full), rt.build(C, filler)


def history(ctx, cls, batch, total, dtype="f32", ops=120, mode="uniform", pairs=False, dup=False, bias=0.6, drain=True):
    C, dt, rng = BY[cls], DT[dtype], ctx.rng
    h = BGPQ.build(total, batch, C, dt)
    cap = -(-total // batch) * batch
    tag = Tagger(C, rng)
    held = []          # sorted python floats
    pool = Counter()   # (key, value bytes) still inside
    trace = []
    ctx.require(int(h.size) == 0, "size", "a fresh queue is not empty", size=int(h.size))

    def delete():
        nonlocal h
        pre = int(h.size)
        h, k, v = h.delete_mins()
        det = dict(trace=trace[-15:], held=len(held), batch=batch, capacity=cap)
        n = check_batch(ctx, k, batch, det)
        want = min(batch, len(held))
        if not pairs:
            ctx.require(pre == len(held), "size", f"size {pre}, held {len(held)}", **det)
            ctx.require(n == want, "count", f"{n} finite keys returned, {want} expected", keys=k, expected=held[:batch], **det)
            got, exp = f64(k)[:n].tolist(), held[:want]
            ctx.require(got == exp, "not-smallest", "returned keys are not the smallest held keys", got=got, expected=exp, **det)
        kk = f64(k)[:n].tolist()
        if pairs:
            vb = rt.inst_keys(C, v)[:n]
            for j, (a, b) in enumerate(zip(kk, vb)):
                if pool[(a, b)] <= 0:
                    want_v = [x[1] for x, c in pool.items() if x[0] == a and c > 0][:3]
                    ctx.fail("pair", f"returned pair {j} (key {a}) was not inserted with that value or already returned", value=b, values_inserted_with_key=want_v, **det)
                pool[(a, b)] -= 1
            ctx.ev("pairs_checked", n)
        for a in kk:
            i = bisect.bisect_left(held, a)
            if i < len(held) and held[i] == a:
                held.pop(i)
            else:
                ctx.fail("phantom", f"returned key {a} is not held", **det)
        trace.append(f"del->{n}")
        ctx.ev("deletes")
        if want == 0:
            ctx.ev("delete_on_empty")
        elif want < batch:
            ctx.ev("delete_partial")
        else:
            ctx.ev("delete_full")

    up = True
    flip = max(0.02, min(0.12, 1.5 * batch / cap))
    for step in range(ops):
        if rng.random() < flip:
            up = not up
        if not held and not up and rng.random() < 0.6:
            up = True
        room = cap - len(held)
        if rng.random() < (bias + 0.25 if up else bias - 0.35) and room > 0:
            form = str(rng.choice(["pad", "mask", "full", "full"]))
            n = batch if form == "full" else int(rng.integers(0 if rng.random() < 0.1 else 1, batch + 1))
            n = min(n, room)
            kn = gen_keys(rng, n, dt, mode, step)
            arr = tag.make(n, dup)
            bk, bv = make_block(ctx, rng, h, batch, kn, arr, C, form)
            h = h.insert(bk, bv)
            for a in f64(kn).tolist():
                bisect.insort(held, a)
            if pairs and n:
                for a, b in zip(f64(kn).tolist(), rt.keys(C, arr)):
                    pool[(a, b)] += 1
            trace.append(f"ins({n},{form})")
            ctx.ev("inserts")
            if n < batch:
                ctx.ev("insert_partial")
            if len(held) == cap:
                ctx.ev("filled_to_capacity")
        else:
            delete()
        if not pairs:
            ctx.require(int(h.size) == len(held), "size", f"size {int(h.size)}, {len(held)} entries held", trace=trace[-15:], batch=batch, capacity=cap)
        ctx.case(batch, total, tuple(trace[-5:]), len(held))
    if drain:
        guard = 0
        while held:
            delete()
            guard += 1
            ctx.require(guard <= cap // batch + 3, "drain", "the queue does not drain", held=len(held), trace=trace[-15:])
            ctx.case(batch, total, "drain", len(held), guard)
        ctx.require(int(h.size) == 0, "size", "size is not 0 after draining", size=int(h.size))
        if pairs:
            left = +pool
            ctx.require(not left, "lost-pair", f"{sum(left.values())} inserted pairs were never returned", example=list(left)[:3], trace=trace[-15:])
        ctx.ev("drains")
        h2, k, _ = h.delete_mins()
        ctx.require(not np.isfinite(f64(k)).any() and int(h2.size) == 0, "empty", "an empty queue returned entries", keys=k)
    ctx.sample(dict(type=cls, batch=batch, total=total, dtype=dtype, operations=trace[:24]))


def drain_copy(ctx, h, C, batch, cap, detail):
    """all pairs of a queue, by draining it (the queue itself is a value and stays as it is)."""
    out, guard = [], 0
    prev = -np.inf
    while int(h.size) > 0:
        n0 = int(h.size)
        h, k, v = h.delete_mins()
        n = check_batch(ctx, k, batch, detail)
        ctx.require(n == min(batch, n0), "count", f"{n} entries returned from a queue of size {n0}", **detail)
        ctx.require(int(h.size) == n0 - n, "size", f"size went from {n0} to {int(h.size)} although {n} were returned", **detail)
        kk = f64(k)[:n].tolist()
        ctx.require(not kk or kk[0] >= prev, "not-smallest", "a later delete-min returned a smaller key", previous=prev, keys=kk, **detail)
        prev = kk[-1] if kk else prev
        out += list(zip(kk, rt.inst_keys(C, v)[:n]))
        guard += 1
        ctx.require(guard <= cap // batch + 4, "drain", "the queue does not drain", **detail)
    return out


def overflow(ctx, cls, batch, total, dtype="f32", ops=80, mode="uniform", bias=0.8, audit=1):
    C, dt, rng = BY[cls], DT[dtype], ctx.rng
    h = BGPQ.build(total, batch, C, dt)
    cap = -(-total // batch) * batch
    tag = Tagger(C, rng)
    held = Counter()
    trace = []
    up = True
    for step in range(ops):
        det = dict(trace=trace[-15:], batch=batch, capacity=cap)
        nheld = sum(held.values())
        if rng.random() < 0.1:
            up = not up
        if rng.random() < (bias if up else 1 - bias):
            form = str(rng.choice(["pad", "mask", "full", "full"]))
            n = batch if form == "full" else int(rng.integers(1, batch + 1))
            kn = gen_keys(rng, n, dt, mode, step)
            arr = tag.make(n)
            bk, bv = make_block(ctx, rng, h, batch, kn, arr, C, form)
            h = h.insert(bk, bv)
            trace.append(f"ins({n},{form})")
            new = Counter(zip(f64(kn).tolist(), rt.keys(C, arr)))
            both = held + new
            total_n = nheld + n
            size = int(h.size)
            ctx.require(size < cap + batch, "size-bound", f"size {size} exceeds capacity {cap} by a batch ({batch}) or more", **det)
            if total_n <= cap:
                ctx.require(size == total_n, "size", f"size {size}, {total_n} entries fit", **det)
            ctx.require(size >= min(total_n, cap), "size", f"size {size} after inserting up to {total_n} entries into capacity {cap}", **det)
            if total_n > cap:
                ctx.ev("over_capacity_inserts")
            if step % audit == 0 or size < total_n:
                now = Counter(drain_copy(ctx, h, C, batch, cap, dict(trace=trace[-15:], batch=batch, capacity=cap)))
                extra = now - both
                ctx.require(not extra, "phantom", "the queue holds pairs that were not inserted or are returned more than once", pairs=list(extra)[:4], **det)
                gone = both - now
                ng = sum(gone.values())
                ctx.require(sum(now.values()) == size, "size", f"size {size} but {sum(now.values())} entries come out", **det)
                if total_n <= cap:
                    ctx.require(not ng, "lost", f"{ng} entries lost although all fit", keys=[x[0] for x in gone][:6], **det)
                if ng:
                    ctx.ev("discarding_inserts")
                    ctx.ev("discarded", ng)
                    lo = sorted(x[0] for x in both.elements())[:batch]
                    kept_lo = sorted(x[0] for x in now.elements())[:batch]
                    ctx.require(lo == kept_lo, "discard-small", "one of the smallest entries was discarded", expected=lo, got=kept_lo, **det)
                    worst = max(x[0] for x in gone)
                    over = sum(c for x, c in now.items() if x[0] > worst)
                    ctx.require(over < batch, "discard-order", f"{over} kept entries are larger than every discarded one (batch {batch})", largest_discarded=worst,
                                kept_larger=sorted(x[0] for x in now if x[0] > worst)[:8], **det)
                held = now
            else:
                held = both
        else:
            n0 = int(h.size)
            h, k, v = h.delete_mins()
            n = check_batch(ctx, k, batch, det)
            ctx.require(n == min(batch, n0), "count", f"{n} entries returned from a queue of size {n0}", **det)
            kk = f64(k)[:n].tolist()
            got = Counter(zip(kk, rt.inst_keys(C, v)[:n]))
            ctx.require(not (got - held), "phantom", "delete_mins returned pairs that are not held", pairs=list(got - held)[:4], **det)
            exp = sorted(x[0] for x in held.elements())[:n]
            ctx.require(kk == exp, "not-smallest", "returned keys are not the smallest held", got=kk, expected=exp, **det)
            held -= got
            ctx.require(int(h.size) == sum(held.values()), "size", f"size {int(h.size)}, {sum(held.values())} held", **det)
            trace.append(f"del->{n}")
            ctx.ev("deletes")
        ctx.case(batch, total, tuple(trace[-5:]), sum(held.values()))
    rest = Counter(drain_copy(ctx, h, C, batch, cap, dict(trace=trace[-15:])))
    ctx.require(rest == held, "contents", "final contents differ from the record of what was kept",
                missing=list(held - rest)[:3], extra=list(rest - held)[:3], trace=trace[-15:])
    # empty the real one and use it again
    while int(h.size):
        h, _, _ = h.delete_mins()
    kn = gen_keys(rng, batch, dt, mode, 7)
    arr = tag.make(batch)
    h = h.insert(jnp.asarray(kn), rt.build(C, arr))
    got = drain_copy(ctx, h, C, batch, cap, dict(what="reuse after draining"))
    ctx.require(Counter(got) == Counter(zip(f64(kn).tolist(), rt.keys(C, arr))), "reuse", "a drained queue does not work as a new one", got=len(got), inserted=batch)
    ctx.ev("drained_and_reused")
    ctx.sample(dict(type=cls, batch=batch, total=total, operations=trace[:24]))
