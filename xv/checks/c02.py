"""C02: queue histories against a sequential list."""
import jax
import jax.numpy as jnp
import numpy as np
from xtructure import Queue

from xv import rt
from xv.rtypes import BY


def history(ctx, cls, cap, ops, batches, mode="uniform", jit=False):
    C = BY[cls]
    rng = ctx.rng
    q = Queue.build(cap, C)
    model, used, trace = [], 0, []
    enq = jax.jit(lambda st, it: st.enqueue(it)) if jit else (lambda st, it: st.enqueue(it))
    pool = rt.records(C, rng, 64, mode)
    pk = rt.keys(C, pool)
    ctx.require(int(q.size) == 0, "size", "a fresh queue is not empty", size=int(q.size))

    def audit(what):
        n = len(model)
        ctx.require(int(q.size) == n, "size", f"{what}: size is {int(q.size)}, {n} records are stored", trace=trace[-12:])
        if n:
            i = int(rng.integers(0, n))
            got = rt.inst_keys(C, q[i], 0)[0]
            ctx.require(got == model[i], "index", f"{what}: queue[{i}] is not the record enqueued there", got=got, expected=model[i], trace=trace[-12:])
            idx = np.minimum(np.arange(cap), n - 1).astype(np.uint32)
            allk = rt.inst_keys(C, q[jnp.asarray(idx)])[:n]
            ctx.require(allk == model, "contents", f"{what}: stored records differ from the sequential queue", trace=trace[-12:])
            ctx.ev("audits")

    for step in range(ops):
        n = len(model)
        room = cap - used
        opts = [b for b in batches if max(b, 1) <= room]
        r = rng.random()
        if (r < 0.08 and step > 3) or (not opts and n == 0):
            q = q.clear()
            model, used = [], 0
            trace.append("clear")
            ctx.ev("clear_nonempty" if n else "clear_empty")
        elif r < 0.55 and opts:
            b = int(rng.choice(opts))
            if rng.random() < 0.1 and room in batches:
                b = room
            sel = rng.integers(0, 64, size=max(b, 1))
            if b == 0:
                q = enq(q, rt.build(C, rt.take(pool, int(sel[0]))))
                model.append(pk[int(sel[0])])
                ctx.ev("enqueue_single")
                trace.append("enq1")
            else:
                q = enq(q, rt.build(C, rt.take(pool, sel)))
                model += [pk[int(j)] for j in sel]
                ctx.ev("enqueue_batch")
                trace.append(f"enq[{b}]")
            used += max(b, 1)
            if used == cap:
                ctx.ev("fill_to_capacity")
        elif n:
            k = int(rng.choice([1, 1, 2, 3, 5, max(batches)]))
            if rng.random() < 0.08 and n <= 24:
                k = n
            k = max(1, min(k, n))
            if n > 40 and k > 8:
                k = 8
            exp = model[:k]
            if rng.integers(0, 2):
                got = q.peek(k) if k != 1 or rng.integers(0, 2) else q.peek()
                gk = rt.inst_keys(C, got, 0 if k == 1 else 1)
                ctx.require(gk == exp, "peek", f"peek({k}) on {n} records", got=gk, expected=exp, trace=trace[-12:])
                ctx.ev("peek")
            q, got = q.dequeue(k) if k != 1 or rng.integers(0, 2) else q.dequeue()
            gk = rt.inst_keys(C, got, 0 if k == 1 else 1)
            ctx.require(gk == exp, "dequeue", f"dequeue({k}) on {n} records returned other records", got=gk, expected=exp, trace=trace[-12:])
            del model[:k]
            ctx.ev("dequeue_multi" if k > 1 else "dequeue_single")
            trace.append(f"deq({k})")
            if not model:
                ctx.ev("emptied")
        else:
            continue
        ctx.require(int(q.size) == len(model), "size", f"after {trace[-1:]}, size {int(q.size)} but {len(model)} stored", trace=trace[-12:])
        ctx.case(cap, tuple(trace[-6:]), len(model), used)
        if step % 7 == 6:
            audit(f"after {step + 1} operations")
    audit("at the end")
    ctx.sample(dict(type=cls, capacity=cap, operations=trace[:20], final_size=len(model)))


def big(ctx, cap):
    C = BY["U1"]
    q = Queue.build(cap, C)
    v = ctx.rng.integers(0, 2**32, size=cap, dtype=np.uint32)
    tail = head = 0
    for b in (cap // 2, 300, cap - cap // 2 - 300):
        q = q.enqueue(C(x=jnp.asarray(v[tail:tail + b])))
        tail += b
        for k in (1, 257, 1000):
            q, got = q.dequeue(k)
            g = np.atleast_1d(np.asarray(got.x))
            ctx.require((g == v[head:head + k]).all(), "dequeue", "large queue dequeue", head=head, k=k)
            head += k
            ctx.require(int(q.size) == tail - head, "size", "large queue size", got=int(q.size), expected=tail - head)
            ctx.case("big", cap, head, tail)
    n = tail - head
    allv = np.asarray(q[jnp.arange(n)].x)
    ctx.require((allv == v[head:tail]).all(), "contents", "large queue contents")
    q = q.clear()
    ctx.require(int(q.size) == 0, "size", "size after clear", got=int(q.size))
    q = q.enqueue(C(x=jnp.asarray(v)))
    ctx.require(int(q.size) == cap and (np.asarray(q[jnp.arange(cap)].x) == v).all(), "contents", "full refill after clear")
    ctx.ev("large")
