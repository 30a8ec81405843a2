"""C01: stack histories against a sequential list."""
import jax
import jax.numpy as jnp
import numpy as np
from xtructure import Stack

from xv import rt
from xv.rtypes import BY


def history(ctx, cls, cap, ops, batches, mode="uniform", jit=False):
    C = BY[cls]
    rng = ctx.rng
    s = Stack.build(cap, C)
    model = []  # list of record keys, bottom first
    push = jax.jit(lambda st, it: st.push(it)) if jit else (lambda st, it: st.push(it))
    pops = {}
    ctx.require(int(s.size) == 0, "size", "a fresh stack is not empty", size=int(s.size))
    trace = []
    pool = rt.records(C, rng, 64, mode)
    pool_keys = rt.keys(C, pool)

    def audit(what):
        n = int(s.size)
        ctx.require(n == len(model), "size", f"{what}: size is {n}, {len(model)} records are stored", trace=trace[-12:])
        if n:
            i = int(rng.integers(0, n))
            got = rt.inst_keys(C, s[i], 0)[0]
            ctx.require(got == model[i], "index", f"{what}: stack[{i}] is not the record pushed there", trace=trace[-12:], got=got, expected=model[i])
            idx = jnp.arange(cap, dtype=jnp.uint32)
            allk = rt.inst_keys(C, s[idx])[:n]
            ctx.require(allk == model, "contents", f"{what}: stored records differ from the sequential stack",
                        first_bad=next((j for j in range(n) if allk[j] != model[j]), None), trace=trace[-12:])
            ctx.ev("audits")

    phase_up = True
    for step in range(ops):
        n = len(model)
        if rng.random() < 0.1:
            phase_up = not phase_up
        if n == cap:
            phase_up = False
        if n == 0:
            phase_up = True
        opts = [b for b in batches if max(b, 1) <= cap - n]
        if (rng.random() < (0.8 if phase_up else 0.2)) and opts:
            b = int(rng.choice(opts))
            sel = rng.integers(0, 64, size=max(b, 1))
            if b == 0:  # single
                item = rt.build(C, rt.take(pool, int(sel[0])))
                s = push(s, item)
                model.append(pool_keys[int(sel[0])])
                trace.append("push1")
                ctx.ev("push_single")
            else:
                s = push(s, rt.build(C, rt.take(pool, sel)))
                model += [pool_keys[int(j)] for j in sel]
                trace.append(f"push[{b}]")
                ctx.ev("push_batch")
                if b < cap - n:
                    ctx.ev("push_partial_room")
                if b == cap - n:
                    ctx.ev("fill_to_capacity")
        elif n:
            k = int(rng.choice([1, 1, 2, 3, 5, max(batches)]))
            if rng.random() < 0.05 and n <= 24:
                k = n
            k = max(1, min(k, n))
            if n > 40 and k > 8:
                k = 8
            peek = bool(rng.integers(0, 2))
            if peek:
                got = s.peek(k) if k != 1 or rng.integers(0, 2) else s.peek()
                exp = model[-k:]
                gk = rt.inst_keys(C, got, 0 if k == 1 else 1)
                ctx.require(gk == exp, "peek", f"peek({k}) on {n} records", got=gk, expected=exp, trace=trace[-12:])
                ctx.ev("peek")
            s, got = s.pop(k) if k != 1 or rng.integers(0, 2) else s.pop()
            exp = model[-k:]
            del model[-k:]
            gk = rt.inst_keys(C, got, 0 if k == 1 else 1)
            ctx.require(gk == exp, "pop", f"pop({k}) on {n} records returned other records", got=gk, expected=exp, trace=trace[-12:])
            ctx.ev("pop_multi" if k > 1 else "pop_single")
            trace.append(f"pop({k})")
            if not model:
                ctx.ev("emptied")
        ctx.require(int(s.size) == len(model), "size", f"after {trace[-1:]}, size {int(s.size)} but {len(model)} records stored", trace=trace[-12:])
        ctx.case(cap, tuple(trace[-6:]), len(model))
        if step % 7 == 6:
            audit(f"after {step + 1} operations")
    audit("at the end")
    ctx.sample(dict(type=cls, capacity=cap, operations=trace[:20], final_size=len(model)))


def big(ctx, cap):
    """capacities beyond 8- and 16-bit counters."""
    C = BY["U1"]
    s = Stack.build(cap, C)
    n = 0
    model = np.zeros(cap, np.uint32)
    for b in (cap // 2, 300, cap - cap // 2 - 300 - 5):
        v = ctx.rng.integers(0, 2**32, size=b, dtype=np.uint32)
        s = s.push(C(x=jnp.asarray(v)))
        model[n:n + b] = v
        n += b
        ctx.require(int(s.size) == n, "size", "large stack size", got=int(s.size), expected=n)
        got = np.asarray(s.peek(7).x)
        ctx.require((got == model[n - 7:n]).all(), "peek", "large stack peek", n=n, got=got, expected=model[n - 7:n])
        ctx.case("big", cap, n)
    for k in (1, 300, 5, 1000):
        s, got = s.pop(k)
        g = np.atleast_1d(np.asarray(got.x))
        ctx.require((g == model[n - k:n]).all(), "pop", "large stack pop", n=n, k=k)
        n -= k
        ctx.require(int(s.size) == n, "size", "large stack size", got=int(s.size), expected=n)
        ctx.case("bigpop", cap, n, k)
    allv = np.asarray(s[jnp.arange(n)].x)
    ctx.require((allv == model[:n]).all(), "contents", "large stack contents")
    ctx.ev("large")
