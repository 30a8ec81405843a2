"""C30: searches assembled from the containers, against textbook searches over the same graph."""
import heapq
from collections import deque

import jax
import jax.numpy as jnp
import numpy as np
from xtructure import BGPQ, HashIdx, HashTable, Queue, Stack
from xtructure import numpy as xnp

from xv import rt, rtypes
from xv.rt import F
from xv.rtypes import BY

G = rtypes.__dict__


def typ(name, fields, **k):
    return G[name] if name in G else rt.mk(G, name, fields, **k)


def open_type(dt):
    rt.SPEC.setdefault(HashIdx, dict(index=F(np.uint32)))
    return typ(f"Open_{np.dtype(dt).name}", dict(ref=F(nested=HashIdx), cost=F(np.dtype(dt), fill=0)))


def edge_type():
    rt.SPEC.setdefault(HashIdx, dict(index=F(np.uint32)))
    return typ("CameFrom", dict(ref=F(nested=HashIdx), action=F(np.uint8, fill=255)))


class Domain:
    """cls, arr (every record there may be), expand(states (B,)) -> states (K, B), costs (K, B), and the same as a table."""


def graph(rng, cls, n, K, wmax, weak=None):
    """random weighted graph over records of a type, successors looked up by a number in the record."""
    d = Domain()
    C = BY[cls]
    d.cls = typ("GraphNode_" + cls, dict(body=F(nested=C), node=F(np.uint32)))
    body = rt.pool_records(C, rng, n)
    nbr = rng.integers(0, n, size=(K, n)).astype(np.int32)
    shape = rng.integers(0, 4)
    if shape == 1:   # one long cycle, shortcuts elsewhere
        nbr[0] = (np.arange(n) + 1) % n
    elif shape == 2:  # a few hubs everything leads to
        nbr = (nbr % max(1, n // 8)).astype(np.int32)
        nbr[0] = rng.integers(0, n, size=n)
    w = rng.integers(0 if rng.random() < 0.5 else 1, wmax + 1, size=(K, n)).astype(np.float32)
    w[rng.random((K, n)) < 0.2] = np.inf     # no such edge
    d.arr = {("body",) + p: v for p, v in body.items()} if isinstance(next(iter(body)), tuple) else None
    if d.arr is None:
        raise RuntimeError("paths are expected to be tuples")
    d.arr[("node",)] = np.arange(n, dtype=np.uint32)
    d.n, d.K = n, K
    d.succ = lambda i: [(int(nbr[k, i]), float(w[k, i]), k) for k in range(K) if np.isfinite(w[k, i])]
    pool = rt.build(d.cls, d.arr)
    jn, jw = jnp.asarray(nbr), jnp.asarray(w)

    def expand(s):
        i = s.node.astype(jnp.int32)
        return pool[jn[:, i]], jw[:, i]
    d.expand = expand
    d.start = [int(rng.integers(0, n))]
    return d


def tiles(rng, rows, cols):
    """sliding tiles in a bit-packed field; successors computed from the packed record."""
    d = Domain()
    m = rows * cols
    d.cls = typ(f"Tiles{m}", dict(face=F(shape=(m,), packed=int(m - 1).bit_length())))
    from itertools import permutations
    perms = np.array(list(permutations(range(m))), np.uint8)
    number = {p.tobytes(): i for i, p in enumerate(perms)}
    d.arr = rt.arrays_of(d.cls, jax.vmap(lambda f: d.cls.from_unpacked(face=f))(jnp.asarray(perms)))
    d.n, d.K = len(perms), 4
    moves = ((-1, 0), (1, 0), (0, -1), (0, 1))
    wts = rng.integers(1, 4, size=4).astype(np.float32) if rng.random() < 0.5 else np.ones(4, np.float32)

    def succ(i):
        b = perms[i]
        z = int(np.argmin(b))
        out = []
        for k, (dr, dc) in enumerate(moves):
            r, c = z // cols + dr, z % cols + dc
            if 0 <= r < rows and 0 <= c < cols:
                q = b.copy()
                q[z], q[r * cols + c] = q[r * cols + c], q[z]
                out.append((number[q.tobytes()], float(wts[k]), k))
        return out
    d.succ = succ
    jm, jw = jnp.asarray(moves), jnp.asarray(wts)

    def one(s):
        b = s.face_unpacked
        z = jnp.argmin(b)

        def mv(dv, w):
            r, c = z // cols + dv[0], z % cols + dv[1]
            ok = (r >= 0) & (r < rows) & (c >= 0) & (c < cols)
            t = jnp.where(ok, r * cols + c, z)
            q = b.at[z].set(b[t]).at[t].set(b[z])
            return s.set_unpacked(face=q), jnp.where(ok, w, jnp.inf)
        return jax.vmap(mv)(jm, jw)

    def expand(s):
        q, w = jax.vmap(one)(s)
        return q.swapaxes(0, 1), w.T
    d.expand = expand
    d.start = [int(rng.integers(0, d.n))]
    return d


def pancakes(rng, m):
    """prefix reversals of a row of bytes, with the reversed length as the cost."""
    d = Domain()
    d.cls = typ(f"Cakes{m}", dict(row=F(np.uint8, (m,), bits=3, fill=0), mark=F(np.bool_, fill=False)))
    from itertools import permutations
    perms = np.array(list(permutations(range(m))), np.uint8)
    number = {p.tobytes(): i for i, p in enumerate(perms)}
    N = len(perms)
    d.arr = {("row",): np.concatenate([perms, perms]), ("mark",): np.arange(2 * N) >= N}
    d.n, d.K = 2 * N, m - 1
    d.succ = lambda i: [(number[np.concatenate([perms[i % N][:k][::-1], perms[i % N][k:]]).tobytes()] + (N if (i >= N) != (k == 2) else 0), float(k), k - 2) for k in range(2, m + 1)]
    perm = jnp.asarray([[k - 1 - j if j < k else j for j in range(m)] for k in range(2, m + 1)])

    def expand(s):
        B = s.shape.batch[0]
        rows = jnp.swapaxes(s.row[:, perm], 0, 1)
        mark = jnp.broadcast_to(s.mark, (m - 1, B))
        mark = mark.at[0].set(~mark[0])
        return d.cls(row=rows, mark=mark), jnp.broadcast_to(jnp.arange(2, m + 1, dtype=jnp.float32)[:, None], (m - 1, B))
    d.expand = expand
    d.start = [int(rng.integers(0, N))]
    return d


def make(rng, domain, p):
    return dict(graph=graph, tiles=tiles, pancakes=pancakes)[domain](rng, **p)


def dijkstra(d, starts):
    dist = {s: 0.0 for s in starts}
    q = [(0.0, s) for s in starts]
    heapq.heapify(q)
    while q:
        c, i = heapq.heappop(q)
        if c > dist[i]:
            continue
        for j, w, _ in d.succ(i):
            if c + w < dist.get(j, np.inf):
                dist[j] = c + w
                heapq.heappush(q, (c + w, j))
    return dist


def slots_to_nodes(ctx, d, table, dist, det):
    """where every record of the domain lies in the table; unreachable ones must be absent."""
    pool = rt.build(d.cls, d.arr)
    idx, found = table.lookup_parallel(pool)
    idx, found = np.asarray(idx.index), np.asarray(found)
    want = np.zeros(d.n, bool)
    want[list(dist)] = True
    bad = np.flatnonzero(found != want)
    ctx.require(len(bad) == 0, "reached", f"{len(bad)} of {d.n} records are {'missing from' if len(bad) and want[bad[0]] else 'wrongly in'} the table after the search", example=bad[:5], **det)
    ctx.require(int(table.size) == len(dist), "reached:size", f"table size {int(table.size)}, reachable records {len(dist)}", **det)
    where = {int(i): int(idx[i]) for i in dist}
    ctx.require(len(set(where.values())) == len(where), "reached:shared", "two records share a table index", **det)
    got = rt.keys(d.cls, rt.arrays_of(d.cls, table[HashIdx(index=jnp.asarray(idx[list(dist)], jnp.uint32))]))
    exp = rt.keys(d.cls, rt.take(d.arr, np.array(list(dist))))
    ctx.require(got == exp, "reached:readback", "a record read back through its index is another one", **det)
    return where


def best_first(ctx, domain, p, batch, key_dtype=np.float32, flags=True, heuristic=False, table_kw={}, mode="while", seed=None, slack=2):
    rng = ctx.rng
    d = make(rng, domain, p)
    if rng.random() < 0.3 and d.n > 4:
        d.start = [int(v) for v in rng.permutation(min(d.n, 60))[:3]]
    K, B = d.K, batch
    dist = dijkstra(d, d.start)
    Open, Came = open_type(np.float32), edge_type()
    det = dict(domain=domain, params=p, batch=B, starts=d.start, reachable=len(dist), mode=mode, table=table_kw)
    cap = int(len(dist) * slack) + K * B + len(d.start)
    table = HashTable.build(d.cls, int(rng.integers(0, 1 << 16)) if seed is None else seed, cap, **table_kw)
    slots = table.table.shape.batch[0]
    edges = sum(len(d.succ(i)) for i in dist)
    heap = BGPQ.build(4 * (edges + len(d.start)) * 2 + 8 * B * K, B, Open, key_dtype)
    cost = jnp.full((slots,), jnp.inf, jnp.float32)
    came = Came.default((slots,))
    closed = jnp.full((slots,), jnp.inf, jnp.float32)
    # admissible or not, any finite priority must give exact costs once everything is expanded
    hs = jnp.asarray(rng.integers(0, 6, size=64).astype(np.float32)) if heuristic else jnp.zeros(64, jnp.float32)

    s0 = rt.build(d.cls, rt.take(d.arr, np.array(d.start)))
    table, ins, uq, at = table.parallel_insert(s0)
    ctx.require(bool(np.asarray(ins).all()) and bool(np.asarray(uq).all()), "start", "start records were not inserted into an empty table", **det)
    cost = cost.at[at.index].set(0.0)
    for j in range(0, len(d.start), B):
        v = Open(ref=HashIdx(index=at.index[j:j + B]), cost=jnp.zeros(len(at.index[j:j + B]), jnp.float32))
        k, v = BGPQ.make_batched(jnp.zeros(len(v.cost), key_dtype), v, B)
        heap = heap.insert(k, v)
    pushed0 = len(d.start)

    def step(c):
        table, heap, cost, came, closed, stats = c
        heap, keys, vals = heap.delete_mins()
        live = jnp.isfinite(keys)
        i = vals.ref.index
        ok = live & (vals.cost <= cost[i])
        closed = closed.at[jnp.where(ok, i, slots)].min(vals.cost, mode="drop")
        states = table[vals.ref]
        nxt, w = d.expand(states)
        nc = jnp.where(ok[None], vals.cost[None] + w, jnp.inf)
        filled = jnp.isfinite(nc).reshape(-1)
        fc = nc.reshape(-1)
        flat = xnp.reshape(nxt, (K * B,))
        table, ins, uniq, ids = table.parallel_insert(flat, filled, fc if flags else None)
        old = cost[ids.index]
        if flags:
            better = filled & uniq & (fc < old)
            cost = xnp.update_on_condition(cost, ids.index, better, fc)
        else:
            cost = cost.at[jnp.where(filled, ids.index, slots)].min(fc, mode="drop")
            better = filled & (fc == cost[ids.index]) & (fc < old)
        src = Came(ref=HashIdx(index=jnp.tile(i, K)), action=jnp.repeat(jnp.arange(K, dtype=jnp.uint8), B))
        came = xnp.update_on_condition(came, ids.index, better, src)
        nk = jnp.where(better, fc + hs[ids.index % 64], jnp.inf).astype(key_dtype).reshape(K, B)
        nv = xnp.reshape(Open(ref=ids, cost=fc), (K, B))

        def push(h, kv):
            return jax.lax.cond(jnp.isfinite(kv[0]).any(), lambda h: h.insert(*kv), lambda h: h, h), None
        heap, _ = jax.lax.scan(push, heap, (nk, nv))
        stats = stats + jnp.stack([live.sum(), ok.sum(), ins.sum(), better.sum(), 1]).astype(jnp.uint32)
        return table, heap, cost, came, closed, stats

    limit = 40 * (edges + 10)
    carry = (table, heap, cost, came, closed, jnp.zeros(5, jnp.uint32))

    @jax.jit
    def run(c):
        return jax.lax.while_loop(lambda c: (c[1].size > 0) & (c[5][4] < limit), step, c)

    if mode == "while":
        carry = run(carry)
    elif mode == "jitstep" or mode == "eager":
        f = jax.jit(step) if mode == "jitstep" else step
        last_pop = pushed0
        while int(carry[1].size) > 0 and int(carry[5][4]) < limit:
            before = carry
            carry = f(carry)
            a, b = np.asarray(before[5]), np.asarray(carry[5])
            ctx.require(int(carry[1].size) == int(before[1].size) - int(b[0] - a[0]) + int(b[3] - a[3]), "queue-size", "queue size does not follow what was taken out and put in", before=int(before[1].size), after=int(carry[1].size), out=int(b[0] - a[0]), put=int(b[3] - a[3]), **det)
            ctx.require(int(carry[0].size) == int(before[0].size) + int(b[2] - a[2]), "table-size", "table size does not follow the insertion flags", **det)
            ctx.ev("watched_steps")
    table, heap, cost, came, closed, stats = carry
    st = [int(v) for v in np.asarray(stats)]
    ctx.require(int(heap.size) == 0 and st[4] < limit, "terminates", f"search still has {int(heap.size)} open entries after {st[4]} steps", **det)
    ctx.require(st[0] == pushed0 + st[3], "conservation", f"{pushed0 + st[3]} entries were put into the queue, {st[0]} came out", **det)
    ctx.require(st[2] + pushed0 == int(table.size), "table-size", "table size differs from the number of insertion flags", **det)
    where = slots_to_nodes(ctx, d, table, dist, det)
    node = {v: k for k, v in where.items()}
    hc, hcl = np.asarray(cost), np.asarray(closed)
    ca, cf = np.asarray(came.action), np.asarray(came.ref.index)
    for i, s in where.items():
        ctx.require(float(hc[s]) == dist[i], "distance", f"record {i} has cost {float(hc[s])}, its distance is {dist[i]}", **det)
        ctx.require(float(hcl[s]) == dist[i], "expanded", f"record {i} was expanded at cost {float(hcl[s])} at best, its distance is {dist[i]}", **det)
        if i in d.start:
            continue
        prev = node.get(int(cf[s]))
        ctx.require(prev is not None, "predecessor", f"record {i} is recorded as reached from table index {int(cf[s])}, which holds no reached record", **det)
        step_w = [w for j, w, k in d.succ(prev) if j == i and k == int(ca[s])]
        ctx.require(len(step_w) == 1 and dist[prev] + step_w[0] == dist[i], "predecessor", f"record {i} is recorded as reached from {prev} by action {int(ca[s])}, which does not give its distance", dist=dist[i], prev_dist=dist[prev], step=step_w, **det)
    stray = np.setdiff1d(np.flatnonzero(np.isfinite(hc)), np.array(list(where.values())))
    ctx.require(len(stray) == 0, "stray", "costs were recorded at indices that hold no reached record", indices=stray[:5], **det)
    ctx.ev("searches"), ctx.ev("expanded", st[1]), ctx.ev("stale_entries", st[0] - st[1]), ctx.ev("reached", len(dist)), ctx.ev("improvements", st[3] - st[2]), ctx.ev("search_steps", st[4])
    ctx.case("best_first", domain, p, B, d.start, rt.tree_bytes(table.table)[1].__repr__()[:500], sorted(dist.items())[:200])
    return d, dist


def orders(ctx, domain, p, kind, mode="while", table_kw={}):
    """breadth-first with a Queue and depth-first with a Stack, one record at a time: the exact visiting order."""
    rng = ctx.rng
    d = make(rng, domain, p)
    start, K = d.start[0], d.K
    rt.SPEC.setdefault(HashIdx, dict(index=F(np.uint32)))
    seen, order, first = {start}, [], {start: 0}
    q = deque([start])
    while q:
        i = q.popleft() if kind == "queue" else q.pop()
        order.append(i)
        for j, w, k in d.succ(i):
            if j not in seen:
                seen.add(j)
                q.append(j)
    det = dict(domain=domain, params=p, container=kind, start=start, mode=mode)
    n = len(order)
    table = HashTable.build(d.cls, int(rng.integers(0, 99)), 2 * n + 8, **table_kw)
    box = (Queue if kind == "queue" else Stack).build(n + 2, HashIdx)
    table, was, at = table.insert(rt.build(d.cls, {k: v[start] for k, v in d.arr.items()}))
    put = (lambda b, v: b.enqueue(v)) if kind == "queue" else (lambda b, v: b.push(v))
    get = (lambda b: b.dequeue()) if kind == "queue" else (lambda b: b.pop())
    box = put(box, at)
    log = jnp.zeros((n + 1,), jnp.uint32)

    def step(c):
        table, box, log, m = c
        box, at = get(box)
        log = log.at[m].set(at.index.astype(jnp.uint32))
        nxt, w = d.expand(xnp.expand_dims(table[at], 0))
        for k in range(K):
            def visit(c, k=k):
                t, b = c
                t, was, ids = t.insert(nxt[k, 0])
                return t, jax.lax.cond(was, lambda b: put(b, ids), lambda b: b, b)
            table, box = jax.lax.cond(jnp.isfinite(w[k, 0]), visit, lambda c: c, (table, box))
        return table, box, log, m + 1

    c = (table, box, log, jnp.int32(0))
    cond = lambda c: (c[1].size > 0) & (c[3] <= n)
    if mode == "while":
        c = jax.jit(lambda c: jax.lax.while_loop(cond, step, c))(c)
    else:
        f = jax.jit(step)
        while bool(cond(c)):
            c = f(c)
    table, box, log, m = c
    ctx.require(int(m) == n and int(box.size) == 0, "order:count", f"{int(m)} records visited, {n} are reachable, {int(box.size)} left waiting", **det)
    where = slots_to_nodes(ctx, d, table, {i: 0.0 for i in order}, det)
    node = {v: k for k, v in where.items()}
    got = [node.get(int(s)) for s in np.asarray(log)[:n]]
    if got != order:
        j = next(j for j in range(n) if got[j] != order[j])
        ctx.fail("order", f"visit {j} is record {got[j]}, a textbook search visits {order[j]}", expected=order[max(0, j - 3):j + 4], got=got[max(0, j - 3):j + 4], **det)
    ctx.ev(f"{kind}_searches"), ctx.ev("visits", n)
    ctx.case("orders", domain, p, kind, start, order[:300])
