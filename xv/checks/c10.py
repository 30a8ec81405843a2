"""C10: the same results eagerly, under jit, as loop carries and under vmap."""
import jax
import jax.numpy as jnp
import numpy as np

from xv import machines, rt
from xv.miscops import misc
from xv.opcat import OPS, batch_shape
from xv.rtypes import BY


REFUSABLE = {"set_mask"}


def stack_trees(ts):
    return jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(x) for x in a]), *ts)


def lane(t, i):
    return jax.tree_util.tree_map(lambda a: a[i], t)


def same(ctx, exp, got, mode, what, **det):
    rt.same_tree(ctx, exp, got, f"{what} under {mode}, compared with direct calls", mode.split(" ")[0] + ":" + what.split(" ")[0], **det)


def programs(ctx, kind, cls, steps, lanes=3, modes=("op", "chunk", "scan", "fori", "while", "vmap", "vmapscan", "ident"), **kw):
    rng = ctx.rng
    m = machines.make(rng, kind, cls, **kw)
    names = m.names()
    progs = []
    for _ in range(lanes):
        c, st = m.fresh()
        ops, xs, outs, cs = [], [], [], [c]
        for _ in range(steps):
            op, st = machines.pick_op(m, rng, st)
            x = m.args()
            c, o = m.run(op, c, x)
            ops.append(op), xs.append(x), outs.append(o), cs.append(c)
            ctx.ev("direct_operations")
        progs.append((ops, xs, outs, cs))
    det = lambda k, j=None: dict(kind=kind, type=cls, program=progs[k][0][: (j + 1 if j is not None else 99)])
    c0 = progs[0][3][0]
    zero = {op: jax.tree_util.tree_map(lambda a: jnp.zeros(a.shape, a.dtype), jax.eval_shape(lambda c, x, op=op: m.run(op, c, x)[1], c0, progs[0][1][0])) for op in names}

    def slotted(op, o):
        return {n: (jax.tree_util.tree_map(jnp.asarray, o) if n == op else zero[n]) for n in names}

    branches = [lambda c, x, op=op: (lambda r: (r[0], slotted(op, r[1])))(m.run(op, c, x)) for op in names]

    def step(c, ix):
        i, x = ix
        return jax.lax.switch(i, branches, c, x)

    idx = [jnp.asarray([names.index(o) for o in p[0]], jnp.int32) for p in progs]
    allx = [stack_trees(p[1]) for p in progs]

    if "op" in modes:
        jits = {op: jax.jit(lambda c, x, op=op: m.run(op, c, x)) for op in names}
        for k, (ops, xs, outs, cs) in enumerate(progs[:2]):
            c = cs[0]
            for j, (op, x) in enumerate(zip(ops, xs)):
                c, o = jits[op](c, x)
                same(ctx, outs[j], o, "jit", f"result of {op}", **det(k, j))
                same(ctx, cs[j + 1], c, "jit", f"{kind} after {op}", **det(k, j))
                ctx.case("jit", kind, cls, op, k, j)
            ctx.ev("jit_operations", len(ops))
    if "chunk" in modes:
        ops, xs, outs, cs = progs[0]
        n = min(8, steps)

        def chunk(c, xs):
            os = []
            for op, x in zip(ops[:n], xs):
                c, o = m.run(op, c, x)
                os.append(o)
            return c, os

        c, os = jax.jit(chunk)(cs[0], xs[:n])
        same(ctx, outs[:n], os, "jit (whole program)", "results", **det(0))
        same(ctx, cs[n], c, "jit (whole program)", kind, **det(0))
        ctx.ev("jit_programs")
        ctx.case("chunk", kind, cls, tuple(ops[:n]))
    exp_out = [stack_trees([slotted(op, o) for op, o in zip(p[0], p[2])]) for p in progs]
    if "scan" in modes:
        sc = jax.jit(lambda c, i, x: jax.lax.scan(step, c, (i, x)))
        for k, p in enumerate(progs):
            c, o = sc(p[3][0], idx[k], allx[k])
            same(ctx, exp_out[k], o, "scan", "results", **det(k))
            same(ctx, p[3][-1], c, "scan", kind, **det(k))
            ctx.case("scan", kind, cls, tuple(p[0]))
            ctx.ev("scans")
    if "fori" in modes or "while" in modes:
        def body(c, i, ii, x):
            return step(c, (ii[i], jax.tree_util.tree_map(lambda a: a[i], x)))[0]
        if "fori" in modes:
            c = jax.lax.fori_loop(0, steps, lambda i, c: body(c, i, idx[0], allx[0]), progs[0][3][0])
            same(ctx, progs[0][3][-1], c, "fori_loop", kind, **det(0))
            ctx.ev("fori_loops")
            ctx.case("fori", kind, cls, tuple(progs[0][0]))
        if "while" in modes:
            n = int(rng.integers(1, steps + 1))
            i, c = jax.lax.while_loop(lambda s: s[0] < n, lambda s: (s[0] + 1, body(s[1], s[0], idx[1], allx[1])), (jnp.int32(0), progs[1][3][0]))
            same(ctx, progs[1][3][n], c, "while_loop", kind, steps_run=n, **det(1))
            ctx.ev("while_loops")
            ctx.case("while", kind, cls, n, tuple(progs[1][0]))
    if "vmap" in modes:   # the same operation on differently filled containers
        j = steps - 1
        cs = stack_trees([p[3][j] for p in progs])
        xs = stack_trees([p[1][j] for p in progs])
        states = []
        for op in names:
            per, ok = [], True
            for p in progs:
                st = m.fresh()[1]
                for o in p[0][:j]:
                    st = m.track(st, o)
                ok &= m.track(st, op) is not None
                states.append(st)
            if not ok:
                continue
            per = [m.run(op, p[3][j], p[1][j]) for p in progs]
            c, o = jax.vmap(lambda c, x, op=op: m.run(op, c, x))(cs, xs)
            same(ctx, stack_trees([r[1] for r in per]), o, "vmap", f"results of {op}", **det(0))
            same(ctx, stack_trees([r[0] for r in per]), c, "vmap", f"{kind} after {op}", **det(0))
            ctx.ev("vmap_operations")
            ctx.case("vmap", kind, cls, op, tuple(p[0][j] for p in progs), str(states[-lanes:]))
        # one container, many arguments
        op = next((n for n in ("lookup", "insert", "push", "enq", "ins") if n in names), None)
        p = progs[0]
        st = m.fresh()[1]
        if op and m.track(st, op) is not None:
            xs = stack_trees(p[1])
            per = [m.run(op, p[3][0], x) for x in p[1]]
            c, o = jax.vmap(lambda x: m.run(op, p[3][0], x))(xs)
            same(ctx, stack_trees([r[1] for r in per]), o, "vmap", f"results of {op} (arguments mapped)", **det(0))
            same(ctx, stack_trees([r[0] for r in per]), c, "vmap", f"{kind} after {op} (arguments mapped)", **det(0))
    if "vmapscan" in modes:
        c, o = jax.jit(jax.vmap(lambda c, i, x: jax.lax.scan(step, c, (i, x))))(stack_trees([p[3][0] for p in progs]), jnp.stack(idx), stack_trees(allx))
        for k, p in enumerate(progs):
            same(ctx, exp_out[k], lane(o, k), "vmap of scan", "results", **det(k))
            same(ctx, p[3][-1], lane(c, k), "vmap of scan", kind, **det(k))
            ctx.case("vmapscan", kind, cls, tuple(p[0]), k)
        ctx.ev("vmapped_programs", lanes)
    if "ident" in modes:
        for p in progs:
            c = p[3][-1]
            for mode, f in dict(jit=lambda c: jax.jit(lambda a: a)(c), cond=lambda c: jax.lax.cond(jnp.bool_(True), lambda a, b: a, lambda a, b: b, c, p[3][0]),
                                scan=lambda c: jax.lax.scan(lambda a, _: (a, None), c, None, length=2)[0], tree=lambda c: jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(c)[::-1]),
                                vmap=lambda c: lane(jax.vmap(lambda a: a)(stack_trees([c, p[3][0]])), 0), put=jax.device_put).items():
                r = f(c)
                ctx.require(type(r) is type(c), "ident:type", f"{kind} through {mode} became {type(r).__name__}")
                same(ctx, c, r, mode, f"{kind} passed through")
                for f_ in type(c).__dataclass_fields__:
                    a, b = getattr(c, f_), getattr(r, f_)
                    if isinstance(a, (int, str, tuple, type)):
                        ctx.require(type(a) is type(b) and a == b, "ident:static", f"static field {f_} became {b!r} through {mode}")
            ctx.ev("identities")
    ctx.sample(dict(kind=kind, type=cls, program=progs[0][0][:20]))


def arrays(ctx, cls, count, only=None):
    C, rng = BY[cls], ctx.rng
    L, n = 3, 5
    fns = misc(C, n)
    names = [k for k in fns if only is None or k in only]
    names = [str(v) for v in rng.permutation(names)][: count]
    lanes = []
    for i in range(L):
        raw = rt.unique_records(C, rng, n, "uniform") if cls != "Small" else rt.records(C, rng, n)
        raw2 = {p: v.copy() for p, v in raw.items()}
        sel = rng.integers(0, n, size=n)
        x = rt.take(raw, sel)
        if i:
            for j in range(n):
                if rng.random() < 0.5:
                    rt.perturb(C, rng, raw2, j)
        lanes.append(dict(x=rt.build(C, x), x2=rt.build(C, rt.take(raw2, sel)), one=rt.build(C, rt.take(raw, 0)), vals=rt.build(C, rt.records(C, rng, 4, "uniform")),
                          mask=jnp.asarray(rng.random(n) < 0.6), idx=jnp.asarray(rng.integers(0, n, size=4).astype(np.int32)), cond=jnp.asarray(rng.random(4) < 0.6),
                          cost=jnp.asarray(rng.integers(0, 3, size=n).astype(np.float32)), key=jax.random.PRNGKey(int(rng.integers(0, 1 << 30)))))
    for name in names:
        f = fns[name]
        eager = [f(A) for A in lanes]
        jf = jax.jit(f)
        if name in REFUSABLE:
            # jax cannot trace this index: a clear error is fine, another answer is not
            for mode, run, exp in (("jit", lambda: jf(lanes[0]), eager[0]), ("vmap", lambda: lane(jax.vmap(f)(stack_trees(lanes)), 0), eager[0])):
                try:
                    got = run()
                except (jax.errors.JAXIndexError, jax.errors.JAXTypeError):
                    ctx.ev("refusals")
                else:
                    same(ctx, exp, got, mode, name, type=cls)
                ctx.case(mode, cls, name, "refusable")
            continue
        for A, e in zip(lanes, eager):
            same(ctx, jax.tree_util.tree_map(jnp.asarray, e), jf(A), "jit", name, type=cls)
            ctx.ev("jit_functions")
            ctx.case("jit", cls, name, rt.tree_bytes(A["x"])[1])
        v = jax.vmap(f)(stack_trees(lanes))
        for k, e in enumerate(eager):
            same(ctx, jax.tree_util.tree_map(jnp.asarray, e), lane(v, k), "vmap", name, type=cls)
            ctx.case("vmap", cls, name, k, rt.tree_bytes(lanes[k]["x"])[1])
        ctx.ev("vmap_functions")
        if name in ("set_one", "cset", "upd", "where", "set_scalar", "rep", "ident", "set_slice"):
            def loop(A):
                return jax.lax.scan(lambda x, B: (f(dict(B, x=x)), None), A["x"], stack_trees([A, A]))[0]
            e = f(dict(lanes[0], x=f(lanes[0])))
            same(ctx, e, loop(lanes[0]), "scan", name, type=cls)
            ctx.ev("scan_functions")
    ctx.sample(dict(type=cls, functions=names[:20]))


def catalogue(ctx, cls, count):
    """the shape-operation catalogue under jit and vmap."""
    C, rng = BY[cls], ctx.rng
    scalar = all(lf.shape == () for lf in rt.leaves(C))
    names = [k for k, o in OPS.items() if scalar or not o.scalar_only]
    names = [str(v) for v in rng.permutation(names)]
    for it in range(count):
        name = names[it % len(names)]
        op = OPS[name]
        nd = int(rng.integers(op.min_nd, min(op.max_nd, 3) + 1))
        p = op.gen(rng, batch_shape(rng, nd))
        lanes = [[rt.build(C, rt.records(C, rng, s, "uniform")) for s in p["shapes"]] for _ in range(2)]
        eager = [op.run(x, p) for x in lanes]
        pp = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in p.items()}
        got = jax.jit(lambda x: op.run(x, p))(lanes[0])
        same(ctx, eager[0], got, "jit", name, case=pp)
        v = jax.vmap(lambda x: op.run(x, p))(stack_trees(lanes))
        for k in range(2):
            same(ctx, eager[k], lane(v, k), "vmap", name, case=pp)
        ctx.ev("catalogue_ops")
        ctx.case("cat", cls, name, repr(pp))
    ctx.sample(dict(type=cls, last=name, case=pp))
