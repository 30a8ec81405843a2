"""C09: versions are values.  Snapshots of every retained version and of all arguments are re-checked while
histories branch, and branches are rebuilt from scratch."""
import copy

import jax.numpy as jnp
import numpy as np
from xtructure import numpy as xnp

from xv import machines, rt
from xv.opcat import OPS, batch_shape
from xv.rtypes import BY


def snap(x):
    t = rt.tree_bytes(x)
    sh = getattr(type(x), "__xtructure_field_names__", None)
    return t + ((str(x.shape), str(x.dtype)) if sh is not None else ())


def check(ctx, obj, s, what, **det):
    try:
        now = snap(obj)
    except RuntimeError as e:
        ctx.fail("unusable", f"{what} can no longer be read: {e}"[:300], **det)
    if now != s:
        bad = [i for i, (a, b) in enumerate(zip(s[1], now[1])) if a != b]
        ctx.fail("changed", f"{what} changed (leaves {bad}, structure {'same' if now[0] == s[0] else 'changed'}, shape {'same' if now[2:] == s[2:] else (s[2:], now[2:])})", **det)


def branching(ctx, kind, cls, steps, keep=24, **kw):
    rng = ctx.rng
    m = machines.make(rng, kind, cls, **kw)
    c, st = m.fresh()
    versions = [dict(c=c, st=st, snap=snap(c), log=[])]
    args = []       # every argument ever used, with its snapshot
    results = []    # every returned value, with its snapshot
    done = []       # (version entry, op, x, result bytes)
    for step in range(steps):
        v = versions[int(rng.integers(0, len(versions)))] if rng.random() < 0.6 else versions[-1]
        op, st2 = machines.pick_op(m, rng, v["st"])
        x = m.args()
        sx = snap(x)
        c2, out = m.run(op, v["c"], x)
        det = dict(operation=op, step=step, history=[o for o, _ in v["log"]][-10:])
        check(ctx, v["c"], v["snap"], f"the {kind} an operation ({op}) was applied to", **det)
        check(ctx, x, sx, f"an argument of {op}", **det)
        args.append((x, sx, op))
        results.append((out, rt.tree_bytes(out), op))
        new = dict(c=c2, st=st2, snap=snap(c2), log=v["log"] + [(op, x)])
        done.append((v, op, x, rt.tree_bytes((c2, out))))
        versions.append(new)
        if len(versions) > keep:
            versions.pop(int(rng.integers(1, keep - 1)))
        ctx.case(kind, cls, op, tuple(o for o, _ in new["log"][-5:]), st2)
        ctx.ev("operations")
        if v is not versions[-1] and v is not versions[-2]:
            ctx.ev("branches")
        # re-check a sample of retained versions, results and arguments now, all of them at the end
        full = step == steps - 1 or step % 10 == 9
        for w in (versions if full else [versions[int(rng.integers(0, len(versions)))]]):
            check(ctx, w["c"], w["snap"], f"a {kind} kept from earlier (history {[o for o, _ in w['log']][-8:]})", **det)
            ctx.ev("versions_rechecked")
        if full:
            for a, s, o in args:
                check(ctx, a, s, f"an argument given earlier to {o}", **det)
            for a, s, o in results:
                if rt.tree_bytes(a) != s:
                    ctx.fail("result-changed", f"a result of an earlier {o} changed", **det)
            ctx.ev("results_rechecked", len(results))
        # the same operation on the same old version: identical
        if rng.random() < 0.4:
            w, o, y, b = done[int(rng.integers(0, len(done)))]
            if rt.tree_bytes(m.run(o, w["c"], y)) != b:
                ctx.fail("history-dependent", f"repeating {o} on the same {kind} version gave another result", **det)
            ctx.ev("replays")
    # rebuild branches from scratch
    for w in [versions[int(i)] for i in rng.permutation(len(versions))[:5]]:
        c, _ = m.fresh()
        for o, y in w["log"]:
            c, _ = m.run(o, c, y)
        if rt.tree_bytes(c) != rt.tree_bytes(w["c"]):
            ctx.fail("branch", f"a {kind} branch differs from the same operations run from scratch", history=[o for o, _ in w["log"]])
        ctx.ev("rebuilds")
    ctx.sample(dict(kind=kind, type=cls, last_history=[o for o, _ in versions[-1]["log"]][:20]))


# ------------------------------------------------------------------ record arrays
def misc_ops(C, rng, x, x2, one, n):
    """name -> thunk(x): operations on a 1-D record array that take further arguments."""
    mask = rng.random(n) < 0.5
    idx = rng.integers(0, n, size=4).astype(np.int32)
    cond = rng.random(4) < 0.5
    vals = rt.build(C, rt.records(C, rng, 4, "uniform"))
    cost = rng.integers(0, 3, size=n).astype(np.float32)
    A = dict(x=x, x2=x2, one=one, mask=mask, idx=idx, cond=cond, vals=vals, cost=cost)
    J = jnp.asarray
    ops = dict(
        get=lambda: x[1], get_slice=lambda: x[1:3], get_arr=lambda: x[idx], get_mask=lambda: x[mask], get_neg=lambda: x[-1],
        set_one=lambda: x.at[2].set(one), set_arr=lambda: x.at[J(idx)].set(vals), set_scalar=lambda: x.at[1].set(1), set_inst=lambda: x.at[:4].set(vals),
        cset=lambda: x.at[J(idx)].set_as_condition(J(cond), vals), cset_slice=lambda: x.at[:4].set_as_condition(J(cond), vals),
        upd=lambda: xnp.update_on_condition(x, J(idx), J(cond), vals), upd_scalar=lambda: xnp.update_on_condition(x, J(idx), J(cond), 0),
        where=lambda: xnp.where(J(mask), x, x2), where_fill=lambda: xnp.where(J(mask), x, 0),
        uniq=lambda: xnp.unique_mask(x), uniq_cost=lambda: xnp.unique_mask(x, J(cost), return_index=True, return_inverse=True),
        uniq_filled=lambda: xnp.unique_mask(x, filled=J(mask)),
        eq=lambda: x == x2, ne=lambda: x != x2, equal=lambda: xnp.equal(x, x2), isclose=lambda: xnp.isclose(x, x2), allclose=lambda: xnp.allclose(x, x2),
        hash=lambda: one.hash(3), words=lambda: one.uint32ed, bytes=lambda: one.bytes,
        zeros_like=lambda: xnp.zeros_like(x), full_like=lambda: xnp.full_like(x, 1), astype=lambda: x.astype(jnp.float32), bc=lambda: xnp.broadcast_arrays(one.expand_dims(0), x),
        default_like=lambda: C.default((n,)), rnd=lambda: C.random((n,)), tup=lambda: x.to_tuple(), rep=lambda: x.replace(**{k: getattr(x2, k) for k in list(x.__dataclass_fields__)[:1]}),
        cp=lambda: copy.copy(x), dcp=lambda: copy.deepcopy(x), shape=lambda: str((x.shape, x.dtype, len(x), x.batch_shape if hasattr(x, "batch_shape") else 0)),
        txt=lambda: (str(x), repr(type(x))), st=lambda: str(x.structured_type),
    )
    return ops, A


def arrays(ctx, cls, count, host):
    """record-array operations: arguments, numpy-backed ones included, keep their bytes; results are repeatable."""
    C, rng = BY[cls], ctx.rng
    kept = []
    scalar = all(lf.shape == () for lf in rt.leaves(C))
    names = [k for k, o in OPS.items() if scalar or not o.scalar_only]
    unsupported = set()
    for it in range(count):
        if it % 3 == 2:
            n = int(rng.integers(4, 8))
            raw = [rt.records(C, rng, n, "uniform"), rt.records(C, rng, n, "small"), rt.take(rt.records(C, rng, 1, "uniform"), 0)]
            x, x2, one = [rt.build(C, r, host=host) for r in raw]
            ops, A = misc_ops(C, rng, x, x2, one, n)
            pool = dict(ops)
            k = [str(v) for v in rng.permutation(list(pool))[:10]]
            before = {a: snap(v) for a, v in A.items()}
            for name in k:
                if (name, host) in unsupported:
                    continue
                try:
                    r1 = pool[name]()
                except Exception:
                    if host:  # numpy-backed fields are not accepted by every operation
                        unsupported.add((name, host))
                        for a, v in A.items():
                            check(ctx, v, before[a], f"argument {a} of a failed {name}", type=cls)
                        continue
                    raise
                for a, v in A.items():
                    check(ctx, v, before[a], f"argument {a} of {name}", type=cls, numpy_backed=host)
                r2 = pool[name]()
                ctx.require(rt.tree_bytes(r1) == rt.tree_bytes(r2) if not isinstance(r1, (str, tuple)) or not isinstance(r1 if isinstance(r1, str) else r1[0], str) else r1 == r2,
                            "repeat", f"{name} gave another result the second time", type=cls)
                if not isinstance(r1, (str,)) and not (isinstance(r1, tuple) and isinstance(r1[0], str)):
                    kept.append((r1, rt.tree_bytes(r1), name))
                ctx.ev("op_misc")
                ctx.case(cls, name, host, it)
            kept += [(v, rt.tree_bytes(v), "argument " + a) for a, v in A.items()]
        else:
            name = names[int(rng.integers(0, len(names)))]
            op = OPS[name]
            nd = int(rng.integers(op.min_nd, min(op.max_nd, 3) + 1))
            p = op.gen(rng, batch_shape(rng, nd))
            insts = [rt.build(C, rt.records(C, rng, s, "uniform"), host=host) for s in p["shapes"]]
            before = [snap(v) for v in insts]
            pb = {k: v.tobytes() for k, v in p.items() if isinstance(v, np.ndarray)}
            try:
                out = op.run(insts, p)
            except Exception:
                if host:
                    continue
                raise
            for v, b in zip(insts, before):
                check(ctx, v, b, f"an argument of {name}", type=cls, numpy_backed=host)
            ctx.require(all(p[k].tobytes() == b for k, b in pb.items()), "changed", f"an index argument of {name} changed")
            kept.append((out, rt.tree_bytes(out), name))
            kept += [(v, rt.tree_bytes(v), "argument of " + name) for v in insts]
            ctx.ev("op_catalogue")
            ctx.case(cls, name, host, it)
        if len(kept) > 60:
            kept = kept[-40:]
        for v, b, name in kept[:: 1 + len(kept) // 12]:
            ctx.require(rt.tree_bytes(v) == b, "kept-changed", f"a value kept from {name} changed later", type=cls, numpy_backed=host)
            ctx.ev("values_rechecked")
    ctx.sample(dict(type=cls, numpy_backed=host, operations=count))
