"""C17: record-array shape operations, checked against the same operation on record labels."""
import numpy as np

from xv import rt
from xv.opcat import OPS, ZERO_OK, batch_shape
from xv.rtypes import BY


def default_record(cls):
    """declared fill values, from the table in rtypes (never from the code under test)."""
    out = {}
    for lf in rt.leaves(cls):
        out[lf.path] = np.full((1,) + lf.shape, rt.fill_of(lf), lf.dtype)
    return out


def expected(pool, dflt, labels):
    lab = np.asarray(labels)
    n = len(next(iter(pool.values())))
    return {p: np.concatenate([v, dflt[p]])[np.where(lab < 0, n, lab)] for p, v in pool.items()}


def ops(ctx, cls, count, only=None):
    C, rng = BY[cls], ctx.rng
    scalar = all(lf.shape == () for lf in rt.leaves(C))
    names = [k for k, o in OPS.items() if (scalar or not o.scalar_only) and (only is None or k in only)]
    dflt = default_record(C)
    for it in range(count):
        name = names[it % len(names)] if it < 2 * len(names) else names[int(rng.integers(0, len(names)))]
        op = OPS[name]
        nd = int(rng.integers(op.min_nd, min(op.max_nd, 3) + 1))
        if rng.random() < 0.1 and op.max_nd >= 4:
            nd = 4
        b = batch_shape(rng, nd, name in ZERO_OK)
        p = op.gen(rng, b)
        total = sum(int(np.prod(s)) for s in p["shapes"])
        pool = rt.records(C, rng, max(1, total), "uniform")
        labels, off = [], 0
        for s in p["shapes"]:
            k = int(np.prod(s))
            labels.append(np.arange(off, off + k).reshape(s))
            off += k
        insts = [rt.build(C, {q: v[l] for q, v in pool.items()}) for l in labels]
        out = op.run(insts, p)
        lab = op.lab(labels, p)
        pp = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in p.items()}
        if isinstance(lab, list):
            ctx.require(len(out) == len(lab), f"{name}:count", f"{name} gave {len(out)} parts, expected {len(lab)}", case=pp)
            pairs = list(zip(out, lab))
        else:
            pairs = [(out, lab)]
        for o, l in pairs:
            rt.check_inst(ctx, C, o, expected(pool, dflt, l), f"{name} {pp}", name, case=pp)
        ctx.case(name, repr(pp), cls, nontrivial=total > 0)
        ctx.ev("op_" + name)
        ctx.ev("records_moved", total)
    ctx.sample(dict(type=cls, last_operation=name, case=pp))
