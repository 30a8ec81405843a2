"""C11: hashes are functions of type, content and seed; renderings are injective."""
import json
import os
import subprocess
import sys

import jax
import jax.numpy as jnp
import numpy as np

from xv import rt, rtypes
from xv.rtypes import BY

_made = {}


def variant(name, tag, env):
    """the same record type decorated under other environment settings."""
    key = (name, tag)
    if key not in _made:
        old = {k: os.environ.get(k) for k in env}
        os.environ.update(env)
        try:
            spec = {k: (rt.F(nested=variant(f.nested.__name__, tag, env), shape=f.shape) if f.nested is not None else f) for k, f in rt.SPEC[BY[name]].items()}
            _made[key] = rt.mk(rtypes.G, f"{name}__{tag}", spec)
        finally:
            for k, v in old.items():
                os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        BY[f"{name}__{tag}"] = _made[key]
    return _made[key]


def fns(C):
    return dict(
        hash=jax.jit(jax.vmap(lambda r, s: r.hash(s), in_axes=(0, None))),
        pair=jax.jit(jax.vmap(lambda r, s: r.hash_pair(s), in_axes=(0, None))),
        words=jax.jit(jax.vmap(lambda r: r.uint32ed)), bytes=jax.jit(jax.vmap(lambda r: r.bytes)),
        hw=jax.jit(jax.vmap(lambda r, s: r.hash_with_uint32ed(s), in_axes=(0, None))),
        pw=jax.jit(jax.vmap(lambda r, s: r.hash_pair_with_uint32ed(s), in_axes=(0, None))),
    )


def flips(C, rec):
    """every record that differs from `rec` (dict of single records) in exactly one meaningful bit."""
    rows, names = [], []
    for lf in rt.leaves(C):
        a = np.ascontiguousarray(rec[lf.path]).reshape(-1) if rec[lf.path].ndim else rec[lf.path].reshape(1)
        for i in range(a.size):
            if lf.dtype == np.bool_:
                bits = [None]
            elif lf.field.bits is not None and lf.field.packed is None:
                bits = range(lf.field.bits)
            else:
                bits = range(lf.dtype.itemsize * 8)
            for b in bits:
                c = a.copy()
                if b is None:
                    c[i] = not c[i]
                else:
                    u = c.view(f"u{lf.dtype.itemsize}")
                    u[i] ^= np.asarray(1 << b, u.dtype)
                rows.append({**rec, lf.path: c.reshape(rec[lf.path].shape)})
                names.append((".".join(lf.path), i, b))
    return rows, names


def content(ctx, cls, nrec, agg="raw", eager=4):
    C = BY[cls] if agg == "raw" else variant(cls, agg, {"XTRUCTURE_HASH_AGG_MODE": agg})
    rng = ctx.rng
    f = fns(C)
    seed = jnp.uint32(int(rng.integers(0, 2**32)))
    for _ in range(nrec):
        rec = rt.take(rt.records(C, rng, 1), 0)
        rows, names = flips(C, rec)
        rows = [rec] + rows
        x = rt.build(C, {p: np.stack([r[p] for r in rows]) for p in rec})
        byt, wds = np.asarray(f["bytes"](x)), np.asarray(f["words"](x))
        h = np.asarray(f["hash"](x, seed))
        a, b = [np.asarray(v) for v in f["pair"](x, seed)]
        ctx.require(byt.dtype == np.uint8 and wds.dtype == np.uint32 and h.dtype == a.dtype == b.dtype == np.uint32 and h.shape == (len(rows),), "dtype",
                    "hash, word or byte renderings have another type or shape", got=[byt.dtype, wds.dtype, h.dtype, a.dtype, h.shape])
        for what, r in (("byte", byt), ("word", wds)):
            seen = {}
            for j, v in enumerate(r):
                k = v.tobytes()
                if k in seen:
                    who = [("the record itself" if i == 0 else names[i - 1]) for i in (seen[k], j)]
                    ctx.fail(f"{what}-collision", f"the {what} rendering does not distinguish records differing in {who}", record={".".join(p): v for p, v in rec.items()})
                seen[k] = j
        for what, v in (("hash", h), ("pair[0]", a)):
            same = np.flatnonzero(v[1:] == v[0])
            ctx.require(not len(same), "insensitive", f"{what} does not depend on {[names[i] for i in same[:6]]}", seed=int(seed), fields=[p for p in rec])
        same = np.flatnonzero((b[1:] == b[0]))
        ctx.require(len(same) <= 1, "insensitive", f"the second hash does not depend on {[names[i] for i in same[:6]]}", seed=int(seed))
        ctx.require((h == a).all(), "primary", "the primary value of hash_pair differs from hash")
        hw, w1 = f["hw"](x, seed)
        (pa, pb), w2 = f["pw"](x, seed)
        for what, u, v in (("hash_with_uint32ed value", hw, h), ("hash_with_uint32ed words", w1, wds), ("hash_pair_with_uint32ed primary", pa, h),
                           ("hash_pair_with_uint32ed secondary", pb, b), ("hash_pair_with_uint32ed words", w2, wds)):
            ctx.require(np.array_equal(np.asarray(u), v), "forms", f"{what} differs from the plain form")
        ctx.ev("bit_flips", len(names))
        # other ways to ask for the same record
        for j in [0] + [int(v) for v in rng.integers(0, len(rows), size=eager)]:
            one = x[j]
            fresh = rt.build(C, rows[j])
            for what, o in (("a record of a batch", one), ("a rebuilt record", fresh)):
                ctx.require(int(o.hash(seed)) == h[j], "position", f"{what} hashes differently when hashed alone", row=j)
                q = o.hash_pair(seed)
                ctx.require((int(q[0]), int(q[1])) == (a[j], b[j]), "position", f"{what} has another hash pair when hashed alone", row=j)
            ctx.require(np.array_equal(np.asarray(one.bytes), byt[j]) and np.array_equal(np.asarray(fresh.uint32ed), wds[j]), "position", "renderings differ when taken alone", row=j)
            ctx.ev("single_hashes", 2)
        perm = rng.permutation(len(rows))[: max(2, min(len(rows), 7))]
        hp = np.asarray(jax.vmap(lambda r: r.hash(seed))(x[perm]))
        ctx.require(np.array_equal(hp, h[perm]), "position", "hashes change with the position in the batch")
        # whole batches (hashed as one value)
        small = x[:3]
        hb = int(small.hash(seed))
        ctx.require(hb == int(jax.jit(lambda r: r.hash(seed))(small)), "compiled", "a batched instance hashes differently when compiled")
        ctx.require(len({int(x[np.array(p)].hash(seed)) for p in ([0, 1, 2], [1, 0, 2], [0, 1, 1], [2, 1, 0])}) == 4, "batch-hash", "hashing a batched instance ignores some rows or their order")
        ctx.case(cls, agg, *[np.asarray(v) for v in rec.values()])
    ctx.sample(dict(type=cls, agg=agg, bits=len(names), record={".".join(p): v for p, v in rec.items()}))


def seeds(ctx, cls, n):
    C, rng = BY[cls], ctx.rng
    one = rt.build(C, rt.take(rt.records(C, rng, 1, "uniform"), 0))
    ss = sorted({0, 1, 2, 3, 7, 255, 256, 65536, 2**31 - 1, 2**31, 2**32 - 1, 0x9E3779B1, *[1 << k for k in range(32)], *[int(v) for v in rng.integers(0, 2**32, size=n)]})
    arr = jnp.asarray(np.array(ss, np.uint32))
    h = np.asarray(jax.vmap(lambda s: one.hash(s))(arr))
    p0, p1 = [np.asarray(v) for v in jax.vmap(lambda s: one.hash_pair(s))(arr)]
    for what, v in (("hash", h), ("second hash", p1)):
        dup = len(v) - len(set(v.tolist()))
        ctx.require(dup <= 1, "seed", f"{what} repeats for {dup} of {len(ss)} different seeds")
    ctx.require((h == p0).all(), "primary", "the primary value of hash_pair differs from hash")
    ctx.require(int(one.hash()) == h[ss.index(0)], "default-seed", "the default seed is not 0")
    for i, s in list(enumerate(ss))[:: max(1, len(ss) // 12)]:
        forms = [jnp.uint32(s), np.uint32(s), jnp.asarray(s, jnp.uint32)] + ([s] if s < 2**31 else [])
        for v in forms:
            ctx.require(int(one.hash(v)) == h[i] and int(one.hash(seed=v)) == h[i], "seed-form", f"seed {s} given as {type(v).__name__} gives another hash")
        ctx.case(cls, s)
    ctx.ev("seeds", len(ss))
    ctx.sample(dict(type=cls, seeds=len(ss)))


def spread(ctx, cls, n, mode):
    """hashes of many distinct structured records: no systematic collisions."""
    C, rng = BY[cls], ctx.rng
    if mode == "perms":
        lf = max(rt.leaves(C), key=lambda l: int(np.prod(l.shape)))
        base = rt.records(C, rng, 1, "uniform")
        arr = {p: np.repeat(v, n, axis=0) for p, v in base.items()}
        k = int(np.prod(lf.shape))
        for i in range(n):
            v = np.zeros(k, lf.dtype)
            v[:] = rng.permutation(k).astype(np.float32).astype(lf.dtype)
            arr[lf.path][i] = v.reshape(lf.shape)
    else:
        arr = rt.pool_records(C, rng, n, 0.9, "small" if mode == "small" else "uniform")
    ks = rt.keys(C, arr)
    first = {}
    for i, k in enumerate(ks):
        first.setdefault(k, i)
    sel = sorted(first.values())
    x = rt.build(C, rt.take(arr, sel))
    for s in (0, 7):
        f = fns(C)
        h = np.asarray(f["hash"](x, jnp.uint32(s)))
        b = np.asarray(f["pair"](x, jnp.uint32(s))[1])
        for what, v in (("hash", h), ("second hash", b)):
            dup = len(v) - len(set(v.tolist()))
            ctx.require(dup <= 2, "spread", f"{dup} collisions of the {what} among {len(sel)} distinct records", mode=mode, seed=s)
        both = len(set(zip(h.tolist(), b.tolist())))
        ctx.require(both == len(sel), "spread", f"{len(sel) - both} collisions of the full pair", mode=mode)
    ctx.ev("spread_records", len(sel))
    ctx.case(cls, mode, len(sel), ks[0])


def modes(ctx, cls, n):
    """streaming on, off, automatic with several thresholds: the same hash."""
    rng = ctx.rng
    st, th = "XTRUCTURE_HASH_STREAM", "XTRUCTURE_HASH_STREAM_THRESHOLD_U32"
    vs = [("off", {st: "off"}), ("on", {st: "on"}), ("a0", {st: "auto", th: "0"}), ("a5", {st: "auto", th: "5"}), ("abig", {st: "auto", th: "100000"})]
    arr = rt.records(BY[cls], rng, n, "uniform")
    ref = None
    for s in (0, int(rng.integers(0, 2**31))):
        ref = None
        for tag, env in [("plain", None)] + vs:
            C = BY[cls] if env is None else variant(cls, tag, env)
            x = rt.build(C, arr)
            f = fns(C)
            got = [np.asarray(f["hash"](x, jnp.uint32(s)))] + [np.asarray(v) for v in f["pair"](x, jnp.uint32(s))] + [np.asarray(f["hw"](x, jnp.uint32(s))[0]), np.asarray(f["pw"](x, jnp.uint32(s))[0][1])]
            got.append(np.asarray([int(x[i].hash(jnp.uint32(s))) for i in range(2)]))
            if ref is None:
                ref = got
            for what, a, b in zip(("hash", "pair[0]", "pair[1]", "hash with words", "pair[1] with words", "single hash"), ref, got):
                ctx.require(np.array_equal(a, b), "streaming", f"{what} differs with streaming setting {env}", type=cls, seed=s)
            ctx.case(cls, tag, s, arr[list(arr)[0]])
            ctx.ev("streaming_variants")
    ctx.sample(dict(type=cls, variants=[v[0] for v in vs]))


def processes(ctx, names, envs):
    """the same records hashed in fresh processes."""
    from xv.hashchild import table
    seed, hs = int(ctx.rng.integers(0, 2**31)), [0, 3, 4000000000]
    here = table(names, seed, 6, hs)
    arg = json.dumps(dict(repo=os.environ["XV_REPO"], names=names, seed=seed, n=6, hseeds=hs))
    ps = []
    for env in envs:
        e = {k: v for k, v in os.environ.items() if k != "XV_FD"}
        e.update(env)
        ps.append((env, subprocess.Popen([sys.executable, "-m", "xv.hashchild", arg], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(rt.__file__) + "/..")))
    for env, p in ps:
        while True:
            try:
                out, err = p.communicate(timeout=2)
                break
            except subprocess.TimeoutExpired:
                ctx.tick()
        if p.returncode != 0:
            raise RuntimeError("child process failed: " + err.decode()[-1500:])
        there = json.loads([l for l in out.decode().splitlines() if l.startswith("RESULT ")][0][7:])
        for n in names:
            for k in here[n]:
                ctx.require(there[n][k] == here[n][k], "process", f"{k} of a {n} record differs in another process ({env})", here=here[n][k], there=there[n][k])
            ctx.case("process", n, repr(env), seed)
            ctx.ev("process_comparisons")
    ctx.sample(dict(types=names, environments=envs))


def wide(ctx):
    """64-bit fields (JAX_ENABLE_X64=1)."""
    from xv.rt import F
    name = "W64"
    if name not in BY:
        BY[name] = rt.mk(rtypes.G, name, dict(a=F(np.int64), b=F(np.uint64, (2,)), c=F(np.float64, (2,)), d=F(np.uint8)))
    content(ctx, name, 2)
    ctx.ev("wide_fields")


def large(ctx, sizes, flips=40):
    """records of many thousand words: single-bit changes anywhere count, in every form and setting."""
    from xv.rt import F
    rng = ctx.rng
    name = "L" + "_".join(f"{d}{n}" for d, n in sizes)
    if name not in BY:
        BY[name] = rt.mk(rtypes.G, name, {f"f{i}": F(np.dtype(d), (n,) if n else ()) for i, (d, n) in enumerate(sizes)})
    C = BY[name]
    lv = rt.leaves(C)
    rec = rt.take(rt.records(C, rng, 1, "uniform"), 0)
    rows, what = [rec], ["base"]
    for lf in lv:
        n = int(np.prod(lf.shape))
        spots = sorted({0, n - 1, *[int(v) for v in rng.integers(0, n, size=flips // len(lv))], *[v for v in (1023, 4095, 8191, 8192, 16384, 32768, 65535, 65536) if v < n]})
        for i in spots:
            a = np.array(rec[lf.path]).reshape(-1)
            u = a.view(f"u{lf.dtype.itemsize}") if lf.dtype != np.bool_ else a
            u[i] = (not u[i]) if lf.dtype == np.bool_ else u[i] ^ np.asarray(1 << int(rng.integers(0, lf.dtype.itemsize * 8)), u.dtype)
            rows.append({**rec, lf.path: a.reshape(np.shape(rec[lf.path]))})
            what.append((".".join(lf.path), i))
    ref = None
    seed = jnp.uint32(int(rng.integers(0, 2**32)))
    arr = {p: np.stack([r[p] for r in rows]) for p in rec}
    for tag, env in (("plain", None), ("off", {"XTRUCTURE_HASH_STREAM": "off"}), ("on", {"XTRUCTURE_HASH_STREAM": "on"})):
        D = C if env is None else variant(name, tag, env)
        x = rt.build(D, arr)
        f = fns(D)
        h = np.asarray(f["hash"](x, seed))
        a, b = [np.asarray(v) for v in f["pair"](x, seed)]
        (pa, pb), w2 = f["pw"](x, seed)
        hw, w1 = f["hw"](x, seed)
        got = [h, a, b, np.asarray(hw), np.asarray(pa), np.asarray(pb)]
        names = ("hash", "pair[0]", "pair[1]", "hash with words", "pair[0] with words", "pair[1] with words")
        if ref is None:
            ref = [h, h, b, h, h, b]
            words = np.asarray(f["words"](x))
            want = np.unique(words, axis=0).shape[0]
            ctx.require(want == len(rows), "word-collision", f"only {want} of {len(rows)} distinct records have distinct words", type=name)
        for nm, u, v in zip(names, ref, got):
            ctx.require(np.array_equal(u, v), "forms" if env is None else "streaming", f"{nm} of a large record differs ({tag})", type=name, first=[what[i] for i in np.flatnonzero(u != v)[:4]])
        ctx.require(np.array_equal(np.asarray(w1), words) and np.array_equal(np.asarray(w2), words), "forms", "the words returned with the hash differ from uint32ed", type=name)
        for nm, v in (("hash", h), ("pair[1]", b)):
            same = np.flatnonzero(v[1:] == v[0])
            ctx.require(len(same) == 0, "insensitive", f"{nm} of a large record does not depend on {[what[i + 1] for i in same[:6]]}", type=name)
        j = int(rng.integers(0, len(rows)))
        one = rt.build(D, rows[j])
        q = one.hash_pair(seed)
        ctx.require(int(one.hash(seed)) == h[j] and (int(q[0]), int(q[1])) == (h[j], b[j]), "position", "a large record hashes differently when hashed alone", type=name)
    # exchanging two different words changes the hash
    lf = max(lv, key=lambda l: int(np.prod(l.shape)))
    n = int(np.prod(lf.shape))
    sw = []
    for _ in range(flips):
        i, j = sorted(int(v) for v in rng.choice(n, size=2, replace=False))
        a = np.array(rec[lf.path]).reshape(-1)
        if a[i] != a[j]:
            a[[i, j]] = a[[j, i]]
            sw.append({**rec, lf.path: a.reshape(np.shape(rec[lf.path]))})
    x = rt.build(C, {p: np.stack([r[p] for r in sw]) for p in rec})
    hs, bs = np.asarray(fns(C)["hash"](x, seed)), np.asarray(fns(C)["pair"](x, seed)[1])
    ctx.require(not (hs == ref[0][0]).any() and not (bs == ref[2][0]).any(), "insensitive", "exchanging two words of a large record keeps a hash", type=name)
    ctx.case(name, int(seed), rec[lv[0].path])
    ctx.ev("large_records", len(rows) + len(sw))
    ctx.sample(dict(type=name, words=int(words.shape[1]), records=len(rows) + len(sw)))
