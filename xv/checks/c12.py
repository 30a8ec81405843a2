"""C12: aggregate packing: lossless, consistent decoding, distinct packed forms, over generated types."""
import jax
import jax.numpy as jnp
import numpy as np

from xv import rt, rtypes
from xv.rt import F
from xv.rtypes import BY

_n = [0]


def gen_type(rng, depth=2, maxvals=40, prefix="Gen"):
    """a random record type whose leaves all declare bit widths."""
    fields = {}
    for i in range(int(rng.integers(1, 5))):
        name = "abcdefgh"[i]
        if depth > 0 and rng.random() < 0.25:
            fields[name] = F(nested=gen_type(rng, depth - 1, maxvals // 2, prefix))
            continue
        r = rng.random()
        if r < 0.2:
            dt, bits = np.dtype(np.bool_), 1
        else:
            dt = np.dtype([np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32][int(rng.integers(0, 6))])
            full = dt.itemsize * 8
            top = full if dt.kind == "u" else full - 1
            bits = int(rng.choice([1, top, int(rng.integers(1, top + 1)), int(rng.integers(1, top + 1))]))
            if dt.kind == "i" and rng.random() < 0.2:
                bits = full  # full-width signed values
        shape = [(), (), (1,), (int(rng.integers(2, 12)),), (2, 3), (3, 1, 2), (int(rng.integers(1, max(1, maxvals) + 1)),)][int(rng.integers(0, 7))]
        fields[name] = F(dt, shape, bits=bits, fill=False if dt == np.bool_ else 0)
    _n[0] += 1
    return rt.mk(rtypes.G, f"{prefix}{_n[0]}", fields, **(dict(aggregate_bitpack=True) if rng.random() < 0.3 else {}))


def gen_records(C, rng, batch, mode="mix"):
    arr = rt.records(C, rng, batch, mode)
    for lf in rt.leaves(C):   # full-width signed fields take any value
        if lf.field.bits == lf.dtype.itemsize * 8 and lf.dtype.kind == "i":
            arr[lf.path] = rt.gen_array(rng, lf.dtype, batch + lf.shape, mode)
    return arr


def default_dtype(bits):
    return np.dtype(np.bool_) if bits == 1 else np.dtype(np.uint8) if bits <= 8 else np.dtype(np.uint32)


def as_default(v, bits):
    if v.dtype == np.bool_:
        return v.astype(default_dtype(bits))
    u = v.astype(np.int64) & ((1 << bits) - 1)
    return u.astype(default_dtype(bits))


def pbytes(p):
    """one byte string per packed record."""
    w, t = np.asarray(p.words), np.asarray(p.tail)
    n = int(np.prod(w.shape[:-1]))
    return [w.reshape(n, -1)[i].tobytes() + t.reshape(n, -1)[i].tobytes() for i in range(n)]


def view_values(ctx, C, view, arr, what, prefix=()):
    for k, f in rt.SPEC[C].items():
        v = getattr(view, k)
        if f.nested is not None:
            view_values(ctx, f.nested, v, arr, what, prefix + (k,))
        else:
            e = as_default(arr[prefix + (k,)], f.bits)
            g = np.asarray(v)
            ctx.require(g.dtype == e.dtype and g.shape == e.shape, "view", f"{what}: field {k} of the logical view is {g.dtype}{g.shape}, expected {e.dtype}{e.shape}")
            ctx.require(np.array_equal(g, e), "view", f"{what}: field {'.'.join(prefix + (k,))} ({f.bits} bits) of the logical view differs", got=g, expected=e)


def one(ctx, C, batch, mode="mix", indices=3):
    rng = ctx.rng
    arr = gen_records(C, rng, batch, mode)
    x = rt.build(C, arr)
    spec = {".".join(lf.path): (str(lf.dtype), lf.shape, lf.field.bits) for lf in rt.leaves(C)}
    det = dict(type=spec, batch_shape=batch)
    p = x.packed
    ctx.require(type(p) is C.Packed, "type", "packed is not an instance of Packed", **det)
    w, t = np.asarray(p.words), np.asarray(p.tail)
    total = sum(lf.field.bits * int(np.prod(lf.shape)) for lf in rt.leaves(C))
    ctx.require(w.dtype == np.uint32 and t.dtype == np.uint8 and w.shape[:-1] == batch and t.shape[:-1] == batch, "packed-shape",
                f"packed storage is {w.dtype}{w.shape} + {t.dtype}{t.shape}", **det)
    ctx.require(p.shape.batch == batch, "packed-shape", f"packed batch is {p.shape.batch}", **det)
    stored = w.shape[-1] * 4 + t.shape[-1]
    ctx.require(stored * 8 >= total and stored <= (total + 31) // 32 * 4, "size", f"{stored} bytes stored for {total} bits", **det)
    for what, back in (("unpack(declared)", p.unpack(dtype_policy="declared")), ("as_original()", p.as_original())):
        rt.check_inst(ctx, C, back, arr, what, "roundtrip", **det)
    view_values(ctx, C, p.unpacked, arr, "unpacked")
    view_values(ctx, C, p.unpack(), arr, "unpack()")
    ctx.ev("round_trips")
    for lf in rt.leaves(C):
        name = ".".join(lf.path)
        flat = arr[lf.path].reshape(batch + (int(np.prod(lf.shape, dtype=np.int64)),))
        nv = flat.shape[-1]
        full = p.unpack_field(name)
        e = as_default(arr[lf.path], lf.field.bits)
        ctx.require(np.asarray(full).dtype == e.dtype and np.array_equal(np.asarray(full), e), "field", f"unpack_field({name!r}) differs from the packed values", got=full, expected=e, **det)
        dec = np.asarray(p.unpack_field(name, dtype_policy="declared"))
        ctx.require(dec.dtype == lf.dtype and np.array_equal(dec, arr[lf.path]), "field", f"unpack_field({name!r}, declared) differs", got=dec, expected=arr[lf.path], **det)
        for _ in range(indices):
            form = int(rng.integers(0, 5))
            if form == 0:
                i = [int(v) for v in rng.integers(-nv, nv, size=int(rng.integers(1, 5)))]
                ref = np.array(i)
            elif form == 1:
                i = int(rng.integers(-nv, nv))
                ref = np.array([i])
            elif form == 2:
                i = jnp.asarray(rng.integers(-nv, nv, size=3).astype(np.int32))
                ref = np.asarray(i)
            elif form == 3:
                a, b, s = int(rng.integers(-nv - 1, nv + 2)), int(rng.integers(-nv - 1, nv + 2)), int(rng.choice([1, 2, -1, 3, -2]))
                i = slice(a, b, s) if rng.random() < 0.7 else slice(None, None, s)
                ref = np.arange(nv)[i]
            else:
                i = rng.integers(0, nv, size=2)
                ref = np.asarray(i)
            pol = "declared" if rng.random() < 0.5 else "default"
            got = np.asarray(p.unpack_field(name, indices=i, dtype_policy=pol))
            exp = (flat if pol == "declared" else as_default(flat, lf.field.bits))[..., ref]
            ctx.require(got.shape == exp.shape and got.dtype == exp.dtype and np.array_equal(got, exp), "element",
                        f"unpack_field({name!r}, indices={i}, {pol}) differs from unpacking everything", got=got, expected=exp, bits=lf.field.bits, **det)
            ctx.ev("element_decodes")
            if (np.asarray(ref) < 0).any():
                ctx.ev("negative_indices")
    return x, arr, p


def flips(ctx, C):
    """every record one declared bit away packs differently and unpacks to itself."""
    rng = ctx.rng
    rec = {k: v[0] for k, v in gen_records(C, rng, (1,)).items()}
    rows = [rec]
    for lf in rt.leaves(C):
        a = np.array(rec[lf.path], order="C").reshape(-1)
        for i in range(a.size):
            for b in ([None] if lf.dtype == np.bool_ else range(lf.field.bits)):
                c = a.copy()
                if b is None:
                    c[i] = not c[i]
                else:
                    u = c.view(f"u{lf.dtype.itemsize}")
                    u[i] ^= np.asarray(1 << b, u.dtype)
                rows.append({**rec, lf.path: c.reshape(rec[lf.path].shape)})
    rows = rows[:900]
    arr = {p: np.stack([r[p] for r in rows]) for p in rec}
    p = rt.build(C, arr).packed
    rt.check_inst(ctx, C, p.as_original(), arr, "as_original of single-bit variations", "roundtrip")
    pb = pbytes(p)
    ctx.require(len(set(pb)) == len(pb), "injective", f"{len(pb) - len(set(pb))} records differing in one bit share their packed form",
                type={".".join(l.path): (str(l.dtype), l.shape, l.field.bits) for l in rt.leaves(C)})
    ctx.ev("bit_variations", len(pb))


def by_schema(ctx, C, sch, p, arr):
    """a reader that knows nothing but the published schema finds every value in the stored bits."""
    lv = {".".join(lf.path): lf for lf in rt.leaves(C)}
    fs = sch["fields"]
    ctx.require(sorted(f["path"] for f in fs) == sorted(lv), "schema", f"bitpack_schema lists {[f['path'] for f in fs]}", expected=list(lv))
    w, t = np.asarray(p.words), np.asarray(p.tail)
    raw = np.concatenate([np.ascontiguousarray(w).astype("<u4").reshape(-1, w.shape[-1]).view(np.uint8).reshape(-1, w.shape[-1] * 4) if w.size else np.zeros((int(np.prod(w.shape[:-1])), w.shape[-1] * 4), np.uint8),
                          t.reshape(int(np.prod(t.shape[:-1])), t.shape[-1])], axis=1)
    bits = np.unpackbits(raw, axis=1, bitorder="little")
    seen = np.zeros(bits.shape[1], bool)
    for f in fs:
        lf = lv[f["path"]]
        n = int(np.prod(lf.shape, dtype=np.int64))
        ctx.require(f["bits"] == lf.field.bits and f["nvalues"] == n and tuple(f["unpacked_shape"]) == lf.shape and f["bit_len"] == n * lf.field.bits and f["declared_dtype"] == str(lf.dtype)
                    and f["unpacked_dtype_default"] == str(default_dtype(lf.field.bits)), "schema", f"bitpack_schema describes {f['path']} as {f}")
        a, b = f["bit_offset"], f["bit_offset"] + f["bit_len"]
        ctx.require(b <= sch["total_bits"] and not seen[a:b].any(), "schema", f"bitpack_schema: the bits of {f['path']} are outside the record or shared with another field", schema=fs)
        seen[a:b] = True
        v = (bits[:, a:b].reshape(-1, n, f["bits"]).astype(np.uint64) << np.arange(f["bits"], dtype=np.uint64)).sum(axis=2, dtype=np.uint64)
        e = as_default(arr[lf.path], lf.field.bits).astype(np.uint64).reshape(v.shape)
        ctx.require(np.array_equal(v, e), "schema:decode", f"field {f['path']} is not at the bits bitpack_schema says", got=v, expected=e, schema=f)
    ctx.require(C.Packed.bitpack_schema() == sch, "schema", "the packed class has another schema")
    ctx.ev("schema_decodes")


def types(ctx, count, depth=2, maxvals=40, names=None, batches=((), (3,), (2, 2), (1,), (5,), (0,))):
    rng = ctx.rng
    for it in range(count):
        C = BY[names[it % len(names)]] if names else gen_type(rng, depth, maxvals)
        sch = C.bitpack_schema()
        total = sum(lf.field.bits * int(np.prod(lf.shape)) for lf in rt.leaves(C))
        ctx.require(sch["total_bits"] == total, "schema", "bitpack_schema reports another number of bits", got=sch["total_bits"], expected=total)
        b = batches[int(rng.integers(0, len(batches)))]
        x, arr, p = one(ctx, C, tuple(b), str(rng.choice(["mix", "edge", "uniform"])))
        ctx.require(sch["storage_bytes"] == np.asarray(p.words).shape[-1] * 4 + np.asarray(p.tail).shape[-1], "schema", "bitpack_schema reports another storage size")
        by_schema(ctx, C, sch, p, arr)
        flips(ctx, C)
        if it % 3 == 0:  # packed records are records: indexing, joining, compiled and mapped execution
            y, arr2, q = one(ctx, C, (4,), "mix", indices=1)
            rt.check_inst(ctx, C, q[2].as_original(), rt.take(arr2, 2), "element of a packed array", "packed-index")
            rt.check_inst(ctx, C, q[::-1].as_original(), rt.take(arr2, slice(None, None, -1)), "slice of a packed array", "packed-index")
            rt.check_inst(ctx, C, q.reshape((2, 2)).as_original(), {k: v.reshape((2, 2) + v.shape[1:]) for k, v in arr2.items()}, "reshaped packed array", "packed-reshape")
            rt.check_inst(ctx, C, q.at[1].set(q[3]).as_original(), {k: v[[0, 3, 2, 3]] for k, v in arr2.items()}, "updated packed array", "packed-update")
            jp = jax.jit(lambda v: v.packed)(y)
            rt.same_tree(ctx, q, jp, "packing when compiled", "jit")
            rt.same_tree(ctx, q.as_original(), jax.jit(lambda v: v.as_original())(q), "unpacking when compiled", "jit")
            rt.same_tree(ctx, q, jax.vmap(lambda v: v.packed)(y), "packing under vmap", "vmap")
            rt.same_tree(ctx, q.unpacked, jax.vmap(lambda v: v.unpacked)(q), "unpacking under vmap", "vmap")
            d = C.default((3,))
            ctx.require(bool(jnp.all(jnp.asarray(d == d.packed.as_original()))), "default", "the default record does not survive packing")
            ctx.ev("packed_arrays")
        ctx.case({".".join(l.path): (str(l.dtype), l.shape, l.field.bits) for l in rt.leaves(C)}, b, *[v for v in arr.values()])
        ctx.ev("types")
        if total % 32 == 0:
            ctx.ev("word_aligned_types")
        if any(lf.field.bits == 32 for lf in rt.leaves(C)):
            ctx.ev("types_with_32bit_fields")
    ctx.sample(dict(last_type={".".join(l.path): (str(l.dtype), l.shape, l.field.bits) for l in rt.leaves(C)}, batch=b))


def widths(ctx, lo, hi):
    """each width at every alignment: a leading field of k bits, then several elements of `bits`."""
    rng = ctx.rng
    for bits in range(lo, hi):
        for lead in sorted({0, int(rng.integers(1, 32)), 31, 32 - (bits % 32) if bits % 32 else 1}):
            dt = np.uint8 if bits <= 8 else np.uint16 if bits <= 16 else np.uint32
            f = {}
            if lead:
                f["lead"] = F(np.uint32, bits=lead, fill=0)
            f["v"] = F(dt, (int(rng.integers(2, 9)),), bits=bits, fill=0)
            if rng.random() < 0.5:
                f["end"] = F(np.bool_, bits=1, fill=False)
            _n[0] += 1
            C = rt.mk(rtypes.G, f"Wd{_n[0]}", f)
            one(ctx, C, (2,), "edge", indices=2)
            ctx.ev("width_alignments")
            ctx.case("width", bits, lead, len(f))


def kernel(ctx, count):
    """the packing kernel must store the same words as the portable path, whatever the tile and program order."""
    import os

    from xv import accel
    from xv.checks.c23 import sim_events, sim_run
    rng = ctx.rng
    B, W = "XTRUCTURE_AGG_BITPACK_PACK_BACKEND", "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE"
    for step in range(count):
        C = gen_type(rng, depth=1, maxvals=8)
        batch = [(), (1,), (3,), (2, 2), (5,)][int(rng.integers(0, 5))]
        arr = gen_records(C, rng, batch)
        x = rt.build(C, arr)
        os.environ[B] = "xla"
        ref = x.packed
        os.environ[B], os.environ[W] = "pallas", str(int(rng.integers(1, 7)))
        det = dict(type={".".join(lf.path): (str(lf.dtype), lf.shape, lf.field.bits) for lf in rt.leaves(C)}, batch_shape=batch, tile=os.environ[W])
        forms = [("interpreted", lambda: x.packed)]
        if sum(int(np.prod(lf.shape)) for lf in rt.leaves(C)) * max(1, int(np.prod(batch))) <= 40:
            sim = accel.Simulator(rng, switch=0.5)
            State = accel.State
            old, State.kind = State.kind, "gpu"    # a parallel grid
            try:
                got = sim_run(ctx, sim, lambda: x.packed)
            finally:
                State.kind = old
            sim_events(ctx, sim)
            forms.append(("simulated", lambda: got))
        for what, f in forms:
            p = f()
            ctx.require(pbytes(p) == pbytes(ref) if batch else np.asarray(p.words).tobytes() + np.asarray(p.tail).tobytes() == np.asarray(ref.words).tobytes() + np.asarray(ref.tail).tobytes(),
                        "kernel", f"the {what} packing kernel stores other bits than the portable path", words=p.words, expected=ref.words, tail=p.tail, expected_tail=ref.tail, **det)
            ctx.ev("kernel_packs_" + what)
        ctx.case("kernel", str(det["type"]), batch, det["tile"], arr[rt.leaves(C)[0].path])
    os.environ.pop(B), os.environ.pop(W)
