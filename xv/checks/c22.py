"""C22: tree, copy, pickle and conversion round trips of dataclass instances."""
import copy
import dataclasses
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from xtructure import BGPQ, HashTable, Queue, Stack

from xv import dctypes, rt
from xv.rt import SPEC
from xv.rtypes import ALL as RTYPES, BY

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tu = jax.tree_util


# ---------------------------------------------------------------- random instances and their description
def gen_array(rng):
    dt = np.dtype([np.int32, np.float32, np.uint8, np.bool_, np.float16, np.int16][int(rng.integers(0, 6))])
    sh = tuple(int(d) for d in rng.integers(0, 4, size=int(rng.integers(0, 3))))
    a = rt.gen_array(rng, dt, sh, "uniform")
    return a if rng.random() < 0.2 else jnp.asarray(a)


def gen_value(rng, depth):
    r = rng.random()
    if depth > 0 and r < 0.25:
        return gen_inst(rng, depth - 1)
    if depth > 0 and r < 0.33:
        return {k: gen_value(rng, depth - 1) for k in ["b", "a", "c"][:int(rng.integers(0, 4))]}
    if depth > 0 and r < 0.40:
        return [gen_value(rng, depth - 1) for _ in range(int(rng.integers(0, 3)))]
    if depth > 0 and r < 0.44:
        return (gen_value(rng, depth - 1), None)
    if r < 0.55:
        C = RTYPES[int(rng.integers(0, len(RTYPES)))]
        return rt.build(C, rt.records(C, rng, [(), (2,), (3, 2)][int(rng.integers(0, 3))]))
    if r < 0.60:
        return None
    return gen_array(rng)


def gen_static(rng):
    return [int(rng.integers(0, 5)), "abc"[:int(rng.integers(0, 4))], (1, "x", (2.5,)), None, True, frozenset([1, 2]), 2.5][int(rng.integers(0, 7))]


def gen_inst(rng, depth=2, cls=None):
    C = cls if cls is not None else dctypes.ALL[int(rng.integers(0, len(dctypes.ALL)))]
    st = dctypes.STATIC.get(C, ())
    kw = {f: gen_static(rng) if f in st else gen_value(rng, depth) for f in dctypes.FIELDS[C]}
    if C is dctypes.B5 and rng.random() < 0.5:
        kw.pop("m")
    return C(**kw)


def fields_of(x):
    C = type(x)
    if C in dctypes.FIELDS:
        return dctypes.FIELDS[C], dctypes.STATIC.get(C, ())
    if C in SPEC:
        return tuple(SPEC[C]), ()
    return None, None


def describe(x, path=()):
    """[(path, leaf object)] in declared order, and a hashable skeleton with the static values."""
    fs, st = fields_of(x)
    if fs is not None:
        lv, sk = [], []
        for f in fs:
            v = getattr(x, f)
            if f in st:
                sk.append((f, "static", v))
            else:
                l, s = describe(v, path + ("." + f,))
                lv += l
                sk.append((f, s))
        return lv, (type(x), tuple(sk))
    if isinstance(x, dict):
        lv, sk = [], []
        for k in sorted(x):
            l, s = describe(x[k], path + (f"['{k}']",))
            lv += l
            sk.append((k, s))
        return lv, (dict, tuple(sk))
    if isinstance(x, (list, tuple)):
        lv, sk = [], []
        for i, v in enumerate(x):
            l, s = describe(v, path + (f"[{i}]",))
            lv += l
            sk.append(s)
        return lv, (type(x), tuple(sk))
    if x is None:
        return [], None
    return [("".join(path), x)], "leaf"


def snap(x):
    lv, sk = describe(x)
    return sk, tuple((p, str(np.asarray(v).dtype), np.asarray(v).shape, np.asarray(v).tobytes()) for p, v in lv)


def same(ctx, x, y, key, what, ident=False, host_ok=True, **det):
    lx, sx = describe(x)
    ly, sy = describe(y)
    ctx.require(sx == sy, key + ":structure", f"{what}: structure or static values changed", expected=str(sx)[:500], got=str(sy)[:500], **det)
    ctx.require([p for p, _ in lx] == [p for p, _ in ly], key + ":paths", f"{what}: leaves {[p for p, _ in ly]}, expected {[p for p, _ in lx]}", **det)
    for (p, a), (_, b) in zip(lx, ly):
        if ident:
            ctx.require(a is b, key + ":identity", f"{what}: leaf {p} is not the stored object", **det)
            continue
        u, v = np.asarray(a), np.asarray(b)
        ctx.require(u.dtype == v.dtype and u.shape == v.shape and u.tobytes() == v.tobytes(), key + ":value", f"{what}: leaf {p} changed: {u.dtype}{u.shape} {v.dtype}{v.shape}", a=u, b=v, **det)
    ctx.ev("leaves_compared", len(lx))


def touch(rng, x):
    """read cached facts of every record inside x."""
    lv = [x]
    while lv:
        v = lv.pop()
        fs, st = fields_of(v)
        if fs is not None:
            if type(v) in SPEC and rng.random() < 0.7:
                v.shape, v.dtype, v.structured_type
            lv += [getattr(v, f) for f in fs if f not in st]
        elif isinstance(v, dict):
            lv += list(v.values())
        elif isinstance(v, (list, tuple)):
            lv += list(v)


def shallow(x):
    return {k: id(v) for k, v in vars(x).items() if not k.endswith("_cache")}


def round_trips(ctx, x, rng, jit=False, **det):
    C = type(x)
    fs, st = fields_of(x)
    touch(rng, x)
    before, ids = snap(x), shallow(x)
    lv, sk = describe(x)
    # flatten
    leaves, td = tu.tree_flatten(x)
    ctx.require(len(leaves) == len(lv) and all(a is b for a, (_, b) in zip(leaves, lv)), "flatten", f"flattening gives {len(leaves)} leaves, expected {[p for p, _ in lv]} in this order", **det)
    pl = tu.tree_flatten_with_path(x)[0]
    ctx.require([tu.keystr(p) for p, _ in pl] == [p for p, _ in lv] and all(a is b for (_, a), (_, b) in zip(pl, lv)), "flatten_path", f"paths {[tu.keystr(p) for p, _ in pl]}, expected {[p for p, _ in lv]}", **det)
    ctx.require(td == tu.tree_structure(x) and hash(td) == hash(tu.tree_structure(x)), "treedef", "two structures of one instance differ", **det)
    same(ctx, x, tu.tree_unflatten(td, leaves), "unflatten", "flatten/unflatten", ident=True, **det)
    marks = [object() for _ in leaves]
    mk = tu.tree_unflatten(td, marks)
    ctx.require(type(mk) is C and all(a is b for a, b in zip(tu.tree_leaves(mk), marks)), "unflatten:any", "unflattening arbitrary leaves does not give them back", **det)
    same(ctx, x, tu.tree_map(lambda a: a, x), "tree_map", "identity tree_map", ident=True, **det)
    y = tu.tree_map(lambda a: np.asarray(a)[None], x)
    same(ctx, x, tu.tree_map(lambda a: a[0], y), "tree_map", "tree_map there and back", **det)
    # copies
    same(ctx, x, copy.copy(x), "copy", "copy.copy", ident=True, **det)
    same(ctx, x, copy.deepcopy(x), "deepcopy", "copy.deepcopy", **det)
    for proto in (2, pickle.HIGHEST_PROTOCOL):
        same(ctx, x, pickle.loads(pickle.dumps(x, protocol=proto)), "pickle", f"pickle protocol {proto}", **det)
    # conversions
    t = x.to_tuple()
    ctx.require(type(t) is tuple and len(t) == len(fs) and all(v is getattr(x, f) for v, f in zip(t, fs)), "to_tuple", f"to_tuple gives {len(t)} entries for fields {fs}", **det)
    same(ctx, x, C.from_tuple(t), "from_tuple", "to_tuple/from_tuple", ident=True, **det)
    same(ctx, x, C(**{f.name: getattr(x, f.name) for f in dataclasses.fields(x)}), "dict", "fields to dictionary and back", ident=True, **det)
    d = dataclasses.asdict(x)
    ctx.require(list(d) == list(fs), "asdict", f"asdict has keys {list(d)}", **det)
    for f in fs:
        if fields_of(getattr(x, f))[0] is None and isinstance(getattr(x, f), (jax.Array, np.ndarray)):
            ctx.require(np.asarray(d[f]).tobytes() == np.asarray(getattr(x, f)).tobytes() and np.asarray(d[f]).dtype == getattr(x, f).dtype, "asdict", f"asdict changed field {f}", **det)
    # replace
    same(ctx, x, x.replace(), "replace", "replace()", ident=True, **det)
    if fs:
        f = fs[int(rng.integers(0, len(fs)))]
        new = gen_static(rng) if f in st else gen_array(rng)
        z = x.replace(**{f: new})
        ctx.require(type(z) is C and getattr(z, f) is new and all(getattr(z, g) is getattr(x, g) for g in fs if g != f), "replace:fields", f"replacing {f} changed something else", **det)
        e = describe(z)[0]
        got = tu.tree_leaves(z)
        ctx.require(len(got) == len(e) and all(a is b for a, (_, b) in zip(got, e)), "replace:leaves", f"after replacing {f} the leaves are not the fields", **det)
        if f in st and new != getattr(x, f):
            ctx.require(tu.tree_structure(z) != td, "static:structure", f"static field {f} changed from {getattr(x, f)!r} to {new!r} but the structure is equal", **det)
            ctx.ev("static_changed")
        try:
            x.replace(no_such_field=1)
        except TypeError:
            pass
        else:
            ctx.fail("replace:unknown", "replacing an unknown field was accepted", **det)
    if jit:
        same(ctx, x, jax.jit(lambda v: v)(x), "jit", "identity under jit", **det)
        seen = []

        def f(v):
            seen.append(describe(v)[1])
            return tu.tree_leaves(v)
        out = jax.jit(f)(x)
        ctx.require(seen[0] == sk, "jit:static", "static values are not available while traced", got=str(seen)[:300], **det)
        ctx.require(len(out) == len(lv), "jit:leaves", f"{len(out)} leaves while traced", **det)
        ctx.ev("compiled")
    ctx.require(snap(x) == before and shallow(x) == ids, "mutates", "an operation changed its argument", **det)
    touch(rng, x)
    ctx.require([id(v) for v in tu.tree_leaves(x)] == [id(v) for v in leaves], "cache_leaf", "reading cached facts changed the leaves", **det)


def plain(ctx, count):
    rng = ctx.rng
    for it in range(count):
        C = dctypes.ALL[it % len(dctypes.ALL)]
        x = gen_inst(rng, 2, C)
        round_trips(ctx, x, rng, jit=it % 4 == 0, type=C.__name__)
        if C in dctypes.FROZEN:
            try:
                setattr(x, dctypes.FIELDS[C][0], 1)
            except dataclasses.FrozenInstanceError:
                ctx.ev("frozen_refused")
            else:
                ctx.fail("frozen", f"{C.__name__} accepted an assignment")
        ctx.case("plain", C.__name__, str(describe(x)[1])[:400], it)
        ctx.ev("plain_instances")
    ctx.sample(dict(type=C.__name__, structure=str(describe(x)[1])[:300]))


def records(ctx, types, count):
    rng = ctx.rng
    for n in types:
        C = BY[n]
        for it in range(count):
            x = rt.build(C, rt.records(C, rng, [(), (3,), (2, 3), (0,)][it % 4]), host=it == 2)
            round_trips(ctx, x, rng, jit=it == 0, type=n)
            ctx.case("record", n, it)
            ctx.ev("record_instances")


def caches(ctx, count):
    """facts read before a change never show up after it."""
    rng = ctx.rng
    for it in range(count):
        C = [BY["Nest"], BY["Mat"], BY["Deep"], BY["NestArr"], BY["Pair"]][it % 5]
        x = rt.build(C, rt.records(C, rng, (2, 3)))
        touch(rng, x)
        x.shape, x.dtype, x.structured_type
        name = list(SPEC[C])[int(rng.integers(0, len(SPEC[C])))]
        new = tu.tree_map(lambda a: jnp.asarray(np.asarray(a)[:1]).astype(jnp.float32), getattr(x, name))
        derived = {"replace": x.replace(**{name: new}), "map": tu.tree_map(lambda a: jnp.asarray(a)[0].astype(jnp.float32), x), "vmapped": jax.vmap(lambda t: t)(x), "unflatten": tu.tree_unflatten(tu.tree_structure(x), [jnp.asarray(a)[None] for a in tu.tree_leaves(x)]),
                   "from_tuple": C.from_tuple(tuple(new if f == name else getattr(x, f) for f in SPEC[C]))}
        for how, y in derived.items():
            fresh = C(**{f: getattr(y, f) for f in SPEC[C]}) if how != "x" else x
            clean = pickle.loads(pickle.dumps(fresh))
            ctx.require(str(y.shape) == str(clean.shape) and str(y.dtype) == str(clean.dtype) and y.structured_type == clean.structured_type, "stale", f"{C.__name__}: facts read after {how} are {y.shape} {y.dtype}; a fresh instance of the same fields has {clean.shape} {clean.dtype}", field=name)
            e = {"map": (3,), "vmapped": (2, 3), "unflatten": (1, 2, 3)}.get(how)
            if e:
                ctx.require(y.batch_shape == e, "stale", f"{C.__name__}: batch {y.batch_shape} after {how}")
            if how in ("replace", "from_tuple") and len(SPEC[C]) > 1:
                ctx.require(y.batch_shape == -1, "stale", f"{C.__name__}: batch {y.batch_shape} after {how} of {name} by a shorter one")
                g = getattr(y.dtype, name)
                ctx.require(all(np.dtype(d) == np.float32 for d in tu.tree_leaves(tuple(g) if isinstance(g, tuple) else g)), "stale", f"{C.__name__}: dtype {g} after {how} of {name} by float32 values")
        ctx.ev("derived", len(derived))
        ctx.case("cache", C.__name__, name, it)


def static_jit(ctx, count):
    """static fields choose the compiled program and are Python values inside; leaves are traced."""
    rng = ctx.rng
    traces = []

    def body(t):
        traces.append((type(t.n), t.n, t.name))
        assert not isinstance(t.n, jax.core.Tracer) and not isinstance(t.name, jax.core.Tracer)
        return t.replace(x=t.x * t.n, n=t.n + 1), jnp.zeros((t.n,))
    f = jax.jit(body)
    want = []
    for it in range(count):
        n, name = int(rng.integers(0, 4)), "uvw"[int(rng.integers(0, 3))]
        v = rng.integers(0, 100, size=3).astype(np.int32)
        t = dctypes.B2(x=jnp.asarray(v), n=n, b=jnp.asarray(1.5), name=name, a={"k": jnp.arange(2)})
        out, z = f(t)
        if (n, name) not in want:
            want.append((n, name))
        ctx.require(len(traces) == len(want), "static:retrace", f"{len(traces)} traces for {len(want)} distinct static values", traces=traces)
        ctx.require(type(out) is dctypes.B2 and out.n == n + 1 and out.name == name and np.array_equal(out.x, v * n) and z.shape == (n,), "static:value", f"static n={n} name={name}: got n={out.n} name={out.name}", x=out.x)
        ctx.require(t.n == n and np.array_equal(t.x, v), "static:mutates", "the argument changed")
        ctx.ev("static_calls")
        ctx.case("static", n, name, v)
    for bad in (jnp.arange(3), [1, 2], {"a": 1}, np.zeros(2)):
        t = dctypes.B2(x=jnp.zeros(2), n=bad, b=0.0, name="q", a=None)
        try:
            tu.tree_flatten(t)
        except TypeError:
            ctx.ev("unhashable_refused")
        else:
            ctx.fail("static:unhashable", f"an unhashable static value {type(bad)} was accepted")
    # loops and transformations carry instances
    t = dctypes.B7(inner=rt.build(BY["Mat"], rt.records(BY["Mat"], rng, (3,))), size=4, extra=jnp.zeros(()))
    for w, r in (("scan", lambda: jax.lax.scan(lambda c, i: (c.replace(extra=c.extra + c.size), i), t, jnp.arange(3))[0]), ("fori", lambda: jax.lax.fori_loop(0, 3, lambda i, c: c.replace(extra=c.extra + c.size), t)),
                 ("cond", lambda: jax.lax.cond(True, lambda c: c.replace(extra=c.extra + 3 * c.size), lambda c: c, t)), ("while", lambda: jax.lax.while_loop(lambda c: c.extra < 12, lambda c: c.replace(extra=c.extra + c.size), t))):
        y = r()
        ctx.require(type(y) is dctypes.B7 and y.size == 4 and float(y.extra) == 12.0, "loops:" + w, f"{w}: size {y.size} extra {y.extra}")
        same(ctx, t.inner, y.inner, "loops:" + w, "the untouched part of the carry")
        ctx.ev("loops")


def processes(ctx, count):
    """pickles opened in a process that never imported the types; types of __main__."""
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="xv22_")
    try:
        objs = [gen_inst(rng, 2, dctypes.ALL[i % len(dctypes.ALL)]) for i in range(count)]
        objs += [rt.build(BY[n], rt.records(BY[n], rng, (2,))) for n in ("Nest", "PkN", "F8")]
        for o in objs:
            touch(rng, o)
        with open(d + "/a", "wb") as f:
            pickle.dump(objs, f)
        p = subprocess.run([sys.executable, os.path.join(HERE, "picklechild.py"), os.environ.get("XV_REPO", "/repo"), d + "/a", d + "/b", "main"], capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(HERE), os.environ.get("XV_REPO", "/repo")])))
        ctx.require("CHILD-OK" in p.stdout, "process", "a fresh process could not use the pickled instances", out=p.stdout[-500:], err=p.stderr[-1500:])
        with open(d + "/b", "rb") as f:
            back = pickle.load(f)
        for o, r in zip(objs, back):
            lv = describe(o)[0]
            ctx.require(r["paths"] == [p for p, _ in lv], "process:paths", f"paths in the other process {r['paths']}", type=type(o).__name__)
            same(ctx, o, r["again"], "process", "instance sent through another process", type=type(o).__name__)
            same(ctx, o, r["traced"], "process", "instance compiled in another process", type=type(o).__name__)
            ctx.ev("crossed_processes")
            ctx.case("process", type(o).__name__, str(describe(o)[1])[:300])
    finally:
        shutil.rmtree(d)


def containers(ctx, count):
    """tables, heaps, queues and stacks: copies hold the same state, keep working, and are independent."""
    rng = ctx.rng
    C = BY["Pair"]
    for it in range(count):
        rec = lambda n: rt.build(C, rt.unique_records(C, rng, n))
        items = rec(12)
        T = HashTable.build(C, 5, 40).parallel_insert(items)[0]
        K = jnp.asarray(rng.integers(0, 50, size=8).astype(np.float32))
        H = BGPQ.build(32, 4, C, key_dtype=jnp.float32)
        for i in range(2):
            H = H.insert(K[4 * i:4 * i + 4], items[4 * i:4 * i + 4])
        Q = Queue.build(16, C).enqueue(items[:5])
        Sk = Stack.build(16, C).push(items[:5])
        for nm, c in (("table", T), ("heap", H), ("queue", Q), ("stack", Sk)):
            raw = rt.tree_bytes(c)
            for how, f in (("pickle", lambda v: pickle.loads(pickle.dumps(v))), ("copy", copy.copy), ("deepcopy", copy.deepcopy), ("tree", lambda v: tu.tree_map(lambda a: a, v)), ("tuple", lambda v: type(v).from_tuple(v.to_tuple())), ("replace", lambda v: v.replace())):
                y = f(c)
                ctx.require(type(y) is type(c) and rt.tree_bytes(y) == raw, f"container:{how}", f"{how} of a {nm} changed its contents")
                if nm == "table":
                    idx, found = y.lookup_parallel(items)
                    ctx.require(bool(np.all(found)), f"container:{how}", f"items missing after {how} of a table")
                    if it == 0:
                        z = y.parallel_insert(rec(3))[0]
                        ctx.require(int(z.size) >= int(c.size), f"container:{how}", "insert into a copied table")
                elif nm == "heap":
                    z, k, v = y.delete_mins()
                    ctx.require(np.asarray(k).tolist() == sorted(K.tolist())[:4], f"container:{how}", f"delete_mins after {how}: {k}")
                elif nm == "queue":
                    z, v = y.dequeue(2)
                    ctx.require(rt.inst_keys(C, v) == rt.inst_keys(C, items)[:2], f"container:{how}", f"dequeue after {how}")
                else:
                    z, v = y.pop(2)
                    ctx.require(rt.inst_keys(C, v) == rt.inst_keys(C, items)[3:5], f"container:{how}", f"pop after {how}")
                ctx.require(rt.tree_bytes(c) == raw, f"container:{how}", f"using the {how} of a {nm} changed the original")
                ctx.ev("containers")
        ctx.case("containers", it, K)
