"""C14: save / load round trips, from many path forms, across processes and under faults."""
import json
import os
import pathlib
import resource
import shutil
import subprocess
import sys
import tempfile
import zipfile

import jax
import jax.numpy as jnp
import numpy as np

import xtructure.io as xio
from xv import rt, rtypes
from xv.rtypes import BY

NAMES = ["a.npz", "plain", "dotted.name.v2", "with space.npz", "\u00fc\u00f1\u00ed.npz", "other.dat", "x.npz.bak", ".hidden", "UPPER.NPZ", "sub/dir/f.npz", "new/deep/er/f", "a.b/c"]


class Scratch:
    def __enter__(self):
        base = os.environ.get("XV_WORKDIR") or None
        self.d = tempfile.mkdtemp(prefix="io", dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def batch_of(rng, few=False):
    k = int(rng.integers(0, 8))
    if few:  # every new shape costs a compilation
        return [(), (5,), (13,), (2, 3), (1,), (0,), (2, 0), (3, 1, 2)][k]
    return [(), (int(rng.integers(1, 40)),), (int(rng.integers(1, 9)), int(rng.integers(1, 5))), (1,), (2, 1, 3), (0,), (int(rng.integers(1, 4)), 0), (int(rng.integers(200, 900)),)][k]


def check_loaded(ctx, C, got, arr, what, key, **det):
    rt.check_inst(ctx, C, got, arr, what, key, **det)
    for lf in rt.leaves(C):
        v = got
        for p in lf.path:
            v = getattr(v, p)
        ctx.require(isinstance(v, jax.Array), key + ":array", f"{what}: field {'.'.join(lf.path)} is a {type(v).__name__}, not a JAX array", **det)


def roundtrip(ctx, cls, count):
    C, rng = BY[cls], ctx.rng
    few = any(lf.field.bits is not None for lf in rt.leaves(C))
    with Scratch() as d:
        held = {}  # file path actually used -> (type, arrays)
        for it in range(count):
            b = batch_of(rng, few=few)
            arr = rt.records(C, rng, b)
            packed = bool(rng.integers(0, 2))
            name = NAMES[int(rng.integers(0, len(NAMES)))]
            p = os.path.join(d, name)
            form = int(rng.integers(0, 4))
            arg = pathlib.Path(p) if form == 1 else (os.path.relpath(p) if form == 2 else p)
            inst = rt.build(C, arr, host=bool(rng.integers(0, 4) == 0))
            before = rt.tree_bytes(inst)
            how = int(rng.integers(0, 3))
            det = dict(batch=b, packed=packed, path=name, form=form)
            if how == 0:
                inst.save(arg, packed=packed)
            elif how == 1:
                xio.save(arg, inst, packed=packed)
            else:
                inst.save(arg) if packed else inst.save(arg, packed=False)
            ctx.require(rt.tree_bytes(inst) == before, "save:mutates", f"saving a {cls} changed the instance", **det)
            held[name] = arr
            # a file saved earlier under another name must be untouched
            for q in {name, list(held)[int(rng.integers(0, len(held)))]}:
                if any(o != q and (o + ".npz" == q or q + ".npz" == o) for o in held):
                    continue
                qa = os.path.join(d, q)
                got = C.load(pathlib.Path(qa) if form == 1 else qa) if rng.integers(0, 2) else xio.load(qa)
                check_loaded(ctx, C, got, held[q], f"loading {q!r} written from a {cls} of batch {b}", "roundtrip", **det)
                ctx.ev("loads")
            # saving what was loaded gives the same again
            if it % 4 == 0:
                p2 = os.path.join(d, "again.npz")
                C.load(arg).save(p2, packed=not packed)
                check_loaded(ctx, C, C.load(p2), arr, f"second generation of a {cls}", "regenerate", **det)
                ctx.ev("second_generation")
            ctx.case(cls, b, packed, name, form, how, arr[rt.leaves(C)[0].path], nontrivial=int(np.prod(b)) > 0)
            ctx.ev("packed_saves" if packed else "plain_saves")
            if b == ():
                ctx.ev("single_records")
    ctx.sample(dict(type=cls, batch=b, packed=packed, path=name))


def packedtypes(ctx, names, count):
    """instances of the generated packed companion types are record arrays too."""
    rng = ctx.rng
    with Scratch() as d:
        for it in range(count):
            C = BY[names[it % len(names)]]
            b = [(), (5,), (2, 3)][it % 3]
            arr = rt.records(C, rng, b)
            pk = rt.build(C, arr).packed
            p = os.path.join(d, f"p{it % 3}")
            pk.save(p, packed=bool(it & 1))
            got = type(pk).load(p)
            rt.same_tree(ctx, got, pk, f"packed form of {C.__name__} saved and loaded", "packedtype", batch=b)
            ctx.require(type(got) is type(pk), "packedtype:type", f"loaded a {type(got).__qualname__}, saved a {type(pk).__qualname__}")
            rt.check_inst(ctx, C, got.as_original() if hasattr(got, "as_original") else got.unpack(), arr, f"unpacking the loaded packed form of {C.__name__}", "packedtype:values", batch=b)
            ctx.case(C.__name__, b, arr[rt.leaves(C)[0].path])
            ctx.ev("packed_companions")


def slices(ctx, cls, count):
    """save what operations produced (views, concatenations, updates), not only fresh instances."""
    import xtructure.numpy as xnp

    C, rng = BY[cls], ctx.rng
    with Scratch() as d:
        for it in range(count):
            n = int(rng.integers(3, 20)) if not any(lf.field.bits is not None for lf in rt.leaves(C)) else 4
            arr = rt.records(C, rng, n)
            x = rt.build(C, arr)
            idx = rng.integers(0, n, size=int(rng.integers(1, 9)))
            k = it % 4
            if k == 0:
                y, e = x[jnp.asarray(idx)], rt.take(arr, idx)
            elif k == 1:
                y, e = x[::-2], rt.take(arr, slice(None, None, -2))
            elif k == 2:
                y, e = xnp.concat([x, x[:2]]), rt.cat([arr, rt.take(arr, slice(0, 2))])
            else:
                y, e = x.reshape((1, n)), {p: v[None] for p, v in arr.items()}
            p = os.path.join(d, "s.npz")
            y.save(p, packed=bool(rng.integers(0, 2)))
            check_loaded(ctx, C, C.load(p), e, f"{cls} made by operation {k}", "derived", n=n)
            ctx.case(cls, k, n, idx)
            ctx.ev("derived_saves")


def wrongtype(ctx, names, count):
    rng = ctx.rng
    with Scratch() as d:
        files = {}
        for nme in names:
            C = BY[nme]
            arr = rt.records(C, rng, 4)
            p = os.path.join(d, nme)
            rt.build(C, arr).save(p)
            files[nme] = (p, arr)
        for a in names:
            for b in names:
                p, arr = files[a]
                try:
                    got = BY[b].load(p)
                except TypeError:
                    ctx.require(a != b, "expected:refused", f"{b}.load refused a file holding a {a}")
                    ctx.ev("wrong_type_refused")
                else:
                    ctx.require(a == b, "expected:accepted", f"{b}.load of a file holding a {a} gave a {type(got).__name__} instead of failing", got=repr(type(got)))
                    rt.check_inst(ctx, BY[b], got, arr, f"{b}.load", "expected")
                ctx.case(a, b, nontrivial=a != b)
        # things that are no record arrays are refused and leave no file
        for j, bad in enumerate([{"a": jnp.zeros(2)}, jnp.arange(3), 3, None, [BY[names[0]].default((2,))], np.zeros(2)]):
            p = os.path.join(d, f"bad{j}.npz")
            try:
                xio.save(p, bad)
            except TypeError:
                pass
            else:
                ctx.fail("save:notrecord", f"saving a {type(bad).__name__} did not raise")
            ctx.require(not os.path.exists(p), "save:notrecord:file", "a refused save left a file behind")
            ctx.case("bad", j)
            ctx.ev("non_records_refused")


def _attempt(C, p):
    try:
        return ("ok", C.load(p))
    except Exception as e:
        return ("raised", e)


def damage(ctx, cls, count):
    """truncations, byte damage, missing members: the load must raise or give exactly the saved contents."""
    C, rng = BY[cls], ctx.rng
    with Scratch() as d:
        arr = rt.records(C, rng, (7,))
        p, q = os.path.join(d, "f.npz"), os.path.join(d, "g.npz")
        for packed in (True, False):
            rt.build(C, arr).save(p, packed=packed)
            raw = open(p, "rb").read()
            members = {}
            with zipfile.ZipFile(p) as z:
                for n in z.namelist():
                    members[n] = z.read(n)
            for it in range(count):
                kind = int(rng.integers(0, 4))
                if kind == 0:
                    cut = int(rng.integers(0, len(raw)))
                    data, what = raw[:cut], f"file truncated at byte {cut} of {len(raw)}"
                elif kind == 1:
                    i = int(rng.integers(0, len(raw)))
                    data = bytearray(raw)
                    data[i] ^= 1 << int(rng.integers(0, 8))
                    data, what = bytes(data), f"one bit of byte {i} flipped"
                else:
                    drop = sorted(members)[int(rng.integers(0, len(members)))] if kind == 2 else None
                    keep = [n for n in members if n != drop]
                    if kind == 3:
                        keep = keep[:int(rng.integers(0, len(keep)))]
                    with zipfile.ZipFile(q, "w") as z:
                        for n in keep:
                            z.writestr(n, members[n])
                    data, what = open(q, "rb").read(), (f"archive without {drop!r}" if kind == 2 else f"archive holding only its first {len(keep)} members")
                with open(q, "wb") as f:
                    f.write(data)
                st, got = _attempt(C, q)
                if st == "ok":
                    # undetectable or harmless damage (timestamps, attributes, redundant members)
                    rt.check_inst(ctx, C, got, arr, f"load of a {cls} from a damaged file ({what})", "damaged", packed=packed)
                    ctx.ev("damage_harmless")
                else:
                    ctx.ev("damage_refused")
                ctx.case(cls, packed, kind, what)
        for n in ("__xtructure_class_module__.npy", "__xtructure_class_name__.npy"):
            with zipfile.ZipFile(q, "w") as z:
                for m, v in members.items():
                    if m != n:
                        z.writestr(m, v)
            st, got = _attempt(C, q)
            ctx.require(st == "raised", "nometa", f"a file without {n} was loaded")
            ctx.case("nometa", n)
        for mod, name in (("xv.no_such_module", cls), (C.__module__, "NoSuchClass")):
            with zipfile.ZipFile(q, "w"):
                pass
            data = {k: v for k, v in np.load(p).items()}
            data["__xtructure_class_module__"], data["__xtructure_class_name__"] = np.array(mod), np.array(name)
            np.savez(q, **data)
            st, got = _attempt(C, q)
            ctx.require(st == "raised", "noclass", f"a file naming the unknown class {mod}.{name} was loaded as {got!r}"[:300])
            ctx.case("noclass", mod, name)
        for miss in ("nothing.npz", "nothing", "no/such/dir/f.npz"):
            st, got = _attempt(C, os.path.join(d, miss))
            ctx.require(st == "raised", "missing", f"loading the missing file {miss} gave {got!r}"[:300])
            ctx.ev("missing_files_refused")


def failedsave(ctx, cls, count):
    """the disk fills up during a save (file size limit): the save raises, and what is there afterwards is the
    old or the new contents, or is refused; a retry succeeds."""
    C, rng = BY[cls], ctx.rng
    import signal

    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    few = any(lf.field.bits is not None for lf in rt.leaves(C))
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    with Scratch() as d:
        p = os.path.join(d, "f.npz")
        for it in range(count):
            b = (23,) if few else (int(rng.integers(1, 60)),)
            old, new = rt.records(C, rng, b), rt.records(C, rng, b)
            packed = bool(rng.integers(0, 2))
            had = bool(it & 1)
            if os.path.exists(p):
                os.unlink(p)
            x = rt.build(C, new)
            x.save(p, packed=packed)
            size = os.path.getsize(p)
            os.unlink(p)
            if had:
                rt.build(C, old).save(p, packed=packed)
            limit = int(rng.integers(0, size + 8))
            raised = None
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                x.save(p, packed=packed)
            except BaseException as e:
                raised = e
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            det = dict(limit=limit, size=size, had=had)
            st, got = _attempt(C, p)
            if raised is None:
                ctx.require(st == "ok", "fault:silent", f"save reported success but load raises {got!r}"[:300], **det)
                rt.check_inst(ctx, C, got, new, "after a save that reported success", "fault:silent", **det)
                ctx.ev("saves_that_fitted")
            else:
                ctx.ev("failed_saves")
                if st == "ok":
                    same_new = rt.tree_bytes(got) == rt.tree_bytes(x)
                    same_old = had and rt.tree_bytes(got) == rt.tree_bytes(rt.build(C, old))
                    ctx.require(same_new or same_old, "fault:wrong", f"after a save that failed at byte {limit} of {size} the file loads as something that was never saved", got=rt.arrays_of(C, got), **det)
            x.save(p, packed=packed)
            rt.check_inst(ctx, C, C.load(p), new, "after retrying the save", "fault:retry", **det)
            ctx.case(cls, b, limit, had, packed)
        # parent is a file: nothing can be written, and the file stays as it was
        f = os.path.join(d, "plainfile")
        open(f, "wb").write(b"keep")
        try:
            x.save(os.path.join(f, "x.npz"))
        except OSError:
            pass
        else:
            ctx.fail("fault:parent", "saving below a regular file did not raise")
        ctx.require(open(f, "rb").read() == b"keep", "fault:parent", "a failed save damaged another file")


def process(ctx, names, n):
    """files written here, read by another process (and the other way round)."""
    rng = ctx.rng
    with Scratch() as d:
        want = {}
        for i, nme in enumerate(names):
            C = BY[nme]
            arr = rt.records(C, rng, (n,) if i % 2 else (2, n))
            x = rt.build(C, arr)
            x.save(os.path.join(d, nme), packed=bool(i & 1))
            want[nme] = {".".join(k): [list(v.shape), str(v.dtype), v.tobytes().hex()] for k, v in arr.items()}
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))))
        env.pop("XV_FD", None)
        r = subprocess.run([sys.executable, "-m", "xv.iochild", json.dumps(dict(repo=os.environ["XV_REPO"], dir=d, names=names))], env=env, capture_output=True, text=True, timeout=400)
        line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
        ctx.require(line, "process:failed", "the reading process failed: " + r.stderr[-1500:])
        got = json.loads(line[0][7:])
        for nme in names:
            g = got[nme]
            ctx.require(g["type"] == [BY[nme].__module__, nme], "process:type", f"another process loaded {nme} as {g['type']}")
            ctx.require(g["arrays"] == want[nme], "process:value", f"another process read other contents from a saved {nme}", got=g["arrays"], expected=want[nme])
            back = BY[nme].load(os.path.join(d, nme + ".back"))
            here = BY[nme].load(os.path.join(d, nme))
            rt.same_tree(ctx, back, here, f"{nme} written back by another process", "process:back")
            ctx.case(nme, n)
            ctx.ev("cross_process")


def scale(ctx, cls, batches):
    """batches beyond every small-integer range."""
    C, rng = BY[cls], ctx.rng
    with Scratch() as d:
        for b in batches:
            b = tuple(b)
            arr = rt.records(C, rng, b, "uniform")
            for packed in (True, False):
                p = os.path.join(d, f"s{len(b)}{packed}")
                rt.build(C, arr).save(p, packed=packed)
                check_loaded(ctx, C, C.load(p), arr, f"{cls} of batch {b}", "scale", batch=b, packed=packed)
                ctx.tick()
            ctx.case(cls, b, arr[rt.leaves(C)[0].path])
            ctx.ev("large_batches")
    ctx.sample(dict(type=cls, batches=batches))
