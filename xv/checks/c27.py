"""C27: the text of an instance shows the records that are there."""
import os
import re

import jax
import jax.numpy as jnp
import numpy as np

from xv import rt
from xv.rt import F, SPEC
from xv.rtypes import ALL, BY

ANSI = re.compile(r"\x1b\[[0-9;]*m")
LOG = []
_n = [0]


def digits(v):
    s = ""
    v = int(v)
    while True:
        s = "0123456789abcdefghijklmnopqrstuvwxyz"[v % 36] + s
        v //= 36
        if v == 0:
            return s


def monitored(rng, nested=None):
    """A record type whose own formatter logs the instances and options it is given."""
    fields = {}
    names = ["a", "b", "c"][:int(rng.integers(0, 4))]
    where = int(rng.integers(0, len(names) + 1))
    for i, k in enumerate(names[:where] + ["id"] + names[where:]):
        if k == "id":
            fields[k] = F(np.uint32)
        elif nested is not None and rng.random() < 0.4:
            fields[k] = F(nested=nested, shape=() if rng.random() < 0.6 else (2,))
        else:
            dt = [np.uint8, np.float32, np.int16, np.bool_, np.float16][int(rng.integers(0, 5))]
            fields[k] = F(dt, tuple(int(d) for d in rng.integers(0, 4, size=int(rng.integers(0, 3)))))
    _n[0] += 1
    name = f"R{_n[0]}"

    def fmt(self, **kw):
        LOG.append((self, dict(kw)))
        return f"<{kw.get('mark', '')}{digits(np.asarray(self.id))}>"

    C = type(name, (), {"__module__": __name__, "__qualname__": name, "__annotations__": {k: f.annotation(rng) for k, f in fields.items()}, "__str__": fmt})
    from xtructure import xtructure_dataclass
    C = xtructure_dataclass(C)
    SPEC[C] = fields
    return C


def make(C, rng, batch):
    n = int(np.prod(batch, dtype=np.int64))
    arr = rt.records(C, rng, batch, "uniform")
    base = int(rng.integers(0, 36 ** 3 - n)) if n < 36 ** 3 else 0
    arr[("id",)] = (base + rng.permutation(n).astype(np.uint32)).astype(np.uint32).reshape(batch)
    return arr


def axis_ok(n, shown):
    """shown is everything, or a first part and a last part of range(n)."""
    if not shown or shown != sorted(set(shown)):
        return False
    if n <= 4:
        return shown == list(range(n))
    if n >= 64 and len(shown) > 24:
        return False
    if shown == list(range(n)):
        return True
    return shown[0] == 0 and shown[-1] == n - 1 and sum(b != a + 1 for a, b in zip(shown, shown[1:])) == 1


def batched_text(ctx, C, arr, x, batch, text, log, mark, **det):
    det = dict(det, batch=batch)
    n = int(np.prod(batch, dtype=np.int64))
    ids = arr[("id",)].reshape(-1)
    lines = [ANSI.sub("", l) for l in text.split("\n")]
    plain = "\n".join(lines)
    at = {f"<{mark}{digits(v)}>": i for i, v in enumerate(ids)}
    found = re.findall(r"<[^<>\n]*>", plain)
    ctx.require(all(t in at for t in found), "tokens", f"the text shows {[t for t in found if t not in at][:3]}, which no record renders as", text=plain, **det)
    shown = [at[t] for t in found]
    ctx.ev("records_shown", len(shown))
    dots = plain.count("...")
    if n == 0:
        ctx.require(not shown and not log, "empty", "an empty batch shows records", text=plain, **det)
        ctx.ev("empty_batches")
    elif len(batch) == 2:
        r, c = batch
        rows = sorted({i // c for i in shown})
        cols = sorted({i % c for i in shown})
        ctx.require(shown == [i * c + j for i in rows for j in cols], "order", "the grid is not the rows and columns of the batch in order", shown=shown, text=plain, **det)
        ctx.require(axis_ok(r, rows) and axis_ok(c, cols), "selection", f"rows {rows} and columns {cols} of a batch {batch} are shown", text=plain, **det)
        hidden = len(shown) < n
        got_lines = [[at[t] for t in re.findall(r"<[^<>\n]*>", l)] for l in lines]
        got_lines = [l for l in got_lines if l]
        ctx.require(got_lines == [[i * c + j for j in cols] for i in rows], "grid", "one line of text is not one row of the batch", text=plain, **det)
        if len(cols) < c:
            k = next(i for i, (a, b) in enumerate(zip(cols, cols[1:])) if b != a + 1)
            for l in (l for l in lines if re.search(r"<[^<>\n]*>", l)):
                parts = re.findall(r"<[^<>\n]*>|\.\.\.", l)
                ctx.require(parts[k + 1] == "..." and parts.count("...") == 1, "ellipsis", "left-out columns are not marked at their place", text=plain, **det)
        if len(rows) < r:
            k = next(i for i, (a, b) in enumerate(zip(rows, rows[1:])) if b != a + 1)
            body = [l for l in lines if re.search(r"<[^<>\n]*>", l) or "..." in l]
            ctx.require("..." in body[k + 1] and not re.search(r"<[^<>\n]*>", body[k + 1]), "ellipsis", "left-out rows are not marked at their place", text=plain, **det)
        ctx.ev("grids")
    else:
        ctx.require(shown == sorted(shown), "order", "records are not shown in row-major order", shown=shown, text=plain, **det)
        ctx.require(axis_ok(n, shown), "selection", f"records {shown} of {n} are shown", text=plain, **det)
        hidden = len(shown) < n
        if hidden:
            parts = re.findall(r"<[^<>\n]*>|\.\.\.", plain)
            k = next(i for i, (a, b) in enumerate(zip(shown, shown[1:])) if b != a + 1)
            ctx.require(parts[k + 1] == "..." and parts.count("...") == 1, "ellipsis", "left-out records are not marked at their place", text=plain, **det)
        ctx.ev("lines")
    if n and not hidden:
        ctx.require(dots == 0, "ellipsis", "everything is shown, yet something is marked as left out", text=plain, **det)
    if n and hidden:
        ctx.ev("elided")
    # header
    width = max(len(l) for l in lines)
    for what in (f"Batched {C.__name__}", f"shape: {batch}"):
        if width >= len(what) + 6:
            ctx.require(what in plain, "header", f"the text does not say {what!r}", text=plain, **det)
    ctx.require(C.__name__[:1] in plain, "header", "no class name", text=plain, **det)
    # what the type's formatter was given: exactly those records, one at a time
    want = sorted(rt.keys(C, {p: a.reshape((n,) + a.shape[len(batch):]) for p, a in arr.items()})[i] for i in shown) if n else []
    got = []
    for y, kw in log:
        ctx.require(type(y) is C and y.structured_type.name == "SINGLE", "formatter:single", f"the formatter got a {type(y).__name__} that is {y.structured_type}", **det)
        a = rt.arrays_of(C, y)
        for lf in rt.leaves(C):
            ctx.require(a[lf.path].dtype == lf.dtype, "formatter:dtype", f"field {lf.path} given to the formatter is {a[lf.path].dtype}", **det)
        got.append(rt.keys(C, a, 0)[0])
        ctx.require(kw == ({"mark": mark, "other": 3} if mark else {}), "formatter:options", f"options given to the formatter: {kw}", **det)
    ctx.require(set(got) == set(want), "formatter:records", "the formatter was not given the records that are shown", **det)
    ctx.ev("formatter_calls", len(log))


def render(ctx, C, x, arr, batch, key, **det):
    before = rt.tree_bytes(x)
    out = {}
    for mark in ("", "K"):
        LOG.clear()
        try:
            text = x.str(mark=mark, other=3) if mark else str(x)
        except Exception as e:
            ctx.fail(key + ":raises", f"rendering a batch {batch} raised {type(e).__name__}: {e}", **det)
        log = list(LOG)
        ctx.require(type(text) is str, key + ":type", f"rendering gave a {type(text).__name__}", **det)
        out[mark] = text
        if batch == ():
            exp = f"<{mark}{digits(arr[('id',)])}>"
            ctx.require(text == exp, key + ":single", f"a single record renders as {text!r}, its type's formatter says {exp!r}", **det)
            ctx.require(len(log) == 1 and log[0][1] == ({"mark": mark, "other": 3} if mark else {}), key + ":single", f"formatter calls {[k for _, k in log]}", **det)
            rt.check_inst(ctx, C, log[0][0], arr, "the record given to the formatter", key + ":single", **det)
            ctx.ev("singles")
        else:
            batched_text(ctx, C, arr, x, batch, text, log, mark, **det)
    LOG.clear()
    if int(np.prod(batch)) < 64:
        ctx.require(str(x) == out[""], key + ":repeat", "the second rendering differs from the first", **det)
    ctx.require(rt.tree_bytes(x) == before, key + ":mutates", "rendering changed the instance", **det)
    return out[""]


def shapes(ctx, count, big):
    """own formatters: which records they are given, in which order, with which options."""
    os.environ["COLUMNS"] = "240"
    rng = ctx.rng
    inner = monitored(rng)
    C = monitored(rng, inner)
    fixed = [(), (0,), (1,), (2,), (3,), (4,), (5,), (6,), (7,), (1, 1), (2, 2), (4, 4), (5, 4), (4, 5), (5, 5), (1, 6), (6, 1), (3, 7), (0, 3), (2, 0), (1, 2, 2), (1, 1, 5), (2, 2, 2), (3, 2, 2), (2, 0, 2), (1, 1, 1, 1), (2, 1, 3, 1)]
    order = rng.permutation(len(fixed))
    for j in range(count):
        if j and j % 9 == 0:
            C = monitored(rng, inner)
        r = rng.random()
        if big and r < 0.25:
            batch = [(1000,), (64, 3), (3, 70), (100, 100), (9, 8, 7), (4000,)][int(rng.integers(0, 6))]
        else:
            batch = fixed[order[j % len(fixed)]]
        arr = make(C, rng, batch)
        x = rt.build(C, arr, host=rng.random() < 0.2)
        det = dict(type=C.__name__, fields={k: (str(f.dtype), f.shape) for k, f in SPEC[C].items()})
        render(ctx, C, x, arr, batch, "own", **det)
        ctx.case(batch, rt.tree_bytes(x)[1].__repr__())


def derived(ctx, count):
    """instances that came out of other operations render as what they hold."""
    os.environ["COLUMNS"] = "240"
    rng = ctx.rng
    C = monitored(rng)
    for _ in range(count):
        n = int(rng.integers(2, 7))
        arr = make(C, rng, (n, 3))
        x = rt.build(C, arr)
        str(x), LOG.clear()
        ops = [
            (lambda v: v[1], lambda a: a[1], (3,)),
            (lambda v: v[1, 2], lambda a: a[1, 2], ()),
            (lambda v: v[:, ::-1], lambda a: a[:, ::-1], (n, 3)),
            (lambda v: v.flatten(), lambda a: a.reshape((3 * n,) + a.shape[2:]), (3 * n,)),
            (lambda v: v.reshape((3, n)), lambda a: a.reshape((3, n) + a.shape[2:]), (3, n)),
            (lambda v: v.reshape((1, n, 3)), lambda a: a.reshape((1, n, 3) + a.shape[2:]), (1, n, 3)),
            (lambda v: v.at[0].set(v[1]), lambda a: np.concatenate([a[1:2], a[1:]]), None),
            (lambda v: jax.tree_util.tree_map(lambda q: q[::-1], v), lambda a: a[::-1], (n, 3)),
        ]
        for i, (f, g, b) in enumerate(ops):
            if b is None:
                continue
            render(ctx, C, f(x), {p: g(a) for p, a in arr.items()}, b, f"derived{i}", op=i)
            ctx.case("derived", i, n, rt.tree_bytes(x)[1].__repr__())
        y = x.replace(id=jnp.asarray(arr[("id",)][::-1]))
        render(ctx, C, y, {**arr, ("id",): arr[("id",)][::-1]}, (n, 3), "replaced")
        ctx.ev("derived", len(ops))


def lines_in_order(ctx, text, pieces, key, **det):
    pos = 0
    for p in pieces:
        k = text.find(p, pos)
        ctx.require(k >= 0, key, f"{p!r} is not in the text (or not at its place)", text=text[:1500], pieces=pieces[:20], **det)
        pos = k + len(p)


def pieces_of(C, arr, path=()):
    """what the default formatter of a single record must show, in order."""
    out = [C.__name__]
    for k, f in SPEC[C].items():
        out.append(f"{k}:")
        if f.nested is None:
            out += [l.strip() for l in str(arr[path + (k,)]).split("\n")]
        elif f.shape == ():
            out += pieces_of(f.nested, arr, path + (k,))
        else:
            out.append(f.nested.__name__[:1])
    return out


def default_text(ctx, types, count):
    """the built-in formatter: every field of every shown record, with its value."""
    os.environ["COLUMNS"] = "400"
    rng = ctx.rng
    for j in range(count):
        C = BY[types[j % len(types)]] if rng.random() < 0.6 else rt.random_type(rng)
        arr = rt.records(C, rng)
        x = rt.build(C, arr)
        det = dict(type=C.__name__, fields={k: (str(f.dtype), f.shape) for k, f in SPEC[C].items()})
        before = rt.tree_bytes(x)
        text = ANSI.sub("", str(x))
        lines_in_order(ctx, text, pieces_of(C, arr), "default:single", **det)
        ctx.require(ANSI.sub("", x.str()) == text and ANSI.sub("", x.str(anything=1)) == text, "default:str", "str(x) and x.str() differ", **det)
        ctx.require(rt.tree_bytes(x) == before, "default:mutates", "rendering changed the instance", **det)
        # any other value of a short field gives another text
        flat = [lf for lf in rt.leaves(C) if 0 < int(np.prod(lf.shape, dtype=np.int64)) <= 64 and not any(SPEC_nested_array(C, lf.path))]
        if flat:
            lf = flat[int(rng.integers(0, len(flat)))]
            if lf.dtype.kind in "iub":
                a2 = dict(arr)
                v = arr[lf.path].copy()
                w = v.reshape(-1)
                i = int(rng.integers(0, w.size))
                w[i] = (not w[i]) if lf.dtype == np.bool_ else w[i] ^ 1
                a2[lf.path] = v
                ctx.require(ANSI.sub("", str(rt.build(C, a2))) != text, "default:distinguishes", f"changing field {lf.path} does not change the text", **det)
                ctx.ev("distinguished")
        # a small batch of them
        if all(f.nested is None for f in SPEC[C].values()):
            n = int(rng.integers(1, 4))
            ar = rt.records(C, rng, (n,))
            bt = ANSI.sub("", str(rt.build(C, ar)))
            for i in range(n):
                for k, f in SPEC[C].items():
                    for l in str(ar[(k,)][i]).split("\n"):
                        ctx.require(l.strip() in bt, "default:batch", f"value {l.strip()!r} of record {i}, field {k} is not in the text of the batch", text=bt[:1500], **det)
                ctx.require(bt.count(f"{C.__name__}(") == n, "default:batch", f"{bt.count(C.__name__ + '(')} records shown of {n}", text=bt[:1500], **det)
            ctx.ev("default_batches")
        ctx.ev("default_singles")
        ctx.case("default", C.__name__, rt.tree_bytes(x)[1].__repr__())


def SPEC_nested_array(C, path):
    for k in path[:-1]:
        f = SPEC[C][k]
        yield f.shape != ()
        C = f.nested


def unstructured(ctx, types, count):
    """instances without a common batch say so instead of failing; tracing can print."""
    rng = ctx.rng
    for j in range(count):
        C = BY[types[j % len(types)]] if rng.random() < 0.5 else monitored(rng)
        if len(SPEC[C]) < 2:
            C = BY["Vec"]
        arr = rt.records(C, rng, (3,))
        lv = rt.leaves(C)
        lf = lv[int(rng.integers(0, len(lv)))]
        how = int(rng.integers(0, 3))
        a = arr[lf.path]
        arr[lf.path] = a[:2] if how == 0 else a[0] if how == 1 else np.stack([a, a], axis=-1)
        x = rt.build(C, arr)
        if x.structured_type.name == "UNSTRUCTURED":
            LOG.clear()
            t = str(x)
            ctx.require("nstructured" in t and C.__name__ in t, "unstructured", f"text of an unstructured instance: {t[:200]!r}", type=C.__name__)
            ctx.require(not LOG, "unstructured:formatter", "the formatter was given an unstructured instance", type=C.__name__)
            ctx.ev("unstructured")
            ctx.case("unstructured", C.__name__, lf.path, how)
        # tracing: the text of abstract instances
        D = BY[types[(j + 1) % len(types)]]
        b = [(), (2,), (7,), (2, 3)][int(rng.integers(0, 4))]
        y = rt.build(D, rt.records(D, rng, b))
        texts = []

        def f(v):
            texts.append(str(v))
            return v
        if j % 4 == 0:
            try:
                z = jax.jit(f)(y)
            except Exception as e:
                ctx.fail("traced", f"printing while tracing raised {type(e).__name__}: {e}"[:300], type=D.__name__, batch=b)
            rt.same_tree(ctx, z, y, "identity that prints", "traced")
            ctx.require(D.__name__[:1] in texts[0], "traced", "no class name in the text", text=texts[0][:200])
            ctx.ev("traced")
