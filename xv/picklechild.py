"""Child process of C22: unpickles without having imported the types, uses JAX on the result, sends it back.
With argument `main` it first does the same with types defined in __main__."""
import pickle
import sys


def main():
    repo, src, dst, mode = sys.argv[1:5]
    sys.path.insert(0, repo)
    with open(src, "rb") as f:
        data = pickle.load(f)
    import jax
    import numpy as np
    out = []
    for obj in data:
        lv, td = jax.tree_util.tree_flatten(obj)
        paths = [jax.tree_util.keystr(p) for p, _ in jax.tree_util.tree_flatten_with_path(obj)[0]]
        again = jax.tree_util.tree_map(lambda a: a, obj)
        traced = jax.jit(lambda t: t)(obj)
        out.append(dict(leaves=[np.asarray(a) for a in lv], paths=paths, again=again, traced=traced, types=[type(obj).__module__, type(obj).__qualname__]))
    with open(dst, "wb") as f:
        pickle.dump(out, f)
    if mode == "main":
        own(jax, np)
    print("CHILD-OK")


def own(jax, np):
    import copy
    import jax.numpy as jnp
    from xtructure import FieldDescriptor, base_dataclass, xtructure_dataclass
    global Mine, Rec

    @base_dataclass(static_fields=("n",))
    class Mine:
        a: object
        n: int
        b: object
    Mine.__qualname__ = "Mine"

    @xtructure_dataclass
    class Rec:
        v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))
        w: FieldDescriptor.scalar(dtype=jnp.float32)
    Rec.__qualname__ = "Rec"
    r = Rec(v=jnp.asarray([[1, 2, 3], [4, 5, 6]], jnp.uint8), w=jnp.asarray([1.5, -2.0], jnp.float32))
    r.shape, r.dtype
    m = Mine(a=jnp.arange(4), n=6, b=r)
    for f in (lambda x: pickle.loads(pickle.dumps(x)), copy.copy, copy.deepcopy, lambda x: jax.tree_util.tree_map(lambda t: t, x), jax.jit(lambda x: x), lambda x: x.replace(n=6)):
        y = f(m)
        assert type(y) is Mine and type(y.b) is Rec and y.n == 6, (f, y)
        assert np.array_equal(y.a, [0, 1, 2, 3]) and np.array_equal(y.b.v, [[1, 2, 3], [4, 5, 6]]) and np.array_equal(y.b.w, np.float32([1.5, -2.0])), f
        assert len(jax.tree_util.tree_leaves(y)) == 3, f
        assert y.b.batch_shape == (2,), f


if __name__ == "__main__":
    main()
