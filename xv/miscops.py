"""Record-array functions of one argument dict A, for eager / jit / vmap comparison.
A: x, x2 (batch (n,)), one (single), vals (batch (4,)), mask (n,), idx (4,), cond (4,), cost (n,), key."""
import jax
import jax.numpy as jnp
from xtructure import numpy as xnp


def _padded(n, mask, index, inverse):
    """compiled code must give the index output a static length: entries beyond the batch are padding."""
    index = jnp.pad(index, (0, n - index.shape[0]), constant_values=n)
    return mask, jnp.where(index < n, index, n), inverse


def misc(C, n):
    m = dict(
        get=lambda A: A["x"][1], get_slice=lambda A: A["x"][1:3], get_arr=lambda A: A["x"][A["idx"]], get_step=lambda A: A["x"][::-2], get_new=lambda A: A["x"][None, 1:],
        set_one=lambda A: A["x"].at[2].set(A["one"]), set_arr=lambda A: A["x"].at[A["idx"][:1]].set(A["vals"][:1]), set_scalar=lambda A: A["x"].at[1].set(1),
        set_slice=lambda A: A["x"].at[:4].set(A["vals"]), set_mask=lambda A: A["x"].at[A["mask"]].set(A["one"]),
        cset=lambda A: A["x"].at[A["idx"]].set_as_condition(A["cond"], A["vals"]), cset1=lambda A: A["x"].at[A["idx"][0]].set_as_condition(A["cond"][0], A["one"]),
        upd=lambda A: xnp.update_on_condition(A["x"], A["idx"], A["cond"], A["vals"]), upd_scalar=lambda A: xnp.update_on_condition(A["x"], A["idx"], A["cond"], 0),
        where=lambda A: xnp.where(A["mask"], A["x"], A["x2"]), where_fill=lambda A: xnp.where(A["mask"], A["x"], 1), where_no_broadcast=lambda A: xnp.where_no_broadcast(xnp.equal(A["x"], A["x2"]), A["x"], A["x2"]),
        uniq=lambda A: xnp.unique_mask(A["x"]), uniq_cost=lambda A: xnp.unique_mask(A["x"], A["cost"]), uniq_filled=lambda A: xnp.unique_mask(A["x"], filled=A["mask"]),
        uniq_inv=lambda A: xnp.unique_mask(A["x"], A["cost"], return_inverse=True), uniq_idx=lambda A: _padded(n, *xnp.unique_mask(A["x"], A["cost"], filled=A["mask"], return_index=True, return_inverse=True)),
        eq=lambda A: A["x"] == A["x2"], ne=lambda A: A["x"] != A["x2"], equal=lambda A: xnp.equal(A["x"], A["x2"]), not_equal=lambda A: xnp.not_equal(A["x"], A["x2"]),
        isclose=lambda A: xnp.isclose(A["x"], A["x2"]), allclose=lambda A: xnp.allclose(A["x"], A["x2"]),
        hash=lambda A: A["one"].hash(3), hash2=lambda A: A["one"].hash_pair(4), hashw=lambda A: A["one"].hash_with_uint32ed(1), words=lambda A: A["one"].uint32ed, bytes=lambda A: A["one"].bytes,
        vhash=lambda A: jax.vmap(lambda r: r.hash(9))(A["x"]),
        zeros_like=lambda A: xnp.zeros_like(A["x"]), ones_like=lambda A: xnp.ones_like(A["x"]), full_like=lambda A: xnp.full_like(A["x"], 1), astype=lambda A: A["x"].astype(jnp.float32),
        bc=lambda A: xnp.broadcast_arrays(A["one"].expand_dims(0), A["x"]), bct=lambda A: A["x"].expand_dims(0),
        default=lambda A: C.default((3,)), random=lambda A: C.random((3,), key=A["key"]), tup=lambda A: C.from_tuple(A["x"].to_tuple()),
        rep=lambda A: A["x"].replace(**{k: getattr(A["x2"], k) for k in list(C.__dataclass_fields__)[:1]}),
        tree=lambda A: jax.tree_util.tree_map(lambda a: a, A["x"]), sort_of=lambda A: A["x"][jnp.argsort(A["cost"])], ident=lambda A: A["x"],
        reshape=lambda A: A["x"].reshape((1, -1)), flat=lambda A: A["x"].reshape((-1, 1)).flatten(), shape=lambda A: jnp.asarray([len(A["x"]), A["x"].ndim, A["one"].ndim] + list(A["x"].shape.batch)),
        cond=lambda A: jax.lax.cond(A["cond"][0], lambda a, b: a, lambda a, b: b, A["x"], A["x2"]),
    )
    return m
