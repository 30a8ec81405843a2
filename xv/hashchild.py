"""Child process: hashes of deterministic records, as JSON on stdout."""
import json
import sys

import numpy as np


def table(names, seed, n, hseeds):
    import jax
    import jax.numpy as jnp

    from xv import rt
    from xv.rtypes import BY

    out = {}
    for name in names:
        C = BY[name]
        rng = np.random.default_rng([seed, len(name)])
        arr = rt.records(C, rng, n, "uniform")
        x = rt.build(C, arr)
        rows = {}
        for s in hseeds:
            f = jax.jit(jax.vmap(lambda r: (r.hash(jnp.uint32(s)), r.hash_pair(jnp.uint32(s)))))
            h, (a, b) = f(x)
            rows[str(s)] = [np.asarray(h).tolist(), np.asarray(a).tolist(), np.asarray(b).tolist()]
        one = x[0]
        out[name] = dict(rows=rows, single=int(one.hash(jnp.uint32(hseeds[0]))), words=np.asarray(one.uint32ed).tolist(), bytes=np.asarray(one.bytes).tolist())
    return out


if __name__ == "__main__":
    a = json.loads(sys.argv[1])
    sys.path.insert(0, a["repo"])
    print("RESULT " + json.dumps(table(a["names"], a["seed"], a["n"], a["hseeds"])))
