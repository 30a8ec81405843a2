"""Record types used by the workloads (module level, so they can be saved, pickled, imported)."""
import os

import jax.numpy as jnp
import ml_dtypes
import numpy as np

from .rt import F, mk

G = globals()
bf16 = np.dtype(ml_dtypes.bfloat16)
f8 = np.dtype(ml_dtypes.float8_e4m3fn)

U1 = mk(G, "U1", dict(x=F(np.uint32)))
Small = mk(G, "Small", dict(a=F(np.uint8)))
Pair = mk(G, "Pair", dict(id=F(np.uint32), w=F(np.float32)))
Vec = mk(G, "Vec", dict(p=F(np.float32, (3,)), c=F(np.uint8, (2,))))
Mat = mk(G, "Mat", dict(s=F(np.int32), v=F(np.int16, (3,)), m=F(np.float32, (2, 3))))
Mixed = mk(G, "Mixed", dict(flag=F(np.bool_), i8=F(np.int8, (5,)), h=F(np.float16, (2,)), b=F(bf16), u=F(np.uint16, (3,)), z=F(np.int32)))
Nest = mk(G, "Nest", dict(tag=F(np.uint32), inner=F(nested=Mat), last=F(np.uint8, (3,))))
Deep = mk(G, "Deep", dict(n=F(nested=Nest), v=F(nested=Vec), k=F(np.int16)))
NestArr = mk(G, "NestArr", dict(id=F(np.uint32), cells=F(nested=Vec, shape=(2,)), grid=F(nested=Small, shape=(2, 3))))
Signed = mk(G, "Signed", dict(a=F(np.int8), b=F(np.int16, (2,)), c=F(np.int32)))
WideF = mk(G, "WideF", dict(f=F(np.float32, (6,)), g=F(np.uint32, (4,)), h=F(np.uint8, (3,))))
Board = mk(G, "Board", dict(cells=F(np.uint8, (16,))))
Flags = mk(G, "Flags", dict(on=F(np.bool_, (9,)), n=F(np.uint8)))
Filled = mk(G, "Filled", dict(a=F(np.uint16, (2,), fill=7), b=F(np.float32, fill=-1.5), c=F(np.bool_, (3,), fill=True), d=F(np.int32, (2, 2), fill=-9)))
F8 = mk(G, "F8", dict(q=F(f8, (3,)), r=F(bf16, (2, 2)), t=F(np.float16)))
Bits = mk(G, "Bits", dict(a=F(np.uint8, (7,), bits=3, fill=0), b=F(np.uint32, bits=12, fill=0), c=F(np.bool_, (9,), bits=1, fill=False)))
Odd3 = mk(G, "Odd3", dict(a=F(np.uint8), b=F(np.uint8, (2,))))
SameDim = mk(G, "SameDim", dict(a=F(np.int32, (3,)), b=F(np.int32, (3, 3)), c=F(np.int32)))
AggN = mk(G, "AggN", dict(h=F(np.uint16, (3,), bits=11, fill=0), inner=F(nested=Bits), i=F(np.int32, (2,), bits=31, fill=0), last=F(np.uint8, bits=8, fill=0)))
AggBig = mk(G, "AggBig", dict(a=F(np.uint32, (3, 5), bits=27, fill=0), f=F(np.bool_, (40,), bits=1, fill=False), w=F(np.uint32, (2,), bits=32, fill=0), z=F(np.uint8, (2, 2), bits=5, fill=0)))
Pk = mk(G, "Pk", dict(face=F(shape=(7,), packed=3), id=F(np.uint32), on=F(shape=(3, 5), packed=1), wide=F(shape=(3,), packed=13)))
PkN = mk(G, "PkN", dict(n=F(np.int16), p=F(nested=Pk), q=F(shape=(2,), packed=20, unpacked=np.dtype(np.int32))))

Named = mk(G, "Named", {"file": F(np.uint32), "allow_pickle": F(np.int16, (2,)), "arr_0": F(np.float32), "data": F(nested=Vec)})

ALL = [U1, Small, Pair, Vec, Mat, Mixed, Nest, Deep, NestArr, Signed, WideF, Board, Flags, Filled, F8, Bits, Odd3, SameDim, AggN, AggBig, Pk, PkN, Named]
if os.environ.get("JAX_ENABLE_X64") == "1":
    Wide64 = mk(G, "Wide64", dict(u=F(np.uint64), i=F(np.int64, (3,)), d=F(np.float64, (2,)), b=F(np.uint8)))
    Nest64 = mk(G, "Nest64", dict(n=F(nested=Wide64), m=F(nested=Mat), k=F(np.uint64, (2,), bits=20, fill=0)))
    ALL += [Wide64, Nest64]
BY = {c.__name__: c for c in ALL}
