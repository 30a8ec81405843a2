from xv.ctx import Scenario as S

RULE = ("Slot-reservation kernels run on random occupancy states in Pallas interpret mode (both row orders) and on a simulator that interleaves the rows' memory accesses, each outcome judged by an "
        "ownership monitor; hash-table histories run through them against a set model. A case is one reservation state or one table operation.")
REQUIRED_EVENTS = ("reservations", "contended_reservations", "slots_reserved", "rows_refused", "rows_inactive", "full_buckets_passed", "sim_launches", "sim_switches", "sim_lost_claims",
                   "e2e_histories", "e2e_kernels_traced", "parallel_new", "insert_new", "lookup_hit", "audits", "batches_with_duplicates")
ASSUMPTIONS = ("no accelerator is present: kernels run in JAX's interpreter or on the simulator (sequentially consistent memory), compilation to Triton or Mosaic itself is not covered",
               "the TPU kernel's grid runs in order, as on that backend", "bucket sizes up to 32 (larger ones use the portable path)")
BUDGET = {"quick": 20.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    k = 1 if q else 4
    n = 45 if q else 150
    G, T = {"XV_ACCEL": "gpu"}, {"XV_ACCEL": "tpu"}
    return [
        S("triton-sim-a", "reserve", kernel="triton", sim=True, shapes=6 * k, count=3, repeat=4, env=G),
        S("triton-sim-b", "reserve", kernel="triton", sim=True, shapes=6 * k, count=3, repeat=4, env=G),
        S("pallas-sim", "reserve", kernel="pallas", sim=True, shapes=4 * k, count=2, env=T),
        S("triton-interp-a", "reserve", kernel="triton", shapes=5 * k, count=40, env=G),
        S("triton-interp-b", "reserve", kernel="triton", shapes=5 * k, count=40, env=G),
        S("pallas-interp-a", "reserve", kernel="pallas", shapes=4 * k, count=40, env=T),
        S("pallas-interp-b", "reserve", kernel="pallas", shapes=4 * k, count=40, env=T),
        S("gpu-u1", "table", cls="U1", capacity=64, ops=n, env=G),
        S("tpu-u1", "table", cls="U1", capacity=64, ops=n, env=T),
        S("gpu-nest-full", "table", cls="Nest", capacity=24, bucket=4, mult=1, ops=n, npool=60, env=G),
        S("tpu-nest-full", "table", cls="Nest", capacity=24, bucket=4, mult=1, ops=n, npool=60, env=T),
        S("gpu-weak", "batches", cls="U1", capacity=32, bucket=4, mult=1, weak=(1, 1), npool=60, env=G),
        S("tpu-weak", "batches", cls="U1", capacity=32, bucket=4, mult=1, weak=(1, 1), npool=60, env=T),
        S("gpu-b32", "batches", cls="Pair", capacity=60, bucket=32, mult=1, B=40, env=G),
        S("tpu-b32", "batches", cls="Pair", capacity=60, bucket=32, mult=1, B=40, env=T),
        S("gpu-b1", "batches", cls="Mat", capacity=16, bucket=1, mult=1, npool=40, env=G),
        S("tpu-b1", "batches", cls="Mat", capacity=16, bucket=1, mult=1, npool=40, env=T),
        S("gpu-probes", "batches", cls="U1", capacity=24, bucket=2, mult=1, max_probes=4, npool=60, env=G),
        S("tpu-probes", "batches", cls="U1", capacity=24, bucket=2, mult=1, max_probes=4, npool=60, env=T),
        S("gpu-b40", "batches", cls="U1", capacity=60, bucket=40, mult=1, npool=110, env=G),
        S("tpu-board", "batches", cls="Board", capacity=30, bucket=3, mult=1, env=T),
        S("gpu-off", "batches", cls="U1", capacity=32, bucket=4, mult=1, env=G | {"XTRUCTURE_HASHTABLE_TRITON_INSERT": "0"}),
    ]
