from xv.ctx import Scenario as S

RULE = ("Accelerator merge kernels run in Pallas interpret mode (random inputs, both program orders) and on a simulator that interleaves the kernel's programs over bounds-checked, "
        "initially garbage memory, plus queue histories through them; every result is compared with a sort-merge or an exact queue model. A case is one merge or one queue operation.")
REQUIRED_EVENTS = ("merges", "merges_with_ties", "merges_with_infinities", "merges_unequal", "kv_merges", "splits", "sim_launches", "sim_switches", "e2e_histories",
                   "e2e_kernels_traced", "inserts", "deletes", "drains", "pairs_checked", "packing_auto", "packing_pad", "packing_scalar", "packing_shard")
ASSUMPTIONS = ("no accelerator is present: kernels run in JAX's interpreter or on the simulator, so compilation to Triton itself is not covered", "no NaN, -0.0 or subnormal keys")
BUDGET = {"quick": 20.0, "thorough": 420.0}
GPU = {"XV_ACCEL": "gpu"}


def scenarios(tier, seed):
    q = tier == "quick"
    k = 1 if q else 4
    n = 90 if q else 300
    par = dict(GPU, XTRUCTURE_BGPQ_MERGE_BACKEND="parallel")
    kv = dict(GPU, XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND="on")
    out = [S("interp-" + d, "merge_interp", dtype=d, blocks=[1, 2, 3, 4, 16, 64, None], shapes=3 * k, env=GPU) for d in ("f32", "f16", "bf16", "i32", "u32")]
    out += [
        S("interp-mixed", "merge_interp", dtype="f16", dtype_b="f32", blocks=[4, 16], shapes=2 * k, env=GPU),
        S("sort-f32", "merge_interp", dtype="f32", blocks=[None], backend="sort", shapes=4 * k, env=GPU),
        S("sort-bf16", "merge_interp", dtype="bf16", blocks=[None], backend="sort", shapes=2 * k, env=GPU),
    ]
    out += [S("sim-" + d, "merge_sim", dtype=d, count=16 * k, env=GPU) for d in ("f32", "f16", "i32")]
    out += [S("kv-" + c.lower(), "merge_kv", cls=c, shapes=2 * k, pack0=2 * i, env=GPU) for i, c in enumerate(("U1", "Mat", "Mixed", "NestArr", "Board", "Deep", "F8"))]
    out += [S("kvsim-" + c.lower(), "merge_kv", cls=c, sim=True, shapes=2 * k, count=2, pack0=2 * i, env=GPU) for i, c in enumerate(("Pair", "Vec"))]
    out += [S("split-kv", "split", cls="Mat", env=kv), S("split-par", "split", cls="Nest", env=par), S("split-sort", "split", cls="Mixed", env=GPU | {"XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"}),
            S("split-par-concat", "split", cls="NestArr", env=par | {"XTRUCTURE_BGPQ_VALUE_REORDER": "concat"})]
    out += [
        S("e2e-par-b4", "e2e", cls="U1", batch=4, total=64, ops=n, env=par),
        S("e2e-par-pairs", "e2e", cls="Mat", batch=5, total=60, ops=n, mode="few", pairs=True, env=par),
        S("e2e-par-block", "e2e", cls="Pair", batch=6, total=90, ops=n, mode="few", pairs=True, dtype="f16", env=par | {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": "4", "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX": "0"}),
        S("e2e-kv", "e2e", cls="Nest", batch=4, total=64, ops=n, mode="few", pairs=True, env=kv),
        S("e2e-kv-shard", "e2e", cls="Mat", batch=3, total=40, ops=n, mode="const", pairs=True, env=kv | {"XTRUCTURE_BGPQ_MERGE_VALUE_PACKING": "shard"}),
        S("e2e-kv-b1", "e2e", cls="Deep", batch=1, total=20, ops=n, mode="few", pairs=True, dtype="bf16", env=kv),
        S("e2e-kv-buffer", "e2e", cls="Pair", batch=8, total=80, ops=n, mode="edge", env=dict(GPU, XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_BUFFER="on", XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND="off")),
        S("e2e-kv-sortsplit", "e2e", cls="Mat", batch=4, total=48, ops=n, mode="few", pairs=True,
          env=dict(GPU, XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_SORTSPLIT="auto", XTRUCTURE_BGPQ_MERGE_VALUE_AUTO_MIN_BATCH="4")),
        S("e2e-over-par", "e2e", kind="overflow", cls="Pair", batch=4, total=24, ops=n // 2, mode="few", audit=3, env=par),
        S("e2e-over-kv", "e2e", kind="overflow", cls="Mat", batch=3, total=18, ops=n // 2, audit=3, env=kv),
    ]
    return out
