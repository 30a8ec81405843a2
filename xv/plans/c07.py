from xv.ctx import Scenario as S

RULE = ("Batch insertions with duplicates, masks in every form and costs of several types (ties, infinities, extreme integers) on near-duplicate pools; flags, "
        "representatives, indices and size checked on each call; a case is one call, distinct by rows, mask form and costs.")
REQUIRED_EVENTS = ("parallel_new", "parallel_present", "cost_groups", "cost_ties", "batches_with_duplicates", "batches_masked", "refused", "audits")
ASSUMPTIONS = ("costs contain no NaN", "indices of refused and unselected rows are unspecified")


def scenarios(tier, seed):
    n = 30 if tier == "quick" else 90
    D = "XTRUCTURE_HASHTABLE_DEDUPE_MODE"
    B = "XTRUCTURE_HASHTABLE_SORT_BACKEND"
    return [
        S("u1-b16", "contract", cls="U1", capacity=64, B=16, ops=n, kinds=("f32", "f32u")),
        S("u1-int", "contract", cls="U1", capacity=64, B=16, ops=n, kinds=("i32", "u32")),
        S("small-types", "contract", cls="Small", capacity=100, B=24, ops=n, kinds=("f16", "bf16", "u8"), near=0.2),
        S("nest", "contract", cls="Nest", capacity=50, B=12, ops=n),
        S("mixed-b1", "contract", cls="Mixed", capacity=50, B=16, bucket=1, ops=n),
        S("widef", "contract", cls="WideF", capacity=40, B=20, bucket=4, ops=n, kinds=("f32", "u32")),
        S("b33", "contract", cls="U1", capacity=80, B=33, bucket=33, mult=1, ops=n),
        S("b32", "contract", cls="U1", capacity=80, B=33, bucket=32, mult=1, ops=n),
        S("one-row", "contract", cls="Pair", capacity=30, B=1, ops=n * 2),
        S("overfull", "contract", cls="U1", capacity=16, B=24, bucket=2, mult=1, ops=n, npool=60),
        S("probes", "contract", cls="Pair", capacity=24, B=16, bucket=2, mult=1, max_probes=4, ops=n, npool=60),
        S("probes-b8", "contract", cls="U1", capacity=32, B=20, bucket=8, mult=1, max_probes=3, ops=n, npool=80),
        S("weak-0-0", "contract", cls="U1", capacity=40, B=16, bucket=4, weak=(0, 0), ops=n, npool=50),
        S("weak-nest-2-1", "contract", cls="Nest", capacity=32, B=16, weak=(2, 1), ops=n, npool=50),
        S("weak-widef-1-0-b2", "contract", cls="WideF", capacity=24, B=12, bucket=2, mult=1, weak=(1, 0), ops=n, npool=40),
        S("exact", "contract", cls="Mat", capacity=40, B=16, ops=n, env={D: "exact"}),
        S("exact-weak", "contract", cls="U1", capacity=40, B=16, weak=(0, 0), ops=n, env={D: "exact"}, kinds=("f32", "u32")),
        S("approx", "contract", cls="Mat", capacity=40, B=16, ops=n, env={D: "approx"}),
        S("unstable", "contract", cls="Nest", capacity=40, B=16, ops=n, env={B: "lax_unstable"}),
        S("unstable-weak", "contract", cls="Mat", capacity=40, B=16, weak=(1, 0), ops=n, env={B: "lax_unstable"}),
        S("laxstable-exact", "contract", cls="WideF", capacity=40, B=16, ops=n, env={B: "lax_stable", D: "exact"}),
        S("wide-batch", "contract", cls="U1", capacity=600, B=300, ops=max(6, n // 4), kinds=("f32u", "u32")),
    ]
