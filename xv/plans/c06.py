from xv.ctx import Scenario as S

RULE = ("Histories of single inserts, single and batched lookups and batch inserts on pools of near-duplicate records, every answer compared with a set of record bytes "
        "and every index read back; a case is one operation, distinct by table geometry, last operations and number held.")
REQUIRED_EVENTS = ("insert_new", "insert_present", "lookup_hit", "lookup_miss", "batch_lookup_rows", "parallel_new", "audits", "refused")
ASSUMPTIONS = ("no NaN or -0.0 in fields", "indices returned for records that were refused or not found are unspecified", "bucket_size at most 255")


def scenarios(tier, seed):
    n = 60 if tier == "quick" else 160
    return [
        S("u1-cap64", "history", cls="U1", capacity=64, ops=n),
        S("small-cap60", "history", cls="Small", capacity=60, ops=n, near=0.3),
        S("nest-cap40", "history", cls="Nest", capacity=40, ops=n),
        S("mixed-cap40-seed", "history", cls="Mixed", capacity=40, ops=n, seed="rand"),
        S("nestarr-b4", "history", cls="NestArr", capacity=30, bucket=4, ops=n),
        S("widef-cap30-b1", "history", cls="WideF", capacity=30, bucket=1, ops=n, seed="rand"),
        S("board-b3", "history", cls="Board", capacity=30, bucket=3, mult=1, ops=n),
        S("f8-b2", "history", cls="F8", capacity=20, bucket=2, ops=n),
        S("u1-b40", "history", cls="U1", capacity=60, bucket=40, mult=1, ops=n, npool=110),
        S("vec-full", "history", cls="Vec", capacity=10, bucket=2, mult=1, ops=n, npool=40),
        S("u1-probes", "history", cls="U1", capacity=24, bucket=2, mult=1, max_probes=4, ops=n, npool=60),
        S("pair-probes-b4", "history", cls="Pair", capacity=24, bucket=4, mult=1, max_probes=6, ops=n, npool=60, seed="rand"),
        S("u1-probes1", "history", cls="U1", capacity=16, bucket=1, mult=1, max_probes=1, ops=n, npool=40),
        S("weak-u1-0-0", "history", cls="U1", capacity=32, bucket=4, weak=(0, 0), ops=n, npool=50),
        S("weak-nest-1-1", "history", cls="Nest", capacity=24, bucket=8, weak=(1, 1), ops=n, npool=50),
        S("weak-mat-3-0", "history", cls="Mat", capacity=24, bucket=2, mult=1, weak=(3, 0), ops=n, npool=50),
        S("weak-u1-0-8-b1", "history", cls="U1", capacity=20, bucket=1, mult=1, weak=(0, 8), ops=n, npool=40),
        S("weak-probes", "history", cls="U1", capacity=24, bucket=4, mult=1, max_probes=8, weak=(1, 1), ops=n, npool=60),
        S("cap1", "history", cls="U1", capacity=1, bucket=1, mult=1, ops=n, npool=12),
    ]
