from xv.ctx import Scenario as S

RULE = ("Random container programs executed directly and again per-operation jitted, as one compiled program, as scan/fori/while carries, vmapped over differently filled containers and as "
        "a vmapped scan with a per-lane program; every result and the whole container state are compared bit for bit. Record-array functions likewise under jit, vmap, scan. "
        "A case is one compared execution.")
REQUIRED_EVENTS = ("direct_operations", "jit_operations", "jit_programs", "scans", "fori_loops", "while_loops", "vmap_operations", "vmapped_programs", "identities", "jit_functions",
                   "vmap_functions", "scan_functions", "catalogue_ops")
ASSUMPTIONS = ("indices reported for unsuccessful lookups are not compared",)


def scenarios(tier, seed):
    n = 14 if tier == "quick" else 40
    c = 14 if tier == "quick" else 60
    q = [
        S("stack-mat", "programs", kind="stack", cls="Mat", steps=n),
        S("stack-nestarr", "programs", kind="stack", cls="NestArr", steps=n, cap=30, b=5, k=4),
        S("queue-mixed", "programs", kind="queue", cls="Mixed", steps=n),
        S("queue-u1", "programs", kind="queue", cls="U1", steps=n, cap=40, b=7, k=1),
        S("heap-pair", "programs", kind="heap", cls="Pair", steps=n + 6, weight=3),
        S("heap-vec-f16", "programs", kind="heap", cls="Vec", steps=n + 6, total=40, batch=7, dtype="f16", weight=3),
        S("table-u1", "programs", kind="table", cls="U1", steps=n, weight=4),
        S("table-vec", "programs", kind="table", cls="Vec", steps=n, bucket=1, cap=16, weight=4),
        S("arrays-mat", "arrays", cls="Mat", count=60),
        S("arrays-nest", "arrays", cls="Nest", count=30 if tier == "quick" else 60),
        S("arrays-mixed", "arrays", cls="Mixed", count=30 if tier == "quick" else 60),
        S("arrays-pair", "arrays", cls="Pair", count=60),
        S("arrays-filled", "arrays", cls="Filled", count=30 if tier == "quick" else 60),
        S("arrays-nestarr", "arrays", cls="NestArr", count=30 if tier == "quick" else 60),
        S("catalogue-pair", "catalogue", cls="Pair", count=2 * c),
        S("catalogue-mat", "catalogue", cls="Mat", count=2 * c),
        S("catalogue-nest", "catalogue", cls="Nest", count=c),
    ]
    return q
