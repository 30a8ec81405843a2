from xv.ctx import Scenario as S

RULE = ("Random weighted graphs over records of several types, sliding tiles in a bit-packed field and prefix reversals are searched exhaustively with a hash table, a priority queue of table indices and cost/predecessor arrays at those indices, in one compiled loop or step by step; "
        "breadth- and depth-first with queue and stack. Every distance, expansion, predecessor and visiting order is compared with a textbook search. A case is one search of one graph.")
REQUIRED_EVENTS = ("searches", "expanded", "stale_entries", "reached", "improvements", "watched_steps", "queue_searches", "stack_searches", "visits")
ASSUMPTIONS = ("edge costs are small integers, so every sum is exact in the key type", "containers are large enough for the search")
BUDGET = {"quick": 15.0, "thorough": 420.0}


def scenarios(tier, seed):
    q = tier == "quick"
    g = lambda cls, n, K, wmax=9: dict(cls=cls, n=n, K=K, wmax=wmax)
    out = [
        S("graph_pair", "best_first", domain="graph", p=g("Pair", 150, 4), batch=16),
        S("graph_nest", "best_first", domain="graph", p=g("Nest", 90, 3), batch=8, mode="jitstep"),
        S("graph_mixed_b1", "best_first", domain="graph", p=g("Mixed", 40, 3), batch=1, mode="jitstep"),
        S("graph_pk_noflags", "best_first", domain="graph", p=g("Pk", 100, 5), batch=32, flags=False),
        S("graph_tight", "best_first", domain="graph", p=g("Board", 200, 4), batch=7, slack=1, table_kw=dict(bucket_size=2, hash_size_multiplier=1)),
        S("graph_bucket32", "best_first", domain="graph", p=g("Small", 120, 4, 3), batch=64, table_kw=dict(bucket_size=32)),
        S("graph_f16", "best_first", domain="graph", p=g("Vec", 120, 3, 5), batch=10, key_dtype="float16", heuristic=True),
        S("tiles23", "best_first", domain="tiles", p=dict(rows=2, cols=3), batch=32, heuristic=True),
        S("pancakes5", "best_first", domain="pancakes", p=dict(m=5), batch=20),
        S("pancakes4_eager", "best_first", domain="pancakes", p=dict(m=4), batch=16, mode="eager", flags=False),
        S("bfs_tiles", "orders", domain="tiles", p=dict(rows=2, cols=3), kind="queue"),
        S("dfs_pancakes", "orders", domain="pancakes", p=dict(m=5), kind="stack"),
        S("bfs_graph", "orders", domain="graph", p=g("NestArr", 120, 4), kind="queue", mode="jitstep"),
        S("dfs_graph", "orders", domain="graph", p=g("AggN", 120, 4), kind="stack", table_kw=dict(bucket_size=1)),
    ]
    if not q:
        out += [S("graph_large", "best_first", domain="graph", p=g("U1", 6000, 5, 20), batch=256), S("graph_large_tight", "best_first", domain="graph", p=g("WideF", 3000, 4, 20), batch=128, slack=1, table_kw=dict(hash_size_multiplier=1)),
                S("tiles_24", "best_first", domain="tiles", p=dict(rows=2, cols=4), batch=512), S("pancakes6", "best_first", domain="pancakes", p=dict(m=6), batch=100), S("pancakes7", "best_first", domain="pancakes", p=dict(m=7), batch=300, flags=False)]
        out += [S(f"graph_{c.lower()}", "best_first", domain="graph", p=g(c, 300, 4, 12), batch=b) for c, b in (("Deep", 24), ("F8", 17), ("Flags", 33), ("AggBig", 12), ("PkN", 20), ("SameDim", 64))]
    return out
