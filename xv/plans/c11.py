from xv.ctx import Scenario as S

RULE = ("For random records, all records one meaningful bit away are rendered and hashed: renderings must be pairwise distinct and hashes must change; hashes are compared across forms, "
        "positions, compiled and direct calls, streaming settings and fresh processes. A case is one base record, seed, variant or process.")
REQUIRED_EVENTS = ("bit_flips", "single_hashes", "seeds", "spread_records", "streaming_variants", "process_comparisons", "wide_fields", "large_records")
ASSUMPTIONS = ("a bit-flip changes the hash by construction of the mixer or with probability 1 - 2^-32; up to 2 chance collisions are tolerated in spread runs",
               "with aggregate packed hashing, integer fields hold values that fit their declared bits")


def scenarios(tier, seed):
    k = 2 if tier == "quick" else 10
    q = [S("content-" + c.lower(), "content", cls=c, nrec=k) for c in
         ("U1", "Small", "Vec", "Mat", "Mixed", "Nest", "Deep", "NestArr", "Signed", "WideF", "Board", "Flags", "F8", "Bits", "Odd3", "AggN", "PkN", "AggBig")]
    q += [S("packed-" + c.lower(), "content", cls=c, nrec=k, agg="packed") for c in ("Bits", "AggN", "AggBig")]
    q += [S("auto-bits", "content", cls="Bits", nrec=k, agg="auto")]
    q += [S("auto-tpu-bits", "content", cls="Bits", nrec=k, agg="auto", env={"XV_ACCEL": "tpu"}), S("auto-tpu-aggn", "content", cls="AggN", nrec=k, agg="auto", env={"XV_ACCEL": "tpu"})]
    q += [S("seeds-" + c.lower(), "seeds", cls=c, n=200) for c in ("Mixed", "U1", "Nest")]
    q += [S("spread-" + c.lower() + "-" + m, "spread", cls=c, n=2500 if tier == "quick" else 20000, mode=m) for c, m in
          (("Board", "perms"), ("WideF", "perms"), ("Mat", "near"), ("NestArr", "near"), ("Deep", "near"), ("U1", "near"))]
    q += [S("modes-" + c.lower(), "modes", cls=c, n=4) for c in ("Mat", "Mixed", "NestArr", "Odd3")]
    q += [S("processes", "processes", names=["U1", "Mixed", "Nest", "Bits", "F8"], weight=3, once=True,
            envs=[{"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "77", "XTRUCTURE_HASH_STREAM": "on"}]),
          S("wide-x64", "wide", env={"JAX_ENABLE_X64": "1"}, once=True)]
    big = [[("u4", 8200), ("u4", 8)], [("u1", 70001), ("f4", 3), ("u2", 5)], [("u4", 70000), ("u4", 0)], [("u4", 0), ("?", 9000), ("u4", 1100), ("i2", 40000)]]
    q += [S(f"large{i}", "large", sizes=b, once=tier == "quick") for i, b in enumerate(big)]
    return q
