from xv.ctx import Scenario as S

RULE = ("Random record arrays (single, batched, multi-axis, empty) of every type are saved under random path forms with and without packing, loaded here and in another process, and compared bit for bit with "
        "the host arrays they were made from; files are truncated, damaged, stripped of members, and saves are cut off by a file size limit; a case is one save or one damaged load, distinct by type, batch, path and contents.")
REQUIRED_EVENTS = ("loads", "packed_saves", "plain_saves", "single_records", "second_generation", "wrong_type_refused", "non_records_refused", "damage_refused", "failed_saves", "cross_process", "missing_files_refused", "packed_companions", "derived_saves", "large_batches")
ASSUMPTIONS = ("record types are importable at module level", "values of fields with declared bits fit those bits", "all files live in a scratch directory")
BUDGET = {"quick": 20.0, "thorough": 420.0}
X64 = {"JAX_ENABLE_X64": "1"}


def scenarios(tier, seed):
    q = tier == "quick"
    n = 40 if q else 220
    out = [S("rt_" + c.lower(), "roundtrip", cls=c, count=n) for c in
           ("Pair", "Mat", "Mixed", "Nest", "Deep", "NestArr", "Flags", "Filled", "F8", "Bits", "AggN", "AggBig", "Pk", "PkN", "Named", "Signed")]
    out += [S("rt64_" + c.lower(), "roundtrip", env=X64, cls=c, count=n) for c in ("Wide64", "Nest64", "AggN", "PkN")]
    out += [S("packedtypes", "packedtypes", names=["Bits", "AggN", "AggBig"], count=9 if q else 60)]
    out += [S("slices_" + c.lower(), "slices", cls=c, count=24 if q else 120) for c in ("Nest", "Bits", "Pk")]
    out += [S("wrongtype", "wrongtype", names=["U1", "Small", "Pair", "Vec", "Mat", "Nest", "Bits", "AggN", "Pk"], count=1)]
    out += [S("damage_" + c.lower(), "damage", cls=c, count=120 if q else 900) for c in ("Pair", "Nest", "Bits", "Mixed")]
    out += [S("fault_" + c.lower(), "failedsave", cls=c, count=40 if q else 250) for c in ("Pair", "Nest", "AggN")]
    out += [S("process", "process", once=q, names=["Pair", "Mixed", "Nest", "Deep", "NestArr", "F8", "Bits", "AggN", "Pk", "PkN", "Named", "Signed"], n=6)]
    out += [S("scale_" + c.lower(), "scale", once=q, cls=c, batches=[[300], [40000], [70003], [3, 300, 50]]) for c in ("U1", "Bits", "Pk", "Pair")]
    return out
