from xv.ctx import Scenario as S

RULE = ("Histories of from_unpacked, set_unpacked, replace, indexed updates and gathers on generated types with packed fields (1 to 32 bits), every field read after every step and compared "
        "with shadow logical arrays, earlier instances included; a case is one step.")
REQUIRED_EVENTS = ("fields_read", "sets", "replaces", "indexed_sets", "compiled_sets", "mapped", "types", "nested_steps", "refused_shapes")
ASSUMPTIONS = ("written values fit the declared bits and the logical dtype", "packed fields have at least one element")


def scenarios(tier, seed):
    n, k = (4, 9) if tier == "quick" else (12, 20)
    q = [S(f"gen-{i}", "gen", count=n, steps=k) for i in range(5)]
    q += [S(f"bits-{i}", "gen", count=8 if tier == "thorough" else 4, steps=5, bits=[4 * j + i + 1 for j in range(8)][:: 1 if tier == "thorough" else 2]) for i in range(4)]
    q += [S("pk", "named", cls="Pk", steps=k), S("pkn", "named", cls="PkN", steps=k)]
    return q
