from xv.ctx import Scenario as S

RULE = ("Generated record types (1 to 32 bit fields, any shape, nesting up to 3) packed at several batch shapes: unpacking in every form must return the values, single-field and element "
        "decodes must agree, records one bit away must pack differently; a case is one generated type with one batch.")
REQUIRED_EVENTS = ("round_trips", "element_decodes", "negative_indices", "bit_variations", "packed_arrays", "types", "width_alignments", "types_with_32bit_fields", "kernel_packs_interpreted", "kernel_packs_simulated", "schema_decodes")
ASSUMPTIONS = ("field values fit their declared bits", "nested fields are scalar, as the decorator requires")


def scenarios(tier, seed):
    n = 4 if tier == "quick" else 25
    q = [S(f"gen-{i}", "types", count=n) for i in range(6)]
    q += [S("gen-flat-big", "types", count=max(3, n // 2), depth=0, maxvals=200), S("gen-deep", "types", count=n, depth=4, maxvals=12), S("named", "types", count=3, names=["Bits", "AggN", "AggBig"])]
    q += [S(f"widths-{a}-{b}", "widths", lo=a, hi=b) for a, b in ((1, 9), (9, 17), (17, 25), (25, 33))]
    T = {"XV_ACCEL": "tpu"}  # packs with the Pallas kernel, in interpret mode
    G = {"XV_ACCEL": "gpu", "XTRUCTURE_AGG_BITPACK_PACK_BACKEND": "pallas"}
    q += [S("kernel-tpu", "types", count=n // 4, env=T), S("kernel-tpu-tile1", "types", count=n // 4, env=T | {"XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE": "1"}),
          S("kernel-gpu-tile3", "types", count=n // 4, env=G | {"XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE": "3"}), S("kernel-agree", "kernel", count=10 if tier == "quick" else 60, env=T)]
    return q
