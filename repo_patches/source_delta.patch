From ad1dda87905ffc1ab41e21b1fe39dcf670ad5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 01/35] fix: parallel_insert raised on CPU because lax.select
 got a scalar operand

Tables with bucket_size <= 32 hit jax.lax.select(mask, array, scalar), which
requires equal operand shapes, so every parallel_insert failed.
---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..84115a1 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -242,12 +242,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jax.lax.select(successful, slot_u32, jnp.zeros_like(slot_u32)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jax.lax.select(successful, bit, jnp.zeros_like(bit)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0


From 6afdc67ea1764f6e2bceb93d5c79a65b41411472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 02/35] fix: unique_mask lost valid rows that look like the
 padding sentinel, and rejected integer costs

Unfilled rows were given all-ones hashes, so an unfilled row with a smaller
index shadowed a filled row whose own key was all ones (e.g. a uint default).
Integer cost arrays raised OverflowError (inf cannot be cast).
---
 .../unique_ops/optimized_unique_ops.py        | 31 +++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..a516c8e 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -152,19 +152,10 @@ def unique_mask(
     if key is not None:
         key_arr = jnp.asarray(key)
         # Docstring semantics: entries with +inf cost are excluded.
-        finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
-        effective_filled = jnp.logical_and(effective_filled, finite_key)
-
-    # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
-    for i in range(len(hashes)):
-        dtype = hashes[i].dtype
-        if jnp.issubdtype(dtype, jnp.integer) or dtype == jnp.bool_:
-            max_val = jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
-        elif jnp.issubdtype(dtype, jnp.floating):
-            max_val = jnp.array(jnp.finfo(dtype).max, dtype=dtype)
-        else:
-            raise TypeError(f"Unsupported key dtype for unique_mask: {dtype}")
-        hashes[i] = jnp.where(effective_filled, hashes[i], max_val)
+        # Integer costs cannot be infinite, so only floating costs are filtered.
+        if jnp.issubdtype(key_arr.dtype, jnp.floating):
+            finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
+            effective_filled = jnp.logical_and(effective_filled, finite_key)
 
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
@@ -175,15 +166,16 @@ def unique_mask(
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
     if key is not None:
-        key_arr2 = jnp.asarray(key)
-        inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
-        valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
-        perm = _stable_sort_perm(perm, valid_key)
+        perm = _stable_sort_perm(perm, jnp.asarray(key))
 
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
 
+    # Invalid items sort to the end as a group of their own, so they can never
+    # share a group with (and shadow) a valid item whose key bits happen to match.
+    perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
+
     # 6. Compute unique mask from sorted hashes
     sorted_hashes = [h[perm] for h in hashes]
 
@@ -192,12 +184,13 @@ def unique_mask(
     is_diff = diffs[0]
     for d in diffs[1:]:
         is_diff = jnp.logical_or(is_diff, d)
+    sorted_filled = effective_filled[perm]
+    is_diff = jnp.logical_or(is_diff, sorted_filled[1:] != sorted_filled[:-1])
 
     mask_sorted = jnp.concatenate([jnp.array([True]), is_diff])
 
     # 7. Filter out the invalid group
-    is_valid_sorted = effective_filled[perm]
-    mask_sorted = jnp.logical_and(mask_sorted, is_valid_sorted)
+    mask_sorted = jnp.logical_and(mask_sorted, sorted_filled)
 
     # 8. Map back to original order
     final_mask = jnp.zeros(batch_len_i, dtype=jnp.bool_).at[perm].set(mask_sorted)
-- 
2.43.0


From c7e18ac01db68506ad4c17dcbcced85447846e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 03/35] fix: unique_mask merged distinct rows whose wide keys
 differ only in top bits

The four 32-bit lanes were linear in bit 31 of every column, so rows that
differ by an even number of sign bits (x vs -x in two float columns) always
collided in all lanes and one of them was dropped as a duplicate.
---
 .../unique_ops/optimized_unique_ops.py        | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index a516c8e..1e0ec80 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -43,28 +43,34 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
         h1, h2 = lax.fori_loop(1, k, _hash_to_wide_step_u64, (h1, h2))
         return [h1, h2]
     else:
-        # 128-bit via four uint32
-        h1 = keys[:, 0].astype(jnp.uint32)
-        h2 = keys[:, 0].astype(jnp.uint32)
-        h3 = keys[:, 0].astype(jnp.uint32)
-        h4 = keys[:, 0].astype(jnp.uint32)
+        # 128-bit via four uint32. Each step ends with an xor-shift (with a
+        # different distance per lane): without it the lanes are linear in the
+        # top bit, and e.g. negating two float columns collides in all four.
+        init = jnp.zeros((n,), dtype=jnp.uint32)
         c1 = jnp.uint32(0x9E3779B1)
         c2 = jnp.uint32(0x85EBCA6B)
         c3 = jnp.uint32(0xC2B2AE35)
-        c4 = jnp.uint32(0x278DDE6E)
+        c4 = jnp.uint32(0x278DDE6D)
+
+        def _mix(h, col, c, shift):
+            h = jnp.bitwise_xor(h, col) * c
+            return jnp.bitwise_xor(h, jnp.right_shift(h, jnp.uint32(shift)))
 
         def _hash_to_wide_step_u32(i, carry):
             hh1, hh2, hh3, hh4 = carry
             col = lax.dynamic_index_in_dim(keys, i, axis=1, keepdims=False).astype(
                 jnp.uint32
             )
-            hh1 = hh1 * c1 + col
-            hh2 = hh2 * c2 + col
-            hh3 = jnp.bitwise_xor(hh3, col) * c3
-            hh4 = jnp.bitwise_xor(hh4, col) * c4
-            return hh1, hh2, hh3, hh4
+            return (
+                _mix(hh1, col, c1, 13),
+                _mix(hh2, col, c2, 15),
+                _mix(hh3, col, c3, 16),
+                _mix(hh4, col, c4, 17),
+            )
 
-        h1, h2, h3, h4 = lax.fori_loop(1, k, _hash_to_wide_step_u32, (h1, h2, h3, h4))
+        h1, h2, h3, h4 = lax.fori_loop(
+            0, k, _hash_to_wide_step_u32, (init, init, init, init)
+        )
         return [h1, h2, h3, h4]
 
 
-- 
2.43.0


From a25b9e99d2662f06efc349b40099f7c6152db058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 04/35] fix: unique_mask truncated fractional columns of wide
 float key_fn keys

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 1e0ec80..2e4ab7d 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -24,6 +24,14 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
     if k <= max_direct_cols:
         return [keys[:, i] for i in range(k)]
 
+    if jnp.issubdtype(keys.dtype, jnp.floating):
+        # Hash float columns by bit pattern (an integer cast would truncate the
+        # fraction); zeros are unified because -0.0 == 0.0.
+        keys = keys.astype(jnp.promote_types(keys.dtype, jnp.float32))
+        keys = jnp.where(keys == 0, jnp.zeros_like(keys), keys)
+        int_dtype = jnp.uint64 if keys.dtype == jnp.float64 else jnp.uint32
+        keys = lax.bitcast_convert_type(keys, int_dtype)
+
     if use_x64:
         # 128-bit via two uint64
         h1 = keys[:, 0].astype(jnp.uint64)
-- 
2.43.0


From 59b9fa2eaebf4fb772e3b021f6c8415fcafd0b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/35] fix: parallel_insert unique_key lost precision for
 integers and let padding shadow rows

Integer costs were compared as float32, so the minimum-cost duplicate was not
chosen above 2**24; and with an infinite cost an unfilled row could be elected
representative of a filled one, which was then never inserted.
---
 xtructure/hashtable/hash_utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..a4b8057 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,13 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _worst_unique_key(dtype: Any) -> chex.Array:
+    """Largest cost of `dtype`, so that integer costs keep their exact values."""
+    if jnp.issubdtype(dtype, jnp.integer):
+        return jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
+    return jnp.array(jnp.inf, dtype=dtype)
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -272,14 +279,15 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+        worst_key = _worst_unique_key(sorted_unique_key.dtype)
+        masked_key = jnp.where(sorted_filled, sorted_unique_key, worst_key)
         min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+            jnp.full((batch_len,), worst_key, dtype=masked_key.dtype)
             .at[group_id]
             .min(masked_key)
         )
         candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
+            jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
             sorted_indices,
             batch_len_i32,
         )
@@ -418,14 +426,15 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+            worst_key = _worst_unique_key(sorted_unique_key.dtype)
+            masked_key = jnp.where(sorted_filled, sorted_unique_key, worst_key)
             min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+                jnp.full((batch_len,), worst_key, dtype=masked_key.dtype)
                 .at[group_id]
                 .min(masked_key)
             )
             candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
+                jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
                 sorted_indices,
                 batch_len_i32,
             )
-- 
2.43.0


From 7e0032409aece629fc5522c3c6a1f1b3b3e8da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 06/35] fix: items inserted beyond the probe budget could never
 be looked up

With a custom max_probes, both insert paths could place an item in a bucket
that lookups do not reach, so a reported insertion was not found (and could
be repeated). Insertion now stops where lookup stops.
---
 xtructure/hashtable/insert.py | 82 ++++++++++++++++++++++++-----------
 xtructure/hashtable/lookup.py | 16 ++++---
 2 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 84115a1..8b4a351 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -112,7 +112,10 @@ def _hashtable_insert_jit(
 
     idx, found, fingerprint = _hashtable_lookup_bucket_jit(table, input)
 
-    is_empty = idx.slot_index >= table.bucket_fill_levels[idx.index]
+    is_empty = jnp.logical_and(
+        idx.slot_index >= table.bucket_fill_levels[idx.index],
+        idx.slot_index < table.bucket_size,
+    )
     can_insert = jnp.logical_and(jnp.logical_not(found), is_empty)
 
     def _no_insert():
@@ -138,38 +141,64 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes_used: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
+    bucket_probes = SIZE_DTYPE(table.bucket_size)
+    max_probes = SIZE_DTYPE(int(table.max_probes))
 
-    def _advance(idx: Any, step: chex.Array) -> Any:
+    def _advance(
+        idx: Any, used: chex.Array, step: chex.Array
+    ) -> tuple[Any, chex.Array]:
         next_bucket = idx.slot_index >= (table.bucket_size - 1)
 
-        def _next_bucket() -> Any:
+        def _next_bucket() -> tuple[Any, chex.Array]:
             mask = capacity - SIZE_DTYPE(1)
             next_index = (idx.index + step) & mask
             bucket_fill = table.bucket_fill_levels[next_index]
-            return BucketIdxCls(
-                index=SIZE_DTYPE(next_index),
-                slot_index=SLOT_IDX_DTYPE(bucket_fill),
+            return (
+                BucketIdxCls(
+                    index=SIZE_DTYPE(next_index),
+                    slot_index=SLOT_IDX_DTYPE(bucket_fill),
+                ),
+                used + bucket_probes,
+            )
+
+        def _exhausted() -> tuple[Any, chex.Array]:
+            # Lookups stop here as well, so no later bucket may hold this item.
+            return (
+                BucketIdxCls(
+                    index=idx.index, slot_index=SLOT_IDX_DTYPE(table.bucket_size)
+                ),
+                used,
             )
 
-        def _same_bucket() -> Any:
-            return BucketIdxCls(
-                index=idx.index,
-                slot_index=SLOT_IDX_DTYPE(idx.slot_index + 1),
+        def _same_bucket() -> tuple[Any, chex.Array]:
+            return (
+                BucketIdxCls(
+                    index=idx.index,
+                    slot_index=SLOT_IDX_DTYPE(idx.slot_index + 1),
+                ),
+                used,
             )
 
-        return jax.lax.cond(next_bucket, _next_bucket, _same_bucket)
+        return jax.lax.cond(
+            next_bucket,
+            lambda: jax.lax.cond(used < max_probes, _next_bucket, _exhausted),
+            _same_bucket,
+        )
 
-    def _next_idx(idxs: Any, unupdateds: chex.Array) -> Any:
+    def _next_idx(
+        idxs: Any, used: chex.Array, unupdateds: chex.Array
+    ) -> tuple[Any, chex.Array]:
         return jax.vmap(
-            lambda active, current_idx, step: jax.lax.cond(
+            lambda active, current_idx, current_used, step: jax.lax.cond(
                 active,
-                lambda: _advance(current_idx, step),
-                lambda: current_idx,
+                lambda: _advance(current_idx, current_used, step),
+                lambda: (current_idx, current_used),
             )
-        )(unupdateds, idxs, probe_steps)
+        )(unupdateds, idxs, used, probe_steps)
 
     valid_initial = index.slot_index < table.bucket_size
     flat_initial_slots = index.index * SIZE_DTYPE(
@@ -184,15 +213,15 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes = val
+    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
+        _, _, pending, probes = val
         return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array]:
-        idxs, pending, probes = val
-        updated_idxs = _next_idx(idxs, pending)
+        val: tuple[Any, chex.Array, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
+        idxs, used, pending, probes = val
+        updated_idxs, used = _next_idx(idxs, used, pending)
 
         valid = updated_idxs.slot_index < table.bucket_size
         flat_updated_slots = updated_idxs.index * SIZE_DTYPE(
@@ -206,10 +235,10 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1
+        return updated_idxs, used, next_pending, probes + 1
 
-    index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.uint32(0))
+    index, _, pending, _ = jax.lax.while_loop(
+        _cond, _body, (index, probes_used, pending, jnp.uint32(0))
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
@@ -441,7 +470,7 @@ def _hashtable_parallel_insert_jit(
         )
 
         initial_found = jnp.logical_not(unique_filled)
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, probes_used = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idx,
@@ -495,6 +524,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                probes_used,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..9823f49 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -97,6 +97,11 @@ def _hashtable_lookup_internal(
         bucket_full = filled_limit_u32 == bucket_size_u32
         should_stop = jnp.logical_or(new_found, jnp.logical_not(bucket_full))
 
+        # Out of probes: stay on the last examined bucket (its slot index is then
+        # bucket_size, i.e. not insertable), as lookups never look any further.
+        next_probes = probes + bucket_size_u32
+        should_stop = jnp.logical_or(should_stop, next_probes >= max_probes_u32)
+
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
 
@@ -108,8 +113,7 @@ def _hashtable_lookup_internal(
             ),
         )
 
-        probes = probes + bucket_size_u32
-        probes = cast(jax.Array, jnp.where(should_stop, max_probes_u32, probes))
+        probes = cast(jax.Array, jnp.where(should_stop, max_probes_u32, next_probes))
         return updated_idx, new_found, probes
 
     idx, found, _ = jax.lax.while_loop(_cond, _body, (idx, found, jnp.uint32(0)))
@@ -146,7 +150,7 @@ def _hashtable_lookup_parallel_internal(
     fingerprints: chex.Array,
     founds: chex.Array,
     active: chex.Array | None = None,
-) -> tuple[Any, chex.Array]:
+) -> tuple[Any, chex.Array, chex.Array]:
     if active is None:
         active = jnp.ones(inputs.shape.batch, dtype=jnp.bool_)
 
@@ -293,10 +297,10 @@ def _hashtable_lookup_parallel_internal(
         active = continue_mask
         return idxs, founds, probes, active
 
-    idxs, founds, _, _ = jax.lax.while_loop(
+    idxs, founds, probes, _ = jax.lax.while_loop(
         _cond, _body, (idxs, founds, probes, active)
     )
-    return idxs, founds
+    return idxs, founds, probes
 
 
 @jax.jit
@@ -320,7 +324,7 @@ def _hashtable_lookup_parallel_jit(
         )
         founds = jnp.zeros(batch_size, dtype=jnp.bool_)
 
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, _ = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idxs,
-- 
2.43.0


From 1d5e55afe8c4b3af40edb9f45e97b058c961c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 07/35] fix: concat and stack mixed up batch and intrinsic axes
 for negative axis

concat validated the axis against the batch shape but applied the raw negative
axis to each field, so fields with intrinsic dimensions were joined along the
wrong axis and the result was no longer a batch; stack did the same.
---
 .../xtructure_numpy/dataclass_ops/batch_ops.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..950bc0c 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -66,7 +66,7 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
         first_batch_shape = dataclasses[0].shape.batch
         concat_axis_adjusted = axis if axis >= 0 else len(first_batch_shape) + axis
 
-        if concat_axis_adjusted >= len(first_batch_shape):
+        if not 0 <= concat_axis_adjusted < len(first_batch_shape):
             raise ValueError(
                 f"Concatenation axis {axis} is out of bounds for batch shape {first_batch_shape}"
             )
@@ -85,7 +85,8 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
                     )
 
         return jax.tree_util.tree_map(
-            lambda *arrays: jnp.concatenate(arrays, axis=axis), *dataclasses
+            lambda *arrays: jnp.concatenate(arrays, axis=concat_axis_adjusted),
+            *dataclasses,
         )
 
     raise ValueError(
@@ -174,6 +175,16 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
     if not dataclasses:
         raise ValueError("Cannot stack empty list of dataclasses")
 
+    # A negative axis counts from the end of the stacked batch dimensions, never
+    # from the intrinsic dimensions of a field.
+    batch_shape = dataclasses[0].shape.batch
+    if axis < 0 and isinstance(batch_shape, tuple):
+        if axis < -len(batch_shape) - 1:
+            raise ValueError(
+                f"Stack axis {axis} is out of bounds for batch shape {batch_shape}"
+            )
+        axis += len(batch_shape) + 1
+
     if len(dataclasses) == 1:
         return jax.tree_util.tree_map(
             lambda x: jnp.expand_dims(x, axis=axis), dataclasses[0]
-- 
2.43.0


From 9a40d2975361e6a273156414b05ddc904c390c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/35] fix: xnp.where misaligned per-record conditions on
 fields with intrinsic dimensions

A condition of batch shape was broadcast against the trailing axes of every
field: it raised for most tensor fields (the README example included) and
silently mixed records when the trailing size happened to match.
---
 .../core/xtructure_numpy/dataclass_ops/logical_ops.py     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index fc4461c..6e6a630 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -16,8 +16,16 @@ def where(
 ) -> Xtructurable:
     """Apply jnp.where across every field of a dataclass."""
     condition_array = jnp.asarray(condition, dtype=jnp.bool_)
+    batch_shape = getattr(getattr(x, "shape", None), "batch", None)
+    is_record_mask = condition_array.ndim > 0 and condition_array.shape == batch_shape
 
     def _align_condition(target_shape: tuple[int, ...]) -> jnp.ndarray:
+        if is_record_mask:
+            # One flag per record: align with the batch axes of every field.
+            trailing = (1,) * (len(target_shape) - condition_array.ndim)
+            return jnp.broadcast_to(
+                condition_array.reshape(batch_shape + trailing), target_shape
+            )
         if condition_array.shape == target_shape:
             return condition_array
         try:
-- 
2.43.0


From ad4051ab9ccbde772732956da64c7c60eefba730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 09/35] fix: unpack_field read other fields' bits for negative
 or out-of-range indices

Negative indices and slices with negative bounds/steps or a large stop were not
normalised, so the decoder read bits outside the requested field.
---
 .../aggregate_bitpack/__init__.py                    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..5e3b89e 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,13 +260,13 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
+            start, stop, step = indices.indices(nvalues)
             return jnp.arange(start, stop, step, dtype=jnp.int32)
-        if isinstance(indices, (list, tuple, np.ndarray)):
-            return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-        return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
+        idxs = jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
+        # Same conventions as jnp indexing (negative wraps, out of range clamps);
+        # anything else would read the bits of a neighbouring field.
+        idxs = jnp.where(idxs < 0, idxs + nvalues, idxs)
+        return jnp.clip(idxs, 0, max(nvalues - 1, 0))
 
     def _decode_field(row_words: jax.Array, s: _AggLeafSpec, indices: Any) -> jax.Array:
         """Decode selected flattened indices for one field from a single row of words."""
-- 
2.43.0


From 5c924d91a4f1ae1438b2be34463a70e59b40aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 10/35] fix: conditional updates failed or hit wrong cells for
 multi-dimensional and narrow indices

Per-update values of multi-dimensional updates were not flattened with their
indices (ValueError, silently ignored by at[].set_as_condition), out-of-bounds
tuple indices were clipped onto edge cells instead of dropped, and index
dtypes too narrow for the array length overflowed.
---
 xtructure/core/xtructure_numpy/array_ops.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..2a8e14a 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -27,6 +27,11 @@ def _update_array_on_condition(
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
         raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
+        # Out-of-bounds entries are dropped, as for 1D indices.
+        for axis_indices, dim in zip(indices, batch_shape):
+            axis_indices = jnp.asarray(axis_indices)
+            axis_ok = jnp.logical_and(axis_indices >= 0, axis_indices < dim)
+            raveled_indices = jnp.where(axis_ok, raveled_indices, flat_batch_size)
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
@@ -44,7 +49,13 @@ def _update_array_on_condition(
             f"`condition` shape {condition.shape} must match `indices` shape {indices_array.shape}."
         )
 
+    update_shape = indices_array.shape
     indices_array = jnp.reshape(indices_array, (num_updates,))
+    if jnp.issubdtype(indices_array.dtype, jnp.integer) and (
+        original_array.shape[0] > jnp.iinfo(indices_array.dtype).max
+    ):
+        # The out-of-bounds sentinel must be representable.
+        indices_array = indices_array.astype(jnp.int32)
     index_dtype = indices_array.dtype
     invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
@@ -83,6 +94,12 @@ def _update_array_on_condition(
 
     safe_indices = jnp.where(winners, indices_array, invalid_index)
     value_array = jnp.asarray(values_to_set, dtype=original_array.dtype)
+    if (
+        len(update_shape) > 1
+        and value_array.shape == update_shape + original_array.shape[1:]
+    ):
+        # The updates were flattened; flatten per-update values alike.
+        value_array = value_array.reshape((num_updates,) + original_array.shape[1:])
     return original_array.at[safe_indices].set(value_array, mode="drop")
 
 
-- 
2.43.0


From 6637fe689b193edc2a6b368eb19266cb36748e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/35] fix: at[slice].set_as_condition silently ignored the
 update

Slices are documented but raised inside the array helper, and the error was
swallowed, so the instance came back unchanged.
---
 .../core/xtructure_decorators/indexing.py     | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 7408932..03fa8ca 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -8,6 +8,25 @@ from ..xtructure_numpy.array_ops import _update_array_on_condition
 T = TypeVar("T")
 
 
+def _has_slice(index: Any) -> bool:
+    """True for a basic (duplicate-free) index that contains a slice or ellipsis."""
+    parts = index if isinstance(index, tuple) else (index,)
+    return any(isinstance(p, slice) or p is Ellipsis for p in parts) and all(
+        isinstance(p, (slice, int)) or p is Ellipsis for p in parts
+    )
+
+
+def _update_slice_on_condition(array, index, condition, value):
+    """Conditional update of a sliced region; `condition` leads the region's axes."""
+    current = array[index]
+    condition = jnp.asarray(condition, dtype=jnp.bool_)
+    condition = condition.reshape(
+        condition.shape + (1,) * (current.ndim - condition.ndim)
+    )
+    value = jnp.asarray(value, dtype=array.dtype)
+    return array.at[index].set(jnp.where(condition, value, current))
+
+
 class _Updater:
     def __init__(self, obj_instance, index):
         self.obj_instance = obj_instance
@@ -136,7 +155,12 @@ class _Updater:
 
                     # Array-like update path.
                     if hasattr(nested_updater, "set"):
-                        new_field_data[field_name] = _update_array_on_condition(
+                        update = (
+                            _update_slice_on_condition
+                            if _has_slice(self.indices)
+                            else _update_array_on_condition
+                        )
+                        new_field_data[field_name] = update(
                             original_field_value,
                             self.indices,
                             condition,
-- 
2.43.0


From 7e8826474ab045261ef61f26c0e8ea3f7245237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 12/35] fix: load failed for bfloat16/float8 fields and for
 paths saved without suffix

npz stores extension dtypes as raw void bytes, and savez appends .npz to the
path it is given; load handled neither.
---
 xtructure/io/io.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..3825f72 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -145,7 +145,11 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                array = data[full_key]
+                if array.dtype.kind == "V" and field_descriptor is not None:
+                    # npz stores extension dtypes (bfloat16, float8) as raw bytes.
+                    array = array.view(np.dtype(field_descriptor.dtype))
+                field_values[field_name] = jnp.array(array)
     return field_values
 
 
@@ -162,6 +166,11 @@ def load(path: str) -> Xtructurable:
     Returns:
         A new instance of the saved xtructure dataclass.
     """
+    # np.savez appends the suffix when it is missing; follow it.
+    path = os.fspath(path)
+    if not path.endswith(".npz") and os.path.exists(f"{path}.npz"):
+        path = f"{path}.npz"
+
     with np.load(path, allow_pickle=False) as data:
         # Extract metadata
         if METADATA_MODULE_KEY not in data or METADATA_CLASS_NAME_KEY not in data:
-- 
2.43.0


From 6261b1b7c1b14b822d44f0147f09841669d5a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 13/35] fix: from_tuple raised instead of rebuilding the
 instance

---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..30dc41f 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0


From 380a50801309b6e6cc48f657f33bf859f0e7a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/35] fix: generated packed types could not be loaded or
 unpickled

---
 .../xtructure_decorators/aggregate_bitpack/__init__.py     | 7 ++++++-
 xtructure/io/io.py                                         | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 5e3b89e..9f8a99c 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -50,7 +50,12 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
     packed_name = f"{cls.__name__}Packed"
 
     # Create class dynamically so user doesn't have to write it.
-    Packed = type(packed_name, (), {"__module__": cls.__module__})
+    # The qualified name says where the class can be found (io.load, pickle).
+    Packed = type(
+        packed_name,
+        (),
+        {"__module__": cls.__module__, "__qualname__": f"{cls.__qualname__}.Packed"},
+    )
 
     # Attach xtructure annotations: words + tail.
     Packed.__annotations__ = {
diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 3825f72..238be26 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -2,6 +2,7 @@
 
 import dataclasses
 import importlib
+import operator
 import os
 from typing import Any, Dict, Tuple
 
@@ -96,7 +97,9 @@ def save(path: str, instance: Xtructurable, *, packed: bool = True):
     # Add metadata for reconstruction
     cls = instance.__class__
     data_to_save[METADATA_MODULE_KEY] = np.array(cls.__module__)
-    data_to_save[METADATA_CLASS_NAME_KEY] = np.array(cls.__name__)
+    # The qualified name also finds classes nested in others (e.g. `Foo.Packed`).
+    class_name = cls.__name__ if "<locals>" in cls.__qualname__ else cls.__qualname__
+    data_to_save[METADATA_CLASS_NAME_KEY] = np.array(class_name)
 
     # Ensure the directory exists
     directory = os.path.dirname(path)
@@ -184,7 +187,7 @@ def load(path: str) -> Xtructurable:
         # Dynamically import the class
         try:
             module = importlib.import_module(module_name)
-            cls = getattr(module, class_name)
+            cls = operator.attrgetter(class_name)(module)
         except (ImportError, AttributeError) as e:
             raise ImportError(
                 f"Could not find class '{class_name}' in module '{module_name}'. "
-- 
2.43.0


From 88c2506e17b257e9e224e39a1b98ffd703ec7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 15/35] fix: parallel_insert gave up on rows displaced late
 although free slots remained

---
 xtructure/hashtable/insert.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 8b4a351..43c6d81 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -213,14 +213,19 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    def _cond(val: tuple[Any, chex.Array, chex.Array, chex.Array]) -> chex.Array:
-        _, _, pending, probes = val
-        return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
+    def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
+        # A settled row can be displaced late, so rounds are not bounded by max_probes;
+        # every round moves all these rows along their own finite probe sequences.
+        idxs, used, pending = val
+        can_advance = jnp.logical_or(
+            idxs.slot_index < table.bucket_size, used < max_probes
+        )
+        return jnp.any(jnp.logical_and(pending, can_advance))
 
     def _body(
-        val: tuple[Any, chex.Array, chex.Array, chex.Array],
-    ) -> tuple[Any, chex.Array, chex.Array, chex.Array]:
-        idxs, used, pending, probes = val
+        val: tuple[Any, chex.Array, chex.Array],
+    ) -> tuple[Any, chex.Array, chex.Array]:
+        idxs, used, pending = val
         updated_idxs, used = _next_idx(idxs, used, pending)
 
         valid = updated_idxs.slot_index < table.bucket_size
@@ -235,10 +240,10 @@ def _hashtable_parallel_insert_internal(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, used, next_pending, probes + 1
+        return updated_idxs, used, next_pending
 
-    index, _, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, probes_used, pending, jnp.uint32(0))
+    index, _, pending = jax.lax.while_loop(
+        _cond, _body, (index, probes_used, pending)
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
-- 
2.43.0


From b3e83167fb86d5c294bc0efc5e4ede2fff4d9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 16/35] fix: masked updates under jit were silently dropped

---
 xtructure/core/xtructure_decorators/indexing.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 03fa8ca..4d421cc 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -1,12 +1,17 @@
 from operator import attrgetter
 from typing import Any, Type, TypeVar
 
+import jax
 import jax.numpy as jnp
 
 from ..xtructure_numpy.array_ops import _update_array_on_condition
 
 T = TypeVar("T")
 
+# Indices that cannot be traced (e.g. a boolean mask under jit) must be reported,
+# not mistaken for a field that cannot be updated.
+_TRACING_ERRORS = (jax.errors.JAXIndexError, jax.errors.JAXTypeError)
+
 
 def _has_slice(index: Any) -> bool:
     """True for a basic (duplicate-free) index that contains a slice or ellipsis."""
@@ -86,6 +91,8 @@ class _Updater:
                     new_field_data[field_name] = updater_ref.set(value_for_this_field)
                 else:
                     new_field_data[field_name] = current_field_value
+            except _TRACING_ERRORS:
+                raise
             except (AttributeError, TypeError, IndexError, KeyError, ValueError):
                 # Preserve legacy behavior: if a field can't be updated, keep original value.
                 new_field_data[field_name] = current_field_value
@@ -169,6 +176,8 @@ class _Updater:
                         continue
 
                 new_field_data[field_name] = original_field_value
+            except _TRACING_ERRORS:
+                raise
             except Exception:
                 # Preserve legacy behavior: if a field can't be updated, keep original value.
                 new_field_data[field_name] = original_field_value
-- 
2.43.0


From 99fc57a30a1e96831c6ee10b29e40910e24584a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 17/35] fix: fields named file or allow_pickle could not be
 saved

---
 xtructure/io/io.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 238be26..770ffd3 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -22,6 +22,16 @@ METADATA_CLASS_NAME_KEY = "__xtructure_class_name__"
 
 _BITPACK_PREFIX = "__xtructure_bitpack__"
 
+# Parameter names of np.savez_compressed; an array cannot be stored under these names.
+_RESERVED_KEYS = ("file", "allow_pickle")
+_RESERVED_PREFIX = "__xtructure_field__"
+
+
+def _storage_key(full_key: str) -> str:
+    if full_key in _RESERVED_KEYS:
+        return f"{_RESERVED_PREFIX}.{full_key}"
+    return full_key
+
 
 def _bitpack_keys(full_key: str) -> Tuple[str, str, str, str]:
     # Use separate arrays so we can keep npz backward compatible and inspectable.
@@ -69,10 +79,10 @@ def _flatten_instance_for_save(
                     np.array(str(jnp.asarray(value).dtype), dtype=np.str_)
                 )
             else:
-                flat_data[full_key] = np.asarray(value)
+                flat_data[_storage_key(full_key)] = np.asarray(value)
         else:
             # For non-array-like fields, save as 0-dim array
-            flat_data[full_key] = np.array(value)
+            flat_data[_storage_key(full_key)] = np.array(value)
     return flat_data
 
 
@@ -146,9 +156,9 @@ def _unflatten_data_for_load(
                     except TypeError:
                         pass
                 field_values[field_name] = unpacked
-            elif full_key in data:
+            elif _storage_key(full_key) in data:
                 # Load JAX array from NumPy array
-                array = data[full_key]
+                array = data[_storage_key(full_key)]
                 if array.dtype.kind == "V" and field_descriptor is not None:
                     # npz stores extension dtypes (bfloat16, float8) as raw bytes.
                     array = array.view(np.dtype(field_descriptor.dtype))
-- 
2.43.0


From b19ccff03e31d42eb22e49b91e97b163c225d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 18/35] fix: saving an empty batch of a type with declared bits
 raised ZeroDivisionError

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..23df1db 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -145,6 +145,9 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     """
     assert 1 <= active_bits <= 32, f"active_bits must be 1-32, got {active_bits}"
 
+    if values.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
+
     if active_bits == 1:
         flatten_input = values.reshape((-1,))
         if flatten_input.dtype != jnp.bool_:
-- 
2.43.0


From 424f2144a835a24a23ddbf6ce36a7e9d7db3029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 19/35] fix: packed tensor fields of empty batches or without
 elements raised ZeroDivisionError

---
 .../xtructure_decorators/bitpack_accessors.py | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index ac5fbf6..e216205 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -103,12 +103,11 @@ def _unpack_value(
             f"got {packed_arr.shape[-1]}."
         )
 
-    flat = packed_arr.reshape((-1, expected_packed_len))
+    num_rows = int(np.prod(np.array(batch_shape, dtype=np.int64)))
+    flat = packed_arr.reshape((num_rows, expected_packed_len))
 
-    if num_values == 0:
-        out_dtype = jnp.bool_ if packed_bits == 1 else jnp.uint8
-        out = jnp.zeros((flat.shape[0], 0), dtype=out_dtype)
-        return out.reshape(batch_shape + unpacked_shape)
+    if num_values == 0 or num_rows == 0:
+        return jnp.zeros(batch_shape + unpacked_shape, dtype=unpacked_dtype)
 
     if packed_bits == 1:
         bits = jnp.unpackbits(flat, count=num_values, bitorder="little", axis=1)
@@ -124,9 +123,10 @@ def _unpack_value(
             flat, ((0, 0), (0, pad_bytes)), mode="constant", constant_values=0
         )
 
+    num_words = flat.shape[1] // 4
     words = jax.lax.bitcast_convert_type(
-        flat.reshape((flat.shape[0], -1, 4)), jnp.uint32
-    ).reshape((flat.shape[0], -1))
+        flat.reshape((num_rows, num_words, 4)), jnp.uint32
+    ).reshape((num_rows, num_words))
     words_padded = jnp.concatenate(
         [words, jnp.zeros((words.shape[0], 1), dtype=jnp.uint32)], axis=1
     )
@@ -183,12 +183,11 @@ def _pack_value(
     num_values = int(np.prod(np.array(unpacked_shape, dtype=np.int64)))
     expected_packed_len = packed_num_bytes(num_values, packed_bits)
 
-    flat = arr.reshape((-1, num_values))
+    num_rows = int(np.prod(np.array(batch_shape, dtype=np.int64)))
+    flat = arr.reshape((num_rows, num_values))
 
-    if num_values == 0:
-        return jnp.zeros((flat.shape[0], expected_packed_len), dtype=jnp.uint8).reshape(
-            batch_shape + (expected_packed_len,)
-        )
+    if num_values == 0 or num_rows == 0:
+        return jnp.zeros(batch_shape + (expected_packed_len,), dtype=jnp.uint8)
 
     if packed_bits == 1:
         bits = flat
@@ -222,7 +221,7 @@ def _pack_value(
 
     words = pack_words_all_xla(jnp.asarray(flat, dtype=jnp.uint32), tables)
     bytes_all = jax.lax.bitcast_convert_type(words, jnp.uint8).reshape(
-        (flat.shape[0], -1)
+        (num_rows, words.shape[1] * 4)
     )
     packed = bytes_all[:, :expected_packed_len]
     return packed.reshape(batch_shape + (expected_packed_len,)).astype(jnp.uint8)
-- 
2.43.0


From 864e856637ea7064e894cd79e16b5d6c0b7e52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 20/35] fix: unique_mask merged packable records that differ
 only in the packed tail

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 2e4ab7d..13df9e1 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -122,7 +122,9 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                packed = x.packed
+                # `words` holds whole 32-bit words only; the rest is in `tail`.
+                return jnp.concatenate([packed.words, packed.tail.astype(jnp.uint32)])
             return x.uint32ed
 
         key_fn_local = _key_fn
-- 
2.43.0


From 3df890908cd2fe5e2381d205f256b1aa03e86b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 21/35] fix: unique_mask merged 64-bit keys that differ in the
 top bits of several columns

---
 .../unique_ops/optimized_unique_ops.py        | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 13df9e1..0205d84 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -33,22 +33,23 @@ def _hash_to_wide(keys: Any) -> list[jax.Array]:
         keys = lax.bitcast_convert_type(keys, int_dtype)
 
     if use_x64:
-        # 128-bit via two uint64
-        h1 = keys[:, 0].astype(jnp.uint64)
-        h2 = keys[:, 0].astype(jnp.uint64)
-        c1 = jnp.uint64(0x9E3779B1)
-        c2 = jnp.uint64(0x85EBCA6B)
+        # 128-bit via two uint64, each step ending with an xor-shift (see below).
+        init = jnp.zeros((n,), dtype=jnp.uint64)
+        c1 = jnp.uint64(0x9E3779B97F4A7C15)
+        c2 = jnp.uint64(0xC2B2AE3D27D4EB4F)
+
+        def _mix64(h, col, c, shift):
+            h = jnp.bitwise_xor(h, col) * c
+            return jnp.bitwise_xor(h, jnp.right_shift(h, jnp.uint64(shift)))
 
         def _hash_to_wide_step_u64(i, carry):
             hh1, hh2 = carry
             col = lax.dynamic_index_in_dim(keys, i, axis=1, keepdims=False).astype(
                 jnp.uint64
             )
-            hh1 = hh1 * c1 + col
-            hh2 = hh2 * c2 + col
-            return hh1, hh2
+            return _mix64(hh1, col, c1, 29), _mix64(hh2, col, c2, 32)
 
-        h1, h2 = lax.fori_loop(1, k, _hash_to_wide_step_u64, (h1, h2))
+        h1, h2 = lax.fori_loop(0, k, _hash_to_wide_step_u64, (init, init))
         return [h1, h2]
     else:
         # 128-bit via four uint32. Each step ends with an xor-shift (with a
-- 
2.43.0


From fdd25863c4fc4a51a701c216bf3cb9cfccdade2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 22/35] fix: conditional updates through tuples of narrow or
 mixed integer indices hit wrong cells

---
 xtructure/core/xtructure_numpy/array_ops.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index 2a8e14a..b110cc0 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -26,12 +26,23 @@ def _update_array_on_condition(
         flat_batch_size = np.prod(batch_shape).item()
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
-        raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
         # Out-of-bounds entries are dropped, as for 1D indices.
+        in_bounds = jnp.array(True)
+        safe_indices = []
         for axis_indices, dim in zip(indices, batch_shape):
             axis_indices = jnp.asarray(axis_indices)
-            axis_ok = jnp.logical_and(axis_indices >= 0, axis_indices < dim)
-            raveled_indices = jnp.where(axis_ok, raveled_indices, flat_batch_size)
+            if jnp.issubdtype(axis_indices.dtype, jnp.integer):
+                if axis_indices.dtype.itemsize < 4:
+                    axis_indices = axis_indices.astype(jnp.int32)
+                axis_ok = jnp.logical_and(axis_indices >= 0, axis_indices < dim)
+                in_bounds = jnp.logical_and(in_bounds, axis_ok)
+                # A common type wide enough for the raveled positions.
+                axis_indices = jnp.where(axis_ok, axis_indices, 0).astype(jnp.int32)
+            safe_indices.append(axis_indices)
+        raveled_indices = jnp.ravel_multi_index(
+            tuple(safe_indices), batch_shape, mode="clip"
+        )
+        raveled_indices = jnp.where(in_bounds, raveled_indices, flat_batch_size)
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
-- 
2.43.0


From 4e6f1a0660d4a80042ae4e14c0f7e20b70f8fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 23/35] fix: where with a Python scalar fill changed integer
 field types and corrupted large unsigned values

---
 xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index 6e6a630..b36583a 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -71,7 +71,8 @@ def where(
                 "broadcast to match `x` field shape {x_field.shape}."
                 f"Original `y` shape: {scalar_value.shape}, `x` shape: {x_field.shape}."
             ) from err
-        target_dtype = jnp.result_type(x_field.dtype, y_array.dtype)
+        # As in jnp.where, a Python scalar does not promote integer fields.
+        target_dtype = jnp.result_type(x_field, scalar_value)
         return _where_no_broadcast(
             cond,
             jnp.asarray(x_field, dtype=target_dtype),
-- 
2.43.0


From bf3d242f9eca6bc72af9d7a0bb70300161ca3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 24/35] fix: conditional updates through boolean masks, mixed
 indices or with a scalar condition were silently dropped

---
 .../core/xtructure_decorators/indexing.py     | 59 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index 4d421cc..cec52d5 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -1,3 +1,4 @@
+import math
 from operator import attrgetter
 from typing import Any, Type, TypeVar
 
@@ -17,7 +18,11 @@ def _has_slice(index: Any) -> bool:
     """True for a basic (duplicate-free) index that contains a slice or ellipsis."""
     parts = index if isinstance(index, tuple) else (index,)
     return any(isinstance(p, slice) or p is Ellipsis for p in parts) and all(
-        isinstance(p, (slice, int)) or p is Ellipsis for p in parts
+        isinstance(p, slice)
+        or p is Ellipsis
+        or p is None
+        or (jnp.ndim(p) == 0 and jnp.result_type(p) != jnp.bool_)
+        for p in parts
     )
 
 
@@ -32,6 +37,56 @@ def _update_slice_on_condition(array, index, condition, value):
     return array.at[index].set(jnp.where(condition, value, current))
 
 
+def _cell_numbers(shape, index):
+    numbers = jnp.arange(math.prod(shape)).reshape(shape)
+    return numbers.at[index].get(mode="fill", fill_value=-1)
+
+
+def _update_cells_on_condition(array, index, condition, value):
+    """Conditional update at integer positions, boolean masks or mixed indices."""
+    condition = jnp.asarray(condition, dtype=jnp.bool_)
+    parts = index if isinstance(index, tuple) else (index,)
+    trailing_ellipsis = bool(parts) and parts[-1] is Ellipsis
+    if trailing_ellipsis:
+        index = parts = parts[:-1]
+    is_mask = [getattr(p, "dtype", None) == jnp.bool_ for p in parts]
+
+    if not (
+        trailing_ellipsis
+        or any(is_mask)
+        or any(isinstance(p, slice) or p is None for p in parts)
+    ):
+        positions_shape = jnp.broadcast_shapes(*(jnp.shape(p) for p in parts))
+        if condition.ndim == 0:
+            condition = jnp.broadcast_to(condition, positions_shape)
+        return _update_array_on_condition(array, index, condition, value)
+
+    # Number the cells of the indexed axes and update them through those numbers;
+    # positions outside the array get the number -1, which is never updated.
+    rank = sum(
+        p.ndim if mask else int(p is not None) for p, mask in zip(parts, is_mask)
+    )
+    cell_shape = array.shape[:rank]
+    positions = _cell_numbers(cell_shape, index)
+    if condition.ndim > positions.ndim:
+        # The condition also covers batch axes behind the indexed ones.
+        rank += condition.ndim - positions.ndim
+        cell_shape = array.shape[:rank]
+        positions = _cell_numbers(cell_shape, index)
+    item_shape = array.shape[rank:]
+    condition = jnp.broadcast_to(
+        condition.reshape(condition.shape + (1,) * (positions.ndim - condition.ndim)),
+        positions.shape,
+    )
+    value = jnp.broadcast_to(
+        jnp.asarray(value, dtype=array.dtype), positions.shape + item_shape
+    )
+    flat = array.reshape((math.prod(cell_shape),) + item_shape)
+    return _update_array_on_condition(flat, positions, condition, value).reshape(
+        array.shape
+    )
+
+
 class _Updater:
     def __init__(self, obj_instance, index):
         self.obj_instance = obj_instance
@@ -165,7 +220,7 @@ class _Updater:
                         update = (
                             _update_slice_on_condition
                             if _has_slice(self.indices)
-                            else _update_array_on_condition
+                            else _update_cells_on_condition
                         )
                         new_field_data[field_name] = update(
                             original_field_value,
-- 
2.43.0


From 743a419f6bc919ea825059c60712616992ed4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 25/35] fix: shape of a record holding an unstructured nested
 array raised TypeError

---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..974cb58 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -79,7 +79,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 and shape.__class__.__name__ == "shape"
             ):
                 # If the field is itself a xtructure_dataclass (nested shape_tuple)
-                if default_shape_field == ():
+                if shape.batch == -1:
+                    # An unstructured nested field has no batch shape to strip.
+                    batch_shapes.append(-1)
+                elif default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
                 elif shape.batch[-len(default_shape_field) :] == default_shape_field:
-- 
2.43.0


From c8dac0c51c342263394adeb47da4cd7f18112432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 26/35] fix: instances could not be pickled once their shape or
 dtype had been read

---
 xtructure/core/dataclass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 30dc41f..361b656 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -134,7 +134,10 @@ class _Dataclass:
             return dataclasses.replace(self, **kwargs)
 
         def _getstate(self):
-            return self.__dict__
+            # Derived caches are recomputed on demand and cannot all be pickled.
+            return {
+                k: v for k, v in self.__dict__.items() if k not in _INTERNAL_CACHE_KEYS
+            }
 
         # Register the dataclass at definition. As long as the dataclass is defined
         # outside __main__, this is sufficient to make JAX's PyTree registry
-- 
2.43.0


From 8f8a4863d46707265ea681d8c9829ca8e13f2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 27/35] fix: validating a record in place of an array never
 returned

---
 xtructure/core/xtructure_decorators/validation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/validation.py b/xtructure/core/xtructure_decorators/validation.py
index 79e30bb..8cf2846 100644
--- a/xtructure/core/xtructure_decorators/validation.py
+++ b/xtructure/core/xtructure_decorators/validation.py
@@ -4,7 +4,10 @@ from typing import Any, Type, TypeVar
 import jax.numpy as jnp
 
 from xtructure.core.field_descriptors import FieldDescriptor, get_field_descriptors
-from xtructure.core.type_utils import is_xtructure_dataclass_type
+from xtructure.core.type_utils import (
+    is_xtructure_dataclass_instance,
+    is_xtructure_dataclass_type,
+)
 
 T = TypeVar("T")
 
@@ -14,6 +17,13 @@ def add_runtime_validation(cls: Type[T], *, enabled: bool) -> Type[T]:
     field_descriptors = get_field_descriptors(cls)
 
     def _validate_array_field(field_name: str, descriptor: FieldDescriptor, value: Any):
+        if is_xtructure_dataclass_instance(value):
+            # Coercing a record to an array would iterate over it forever.
+            raise TypeError(
+                f"{cls.__name__}.{field_name} expected an array, "
+                f"got {type(value).__name__}."
+            )
+
         try:
             array = jnp.asarray(value)
         except TypeError as err:
-- 
2.43.0


From 5f135a1ae2e51bcf3ecc031e7b9083676a58109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 28/35] fix: validation ignored the declared shape of nested
 record fields

---
 xtructure/core/xtructure_decorators/validation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/validation.py b/xtructure/core/xtructure_decorators/validation.py
index 8cf2846..f1d3ae5 100644
--- a/xtructure/core/xtructure_decorators/validation.py
+++ b/xtructure/core/xtructure_decorators/validation.py
@@ -71,6 +71,16 @@ def add_runtime_validation(cls: Type[T], *, enabled: bool) -> Type[T]:
                         f"{cls.__name__}.{field_name} expected instance of "
                         f"{descriptor.dtype.__name__}, got {type(value).__name__}."
                     )
+                intrinsic_shape = tuple(descriptor.intrinsic_shape)
+                batch = value.shape.batch if intrinsic_shape else ()
+                if intrinsic_shape and (
+                    batch == -1
+                    or tuple(batch[-len(intrinsic_shape) :]) != intrinsic_shape
+                ):
+                    raise ValueError(
+                        f"{cls.__name__}.{field_name} expected trailing shape "
+                        f"{intrinsic_shape}, but got batch shape {batch}."
+                    )
                 continue
             _validate_array_field(field_name, descriptor, value)
 
-- 
2.43.0


From 3a700c6b35f89947d7a09926eadda2306ced6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 29/35] fix: to_tuple included class variables, so from_tuple
 could not rebuild the instance

---
 xtructure/core/dataclass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 361b656..764ea80 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -117,7 +117,9 @@ class _Dataclass:
         )
         # pytype: enable=wrong-keyword-args
 
-        fields_names = set(f.name for f in dataclasses.fields(dcls))
+        # Class variables and init-only variables are not fields of the instances.
+        ordered_names = tuple(f.name for f in dataclasses.fields(dcls))
+        fields_names = set(ordered_names)
         invalid_fields = fields_names.intersection(_RESERVED_DCLS_FIELD_NAMES)
         if invalid_fields:
             raise ValueError(
@@ -125,10 +127,10 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
+            return dcls(**dict(zip(ordered_names, args)))
 
         def _to_tuple(self):
-            return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
+            return tuple(getattr(self, k) for k in ordered_names)
 
         def _replace(self, **kwargs):
             return dataclasses.replace(self, **kwargs)
-- 
2.43.0


From 2d6642ef41213c9b1375d808f1b05ff340faaefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 30/35] fix: can_cast refused numpy scalar types such as
 np.uint16

---
 xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py
index 4f79a5c..efb37ca 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py
@@ -49,9 +49,11 @@ def can_cast(from_: Any, to: Any, casting: str = "safe") -> bool:
 
     # helper:
     def _leaf_can_cast(f, t):
-        # Get dtype from array if it's an array, otherwise use the value directly
-        f_dtype = f.dtype if hasattr(f, "dtype") else f
-        t_dtype = t.dtype if hasattr(t, "dtype") else t
+        # Get dtype from array if it's an array, otherwise use the value directly.
+        # Scalar types such as np.uint16 are used as they are: their ``dtype`` is
+        # the attribute descriptor of the instances, not a dtype.
+        f_dtype = f.dtype if hasattr(f, "dtype") and not isinstance(f, type) else f
+        t_dtype = t.dtype if hasattr(t, "dtype") and not isinstance(t, type) else t
         return jnp.can_cast(f_dtype, t_dtype, casting=casting)
 
     # We need to handle cases where 'to' is not a structure (scalar dtype)
-- 
2.43.0


From 5a837ed8f89abdfc9eb81e4c22d9d691f3487dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:46 +0000
Subject: [PATCH 31/35] fix: key-value merge failed when one side was empty, so
 batch size 1 queues did not work with it

---
 xtructure/bgpq/merge_split/parallel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..4b17a13 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -333,6 +333,11 @@ def _get_merge_arrays_parallel_kv(
             return out_keys, out_vals
 
         key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+        if n == 0:
+            return bk.astype(key_dtype), list(bv_leaves)
+        if m == 0:
+            return ak.astype(key_dtype), list(av_leaves)
+
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
 
-- 
2.43.0


From bc27ab53d09298e880a47e07c6678165c36d56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 32/35] fix: accelerator insertion ignored a custom probe
 limit, so items became unreachable for lookups

---
 xtructure/hashtable/insert.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 43c6d81..3e00431 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -487,14 +487,21 @@ def _hashtable_parallel_insert_jit(
 
         updatable = jnp.logical_and(jnp.logical_not(found), unique_filled)
 
+        # The reservation kernels may walk the whole table, past a custom probe limit.
+        unlimited_probes = int(table.max_probes) >= int(table._capacity) * int(
+            table.bucket_size
+        )
+
         use_triton = (
             jax.default_backend() == "gpu"
+            and unlimited_probes
             and table.bucket_size <= 32
             and triton_insert_enabled()
         )
 
         use_pallas = (
             jax.default_backend() == "tpu"
+            and unlimited_probes
             and table.bucket_size <= 32
             and pallas_insert_enabled()
         )
-- 
2.43.0


From 5a95aeb041b550173b952681e4f3d3f41ea35a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 33/35] fix: from_unpacked refuses unknown names when every
 field is given

---
 xtructure/core/xtructure_decorators/bitpack_accessors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index e216205..3c3474b 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -290,6 +290,10 @@ def add_bitpack_accessors(cls: Type[T]) -> Type[T]:
         - Otherwise we fall back to `cls.default(shape=shape)` and then apply updates (still avoids storing
           the unpacked values inside the instance).
         """
+        for name in kwargs:
+            if name not in field_descriptors:
+                raise KeyError(f"Unknown field '{name}' for {cls.__name__}.")
+
         # Direct-build path if caller provides all required fields.
         all_fields = list(field_descriptors.keys())
         has_all = all(name in kwargs for name in all_fields)
@@ -307,8 +311,6 @@ def add_bitpack_accessors(cls: Type[T]) -> Type[T]:
         base = cls.default(shape=shape)
         updates = {}
         for name, value in kwargs.items():
-            if name not in field_descriptors:
-                raise KeyError(f"Unknown field '{name}' for {cls.__name__}.")
             descriptor = field_descriptors[name]
             if _is_packed_descriptor(descriptor):
                 updates[name] = _pack_value(value, descriptor, shape)
-- 
2.43.0


From 0152a75969377f894fef6f56f8e4613c0629ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 34/35] fix: zeros_like, ones_like and broadcast_to refuse
 out_sharding for records instead of ignoring it

---
 xtructure/core/xtructure_numpy/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/__init__.py b/xtructure/core/xtructure_numpy/__init__.py
index a932779..b24d019 100644
--- a/xtructure/core/xtructure_numpy/__init__.py
+++ b/xtructure/core/xtructure_numpy/__init__.py
@@ -285,7 +285,13 @@ def full_like(
 
 def zeros_like(a, dtype=None, shape=None, *, device=None, out_sharding=None):
     if _is_xtructurable(a):
-        _reject_dataclass_kwargs("zeros_like", dtype=dtype, shape=shape, device=device)
+        _reject_dataclass_kwargs(
+            "zeros_like",
+            dtype=dtype,
+            shape=shape,
+            device=device,
+            out_sharding=out_sharding,
+        )
         return _dc.zeros_like(a)
     return jnp.zeros_like(
         a, dtype=dtype, shape=shape, device=device, out_sharding=out_sharding
@@ -294,7 +300,13 @@ def zeros_like(a, dtype=None, shape=None, *, device=None, out_sharding=None):
 
 def ones_like(a, dtype=None, shape=None, *, device=None, out_sharding=None):
     if _is_xtructurable(a):
-        _reject_dataclass_kwargs("ones_like", dtype=dtype, shape=shape, device=device)
+        _reject_dataclass_kwargs(
+            "ones_like",
+            dtype=dtype,
+            shape=shape,
+            device=device,
+            out_sharding=out_sharding,
+        )
         return _dc.ones_like(a)
     return jnp.ones_like(
         a, dtype=dtype, shape=shape, device=device, out_sharding=out_sharding
@@ -349,6 +361,7 @@ def moveaxis(
 
 def broadcast_to(array, shape, *, out_sharding=None):
     if _is_xtructurable(array):
+        _reject_dataclass_kwargs("broadcast_to", out_sharding=out_sharding)
         return _dc.broadcast_to(array, shape)
     return jnp.broadcast_to(array, shape, out_sharding=out_sharding)
 
-- 
2.43.0


From 6d2086c472ce50b6c1fd4ce056803b4793752285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:08 +0000
Subject: [PATCH 35/35] fix: iterating over a record array ends after its last
 record

---
 xtructure/core/xtructure_decorators/indexing.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/indexing.py b/xtructure/core/xtructure_decorators/indexing.py
index cec52d5..fb55f60 100644
--- a/xtructure/core/xtructure_decorators/indexing.py
+++ b/xtructure/core/xtructure_decorators/indexing.py
@@ -287,7 +287,22 @@ def add_indexing_methods(cls: Type[T]) -> Type[T]:
                 new_values[field_name] = field_value
         return cls(**new_values)
 
+    def iterate(self):
+        """Iterate over the records along the first batch axis.
+
+        Without this, Python falls back to calling ``__getitem__`` until it raises
+        IndexError, which never happens for arrays whose index is clamped.
+        """
+        batch = self.shape.batch
+        if batch == () or batch == -1:
+            raise TypeError(
+                f"iteration is only defined for batched {cls.__name__} instances."
+            )
+        return (self[i] for i in range(int(batch[0])))
+
     setattr(cls, "__getitem__", getitem)
+    if not hasattr(cls, "__iter__"):
+        setattr(cls, "__iter__", iterate)
     setattr(cls, "at", property(AtIndexer))
 
     return cls
-- 
2.43.0

