#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand; the jsonl is what is committed and read)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Stack behaves as a LIFO sequence under every operation history",
  "Under any history of single and batched push, pop, peek and index operations that stays within capacity, a stack returns exactly what a sequential LIFO list would: a batch lands with its last record on top, multi-record pop/peek return the top records oldest first, and the reported size is the number of stored records. Records pushed earlier are never altered by later operations.",
  ["histories", "inputs"], "all push/pop/peek/index histories (single and batched, mixed batch sizes, pop-then-push overwrites) for every record type, within capacity",
  "Tests run a few fixed push/pop sequences with one record type; interleavings that pop part of a batch, overwrite, refill to capacity, or mix batch sizes are not reached.",
  ["xtructure/stack/stack.py"], [("scatter of a batch at the size offset, dynamic slice from the top", "xtructure/stack/stack.py")],
  ["return values of push/pop/peek/indexing", "size"], [("size", "number of stored records", "xtructure/stack/stack.py"), ("val_store", "record storage", "xtructure/stack/stack.py")])
p("C02", "Queue behaves as a FIFO sequence under every operation history",
  "Under any history of single and batched enqueue, dequeue, peek, index and clear operations within the storage budget, a queue returns exactly what a sequential FIFO list would, in order, each record once, and reports its size as enqueued minus dequeued records. Clear empties it and makes the whole capacity usable again.",
  ["histories", "inputs"], "all enqueue/dequeue/peek/index/clear histories (single and batched) for every record type, within the budget between clears",
  "Tests run fixed enqueue/dequeue sequences; mixes of single and batched calls, clear in mid-history, fill to exact capacity are not sampled.",
  ["xtructure/queue/queue.py"], [("head/tail cursors with batched scatter and dynamic slice", "xtructure/queue/queue.py")],
  ["return values of enqueue/dequeue/peek/indexing", "size"], [("head/tail", "cursors delimiting live records", "xtructure/queue/queue.py")])
p("C03", "Priority queue returns the smallest keys, sorted, and loses nothing",
  "While no more entries than the capacity are held, every delete-min returns exactly the smallest remaining keys in ascending order, padded with infinity when fewer than a batch remain, and every inserted key is eventually returned exactly once. The reported size is always the number of inserted minus removed entries.",
  ["histories", "inputs", "configurations"], "all insert/delete-min histories (full, partial, empty blocks; sorted or not; equal, negative, zero, extreme finite keys) for every batch size, capacity and key dtype",
  "The heap tests compare a handful of large random fills with one batch size and one key type and then drain; interleaved inserts and deletes, partial blocks, ties and odd geometries are not reached.",
  ["xtructure/bgpq/bgpq.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_merge.py", "xtructure/bgpq/_utils.py"],
  [("batched heapify up and down via merge-split of sorted nodes", "xtructure/bgpq/_insert.py, xtructure/bgpq/_delete.py"), ("buffer for partial blocks", "xtructure/bgpq/bgpq.py")],
  ["keys returned by delete_mins", "size"], [("key_store/key_buffer", "sorted blocks and the partial block", "xtructure/bgpq/bgpq.py")])
p("C04", "Priority queue keeps every value attached to its key",
  "Every entry handed back by delete-min carries the value it was inserted with: over any history the multiset of (key, value) pairs returned is exactly a multiset of pairs inserted and not returned before, also when many keys are equal and when values have several fields or multi-dimensional fields.",
  ["histories", "inputs", "configurations"], "all insert/delete-min histories within capacity with uniquely tagged values, for every value type, tie density, value reordering and sort-stability setting",
  "Existing tests verify key order and spot-check one value relation on random float keys where ties hardly occur; value permutations inside ties or under other settings are invisible to them.",
  ["xtructure/bgpq/_merge.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_utils.py"],
  [("values gathered with the same permutation as keys", "xtructure/bgpq/_merge.py")], ["(key, value) pairs returned by delete_mins"])
p("C05", "Priority queue stays sound when filled beyond capacity",
  "Inserting past capacity only discards entries, and large ones: the size always equals the entries held and never exceeds the capacity by a whole batch, nothing is discarded while it would fit, the smallest batch is never discarded, and fewer than a batch of kept entries exceed the largest discarded key. Every pair returned was inserted and is returned at most once, in ascending batches padded with infinity only at the end, until the queue is empty and usable again.",
  ["histories", "inputs"], "all histories that exceed capacity, with any mixture of batch fills, for every geometry",
  "Tests never overfill the queue with interleaved deletes and then drain it against a record of what was put in.",
  ["xtructure/bgpq/bgpq.py", "xtructure/bgpq/_insert.py"], [("size clamp and last-leaf overwrite when full", "xtructure/bgpq/_insert.py, xtructure/bgpq/bgpq.py")],
  ["pairs returned by delete_mins", "size"])
p("C06", "Hash table behaves as a set of records",
  "A lookup, single or batched, reports found exactly for the records inserted before and not for any other, the index it or an insert returns reads back that very record, inserting an already present record changes nothing and reports not inserted with the existing record's index, and the size equals the number of distinct records held. This holds for every bucket size, probe limit, seed and record type, including records that collide in hash or fingerprint.",
  ["histories", "inputs", "configurations"], "all insert/lookup histories (single and batched lookups) for all record types, table geometries, probe limits and hash behaviours including total collision",
  "Tests insert random records into sparsely filled tables with one geometry; long collision chains, near-full tables, custom probe limits and equal fingerprints are practically never hit by random hashes.",
  ["xtructure/hashtable/table.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/lookup.py", "xtructure/hashtable/hash_utils.py"],
  [("bucketed double hashing with fingerprint filter and full comparison", "xtructure/hashtable/lookup.py"), ("probe limit shared by insert and lookup", "xtructure/hashtable/insert.py")],
  ["found/inserted flags, returned indices, table[idx], size"], [("table, table_idx, fingerprints, size", "stored records and bucket fill levels", "xtructure/hashtable/table.py")])
p("C07", "Parallel hash-table insertion meets its flag, index and cost contract",
  "For a batch insertion the inserted flags mark exactly one row per distinct selected record that was absent, rows excluded by the selection mask are never inserted, every selected row's index reads back that row's own record, and the size grows by the number of inserted flags. When per-row costs are given, the flagged representative among equal records is the one with the smallest cost, the lowest row winning ties.",
  ["inputs", "histories"], "all batches (duplicates, masks, already present records, adversarial byte patterns) on tables of every fill level, for int and float costs including infinities",
  "Tests check distinct random batches and one or two small duplicate examples; duplicates crossed with masks, cost ties, large integer costs, pre-existing rows and full buckets are not covered.",
  ["xtructure/hashtable/insert.py", "xtructure/hashtable/hash_utils.py"],
  [("batch de-duplication before slot reservation", "xtructure/hashtable/hash_utils.py"), ("iterative slot reservation for conflicting rows", "xtructure/hashtable/insert.py")],
  ["(table, inserted, unique, idx) returned by the batch insertion", "table[idx]", "lookups"])
p("C08", "Hash-table contents do not depend on how they were inserted",
  "The set of records held after inserting a collection is the same for every seed, bucket size, load layout, de-duplication mode, sort backend and any split into single and batch insertions, and every slot of the table can be filled before an insertion of a new record fails. No record is lost, duplicated or overwritten while the table fills up.",
  ["configurations", "histories", "inputs"], "all collections up to total slot count, all splits into single/batch insertions, all seeds, bucket sizes and de-duplication settings",
  "Tests use the default settings with tables kept mostly empty and one insertion path at a time.",
  ["xtructure/hashtable/table.py", "xtructure/hashtable/insert.py", "xtructure/hashtable/hash_utils.py", "xtructure/hashtable/lookup.py"],
  [("odd probe step on a power-of-two number of buckets visits all buckets", "xtructure/hashtable/hash_utils.py"), ("selectable de-duplication strategies", "xtructure/hashtable/hash_utils.py")],
  ["lookup of all records, size, enumeration of returned indices"])
p("C09", "Operations return new containers and leave old ones intact",
  "Every container or record array obtained earlier keeps its contents after any later operation on it: operations on an old version act as if the later ones had never happened, so histories may branch. Arguments passed to an operation are never modified.",
  ["histories"], "all operation histories that keep and reuse earlier versions of stacks, queues, priority queues, hash tables and records",
  "Tests overwrite their handle at every step, so aliasing or buffer donation that destroys older versions is not observed.",
  ["xtructure/stack/stack.py", "xtructure/queue/queue.py", "xtructure/bgpq/bgpq.py", "xtructure/hashtable/table.py", "xtructure/core/xtructure_decorators/indexing.py", "xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py"],
  [("functional updates on immutable arrays", "xtructure/core/dataclass.py")], ["full contents of retained handles before and after later operations"])
p("C10", "Results are the same under jit, scan and vmap as when called directly",
  "Running any container operation or record-array function inside a compiled function, a loop carry, a scan or a vectorised map gives the same results as calling it directly step by step, and the containers pass through those transformations unchanged in type and content.",
  ["programs", "inputs"], "all sequences of operations placed under jit, scan, while/fori loops, cond and vmap",
  "Tests jit a few single calls and rarely compare them with eager execution; vmapped containers and loop-carried ones are not compared at all.",
  ["xtructure/core/dataclass.py", "xtructure/stack/stack.py", "xtructure/queue/queue.py", "xtructure/bgpq/bgpq.py", "xtructure/hashtable/table.py", "xtructure/core/xtructure_numpy/__init__.py"],
  [("pytree registration of all containers", "xtructure/core/dataclass.py")], ["outputs of transformed and direct executions"])
p("C11", "Record hashes are deterministic functions of content and seed",
  "A record's hash depends only on its type, field contents and the seed: the same record gives the same hash in every process, at every batch position, eagerly or compiled, with or without streaming; its byte and word renderings distinguish any two records that differ in any bit of any field, and the hash depends on every field and on the seed. The primary value of the hash pair and of the hash-with-words form equals the plain hash.",
  ["inputs", "configurations"], "all records of all types (every field dtype, nesting, packing), all seeds, batch positions, processes and implementation settings",
  "Tests compare a few hashes inside one process with one implementation; collisions from a dropped field or byte, or differences between implementations or processes, are not sampled.",
  ["xtructure/core/xtructure_decorators/hash.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py"],
  [("byte serialisation into 32-bit words followed by an xxhash-style mix", "xtructure/core/xtructure_decorators/hash.py")], ["hash, hash with words, hash pair, bytes"])
p("C12", "Aggregate bit packing is lossless and decodes consistently",
  "Packing a record whose integer fields fit their declared bit widths and unpacking it gives back an equal record with the original types and shapes, for any widths, shapes, nesting and batch shape. Decoding a single field or element from the packed form gives the same value as unpacking everything, with negative indices counting from the end, and the published packing schema says where in the packed form each value lies. Distinct records have distinct packed forms.",
  ["inputs", "configurations"], "all record layouts with declared widths 1 to 32, field shapes, nested records, unpacked remainder fields, batch shapes, both packing backends, all field/element/slice selections",
  "Tests cover two or three hand-written layouts; values straddling word boundaries at arbitrary widths and every element index are not enumerated.",
  ["xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/kernels.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py"],
  [("bit-offset layout over 32-bit words", "xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py")], ["packed form, unpacked record, single-field decodes"])
p("C13", "In-memory packed tensor fields read back what was written",
  "A bit-packed tensor field reads back exactly the logical values last written to it through the field setter or constructor helper, for every width, shape and batch shape, and neither reading nor writing it disturbs any other field.",
  ["inputs", "configurations"], "all widths 1 to 32, intrinsic shapes, batch shapes (none, one, several dimensions), value patterns, interleavings of writes to several packed fields",
  "Tests check a few widths with tiny shapes and unbatched or one-dimensional batches.",
  ["xtructure/core/xtructure_decorators/bitpack_accessors.py", "xtructure/core/field_descriptors.py", "xtructure/io/bitpack.py"],
  [("unpack property and set_ methods over packed words", "xtructure/core/xtructure_decorators/bitpack_accessors.py"), ("to_bytes/from_bytes codec", "xtructure/io/bitpack.py")], ["unpacked properties and all other fields"])
p("C14", "Saving and loading a record array gives it back exactly",
  "Loading a file written from a record array gives an instance of the same type whose every field has bit-identical contents, dtype and shape, for every field dtype, nesting, batch shape and path form, with or without packing. Loading with an explicitly expected type fails clearly when the file holds another type, and a failed save or load leaves no wrong result.",
  ["inputs", "fault_sequences"], "all record types (all dtypes incl. bfloat16/float8/bool, nested, packed, static fields), batch shapes incl. empty, NaN/inf payloads, path forms, cross-process loads, wrong-type loads",
  "Tests round-trip two or three simple types within one process.",
  ["xtructure/io/io.py", "xtructure/io/bitpack.py"], [("flattened npz with module and class name", "xtructure/io/io.py")], ["loaded instance vs saved one, in the same and in a fresh process"])
p("C15", "Unique-mask selects exactly one representative per distinct record",
  "Over the selected rows of a record batch the unique mask marks exactly one row for each distinct record (or distinct user key), the cheapest one when costs are given and the first on ties, and never a filtered row; the optional index outputs identify the representatives and map every selected row to its own group's representative.",
  ["inputs"], "all batches of all record types (wide, narrow, signed, float keys, all-ones and all-zero patterns), filters, cost arrays (ints, floats, infinities, ties), output options",
  "Tests check small hand-written batches; sentinel-like byte patterns, many-word keys and cost ties with filters are missed.",
  ["xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/__init__.py"],
  [("lexicographic/unique grouping of serialised rows", "xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py")], ["mask, index and inverse outputs"])
p("C16", "Conditional scatter updates apply exactly the first true update per cell",
  "A conditional update writes, for every target cell, the value of the first entry whose condition is true and leaves all cells without a true entry untouched, for duplicate and multi-dimensional indices, scalar or per-entry values, on records and on plain arrays, whatever the index integer type. Entries that point outside the array, negative positions included, have no effect.",
  ["inputs"], "all target shapes, index arrays of every integer width with duplicates, negative and out-of-range entries, conditions, scalar and per-entry values, record types with intrinsic dimensions",
  "Tests use short 1-D examples with few duplicates; collisions between false and true entries across dimensions are not enumerated.",
  ["xtructure/core/xtructure_numpy/array_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py", "xtructure/core/xtructure_decorators/indexing.py"],
  [("stable ordering of updates by target before scatter", "xtructure/core/xtructure_numpy/array_ops.py")], ["updated array or record vs sequential reference"])
p("C17", "Record-array shape operations rearrange whole records and nothing else",
  "Concatenate, stack, reshape, flatten, transpose, swapaxes, moveaxis, squeeze, expand_dims, repeat, roll, rot90, flip, pad, split, take, take_along_axis and block-wise stacking along explicit batch axes act on the batch dimensions only: each output record is one of the input records (or the documented padding), complete in all its fields, at the position the same operation would put it in an array of record labels. Field dtypes and intrinsic shapes are unchanged.",
  ["inputs", "programs"], "all record types (scalar, vector, matrix, nested fields), batch shapes and in-range batch-axis arguments, and compositions of operations",
  "Tests compare single operations on simple records with one-dimensional batches; fields with different intrinsic ranks moving apart is not sampled.",
  ["xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py", "xtructure/core/xtructure_numpy/__init__.py"],
  [("per-field mapping with batch-axis normalisation", "xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py")], ["all fields of the result vs the same operation on record labels"])
p("C18", "Record selection with where picks whole records per condition",
  "Selecting between two record arrays, or between a record array and a scalar fill, with a per-record condition yields at every position the complete record of the chosen side in every field, whatever the fields' intrinsic shapes; the strict variant refuses arguments whose structure, dtype or shape do not match.",
  ["inputs"], "all conditions (Python bool, scalar, per-record, per-batch-prefix shapes), record types and batch shapes",
  "Tests cover scalar-field records and a 1-D condition.",
  ["xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py"], [("per-field condition reshape", "xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py")], ["result fields vs per-record reference"])
p("C19", "Indexing and indexed updates address the same records in every field",
  "Reading a record array with any index, slice, mask, integer array or tuple returns the same records from every field as indexing an array of record labels, and an indexed set or conditional set changes exactly the addressed records in every field and nothing else. Field dtypes are preserved. Iterating over a batch visits its records along the first axis once each, in order, and then ends.",
  ["inputs"], "all index forms within the batch dimensions, record/field/scalar values, conditions, nested and multi-dimensional fields",
  "Tests use a few integer and slice indices on flat records.",
  ["xtructure/core/xtructure_decorators/indexing.py"], [("tree-mapped getitem and at-updater", "xtructure/core/xtructure_decorators/indexing.py")], ["result fields vs label-array reference"])
p("C20", "Shape, classification, defaults and random values agree with the type",
  "For every record type and batch shape the reported shape, batch shape, dimension count, single/batched/unstructured classification, dtypes and length agree with the declared fields and the stored arrays, at every nesting depth. Default construction gives the declared fill values and random construction gives values of the declared types that are reproducible for a key, differ between keys, fields and records, and stay in their type's range (unit interval for floats), both with exactly the requested batch shape.",
  ["inputs", "configurations"], "all field declarations (dtypes, intrinsic shapes, nested, packed, fill values, random ranges), batch shapes, keys, and inconsistent instances",
  "Tests inspect a few types; mixtures of nested intrinsic shapes and several batch dimensions are not generated.",
  ["xtructure/core/xtructure_decorators/shape.py", "xtructure/core/xtructure_decorators/default.py", "xtructure/core/xtructure_decorators/structure_util.py", "xtructure/core/xtructure_decorators/ops.py", "xtructure/core/field_descriptors.py"],
  [("shape inference by stripping intrinsic shape from each field", "xtructure/core/xtructure_decorators/shape.py")], ["shape/structured_type/default/random outputs vs declaration"])
p("C21", "Validation accepts exactly the well-formed instances",
  "Runtime validation raises for an instance in which any field has a wrong dtype, lacks or mismatches its intrinsic trailing shape, or holds something other than the declared nested type, and never raises for a well-formed instance of any batch shape. With validation enabled for a type the decision is made at every construction, including of records nested in others, and a declared validator is run on its field's value every time.",
  ["inputs", "configurations"], "all record types, all single-field corruptions of dtype, intrinsic shape or nested type at every depth, all well-formed instances and batch shapes",
  "Tests corrupt one or two fields of one type; corruption in the last field, in a nested record or of one axis of a matrix field is not enumerated.",
  ["xtructure/core/xtructure_decorators/validation.py", "xtructure/core/xtructure_decorators/__init__.py"], [("per-field dtype/shape checks", "xtructure/core/xtructure_decorators/validation.py")], ["raise/no raise"])
p("C22", "Dataclasses survive tree, copy, pickle and conversion round trips",
  "Flattening and unflattening, tree mapping, replacing fields, converting to and from tuples and dictionaries, copying and pickling a dataclass instance give back an instance of the same type with identical field contents, with static fields kept out of the leaves and part of the tree structure. None of these changes the original instance, and cached derived information never leaks into the copy when the fields changed.",
  ["inputs", "configurations"], "all dataclass declarations (static and dynamic fields, nesting, frozen flag), contents, and sequences of conversions",
  "Tests exercise one or two classes per conversion.",
  ["xtructure/core/dataclass.py"], [("pytree registration with keyed flatten and static fields", "xtructure/core/dataclass.py")], ["round-tripped instance vs original"])
p("C23", "Alternative merge backends agree with a plain sort-merge",
  "Every merge backend of the priority queue merges two sorted sequences into one sorted sequence whose reported source positions form a permutation that reproduces the keys, for all lengths, ties and infinities, and the key-value merge moves each value with its key. A priority queue run on any of these backends obeys the same ordering and pairing guarantees.",
  ["inputs", "configurations"], "all sorted inputs (equal and unequal lengths, ties, infinities, several key dtypes), block sizes and packing settings",
  "The accelerator backends never run in the test suite on a CPU machine.",
  ["xtructure/bgpq/merge_split/parallel.py", "xtructure/bgpq/merge_split/split.py", "xtructure/bgpq/merge_split/common.py", "xtructure/bgpq/_merge.py"],
  [("merge-path partition by binary search", "xtructure/bgpq/merge_split/common.py"), ("block kernels", "xtructure/bgpq/merge_split/parallel.py")], ["merged keys, indices and values"])
p("C24", "Alternative slot-reservation backends never share or lose a slot",
  "Every accelerator slot-reservation backend of the hash table assigns each active row a distinct free slot within its probe sequence while one exists, leaves inactive rows unassigned, and reports occupancy consistent with the slots handed out. A hash table driven through these backends keeps the same set semantics.",
  ["inputs", "configurations"], "all occupancy states, start buckets, probe steps, active masks, bucket sizes up to 32 and capacities",
  "The accelerator backends never run in the test suite on a CPU machine.",
  ["xtructure/hashtable/insert_pallas.py", "xtructure/hashtable/insert_triton.py", "xtructure/hashtable/insert.py"],
  [("bucket-owner kernel", "xtructure/hashtable/insert_pallas.py"), ("atomic bit claim", "xtructure/hashtable/insert_triton.py")], ["returned slots, flags, occupancy, table contents"])
p("C25", "Equality and comparison of record arrays take every element into account",
  "Two record arrays compare equal exactly when every element of every field, nested ones included, is equal, and unequal is the exact negation. Elementwise comparison returns for each field the truth value of each element, closeness within tolerance follows the usual numeric rule for every element of every field, and all-close is the conjunction of it.",
  ["inputs"], "all record types, batch shapes and pairs of instances differing in any single element of any field, at any depth, NaN and infinities, tolerances",
  "Tests compare instances that are wholly equal or wholly different.",
  ["xtructure/core/xtructure_decorators/ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/comparison_ops.py"], [("per-field equality reduced over all fields", "xtructure/core/xtructure_decorators/ops.py")], ["==, != and elementwise/closeness results"])

p("C26", "Fill, cast and broadcast helpers treat every field alike",
  "Filling like, casting, broadcasting against each other, type promotion and cast queries on record arrays do in every field, nested ones included, exactly what the same operation does on a plain array of that field, and combine yes/no answers over all fields. Unrelated fields, shapes and dtypes are preserved.",
  ["inputs"], "all record types, dtypes, fill values and batch shapes",
  "Tests apply each helper to one flat record type with one dtype.",
  ["xtructure/core/xtructure_numpy/dataclass_ops/fill_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/type_ops.py", "xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py", "xtructure/core/xtructure_numpy/__init__.py"],
  [("per-field mapping", "xtructure/core/xtructure_numpy/dataclass_ops/fill_ops.py")], ["all fields of the result vs plain-array operation"])

p("C27", "Text renderings show exactly the records that are there",
  "Rendering a record array as text never fails, for any batch shape, and shows its records in row-major order, every one of them when there are few and otherwise the first and last ones with the gap marked where it is. Each shown record is rendered by its type's own formatter, called with that single record and the given options; the built-in formatter shows every field with its value. Rendering changes nothing.",
  ["inputs"], "all record types, with own or built-in formatter, batch shapes (empty, one to four dimensions, large), derived, unstructured and traced instances",
  "Tests look for the class name and a few substrings in the text of two or three shapes.",
  ["xtructure/core/xtructure_decorators/string_format.py"], [("batch layout and elision", "xtructure/core/xtructure_decorators/string_format.py"), ("built-in single-record formatter", "xtructure/core/xtructure_decorators/string_format.py")], ["str(x), x.str(...), and the instances given to the type's formatter"])

p("C28", "Field declarations mean the same in every form, impossible ones are refused",
  "The same field declared in any documented form, given directly, annotated, cloned or reshaped by the helpers, yields types with the same dtypes, layout, defaults, random values, hashes and validation; derived descriptors differ from their source in what was asked and nothing else, and factories receive the field's full shape and dtype. The packing policy and the declared bits alone decide which packing helpers a type has and change nothing else. Contradictory or impossible declarations are refused when they are made.",
  ["inputs", "configurations"], "all dtypes, intrinsic shapes, fill values, factories, validators, bit widths, nesting, declaration forms and packing policies",
  "Tests declare a few fields, each in one form, and try two or three refusals.",
  ["xtructure/core/field_descriptors.py", "xtructure/core/field_descriptor_utils.py", "xtructure/core/xtructure_decorators/__init__.py", "xtructure/core/xtructure_decorators/default.py", "xtructure/core/xtructure_decorators/bitpack_accessors.py", "xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py"],
  [("descriptor construction and checks", "xtructure/core/field_descriptors.py"), ("packing policy", "xtructure/core/xtructure_decorators/__init__.py")], ["types built from declarations: default, random, hash, shape, packing helpers; raise/no raise"])

p("C29", "Array functions treat plain arrays as jax.numpy does, and methods agree",
  "Called with plain arrays, every public array function gives the values, dtypes and shapes of the jax.numpy function of the same name and refuses what it refuses. Every method form gives what the function gives, every import path leads to the same function, and methods a type defines itself are kept. Mixtures of records with arrays or with other record types, and options that have no meaning for records, are refused instead of being ignored.",
  ["inputs", "configurations"], "all public array functions, array shapes, dtypes and options; all record types, batch shapes and method forms; all unsupported mixtures and options",
  "Tests call a few functions with one plain array each and a few methods on one type.",
  ["xtructure/core/xtructure_numpy/__init__.py", "xtructure/core/xtructure_numpy/array_ops.py", "xtructure/core/xtructure_decorators/method_factory.py", "xtructure/xtructure_numpy.py", "xtructure/numpy.py"],
  [("dispatch between records and arrays", "xtructure/core/xtructure_numpy/__init__.py")], ["results vs jax.numpy; raise/no raise; method vs function"])

p("C30", "Searches built from the containers are exact",
  "A best-first search that keeps visited records in a hash table, open ones in a priority queue as table indices keyed by cost, and costs and predecessors in arrays at those indices, ends with exactly the reachable records in the table, each with its least cost, expanded at that cost, and with a predecessor that realises it; everything put into the queue comes out once. With a queue or a stack in its place records are visited in breadth- or depth-first order. Table indices stay valid throughout, compiled or step by step.",
  ["inputs", "histories", "configurations"], "all finite graphs over all record types, edge costs, batch sizes, start sets, table layouts, key types, compiled loops and stepwise execution",
  "No test combines the containers; each is tested alone with a few operations.",
  ["xtructure/hashtable/table.py", "xtructure/hashtable/insert.py", "xtructure/bgpq/bgpq.py", "xtructure/queue/queue.py", "xtructure/stack/stack.py", "xtructure/core/xtructure_numpy/array_ops.py", "xtructure/hashtable/types.py"],
  [("stable slot indices shared by table, queue and side arrays", "xtructure/hashtable/types.py"), ("cheapest duplicate chosen at insertion", "xtructure/hashtable/insert.py")], ["final table, costs, predecessors, expansion log, visiting order vs textbook search"])

import sys
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
