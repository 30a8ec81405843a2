"""Regenerates MANIFEST.json from properties.jsonl and the list of built checks."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring: "
TECH = {
    "C01": T + "reference-model monitor (sequential list) over recorded operation histories",
    "C02": T + "reference-model monitor (sequential FIFO) over recorded operation histories",
    "C03": T + "conservation/ordering monitor with a sorted-multiset reference model over recorded histories",
    "C04": T + "exactly-once pair monitor (uniquely tagged values) over recorded histories",
    "C05": T + "conservation monitor (returned pairs are a sub-multiset of inserted ones) under overflow workloads",
    "C06": T + "reference-model monitor (Python set of record bytes) over histories, with fault-injected hash collisions",
    "C07": T + "contract monitor on every parallel_insert call against a set model, with injected collisions",
    "C08": T + "differential monitor: same collection through different layouts, splits, seeds, environment modes",
    "C09": T + "snapshot monitor: byte fingerprints of all retained versions re-checked after every operation",
    "C10": T + "differential monitor: eager vs jit vs scan vs while_loop vs vmap executions",
    "C11": T + "cross-process / cross-mode event-log comparison of hashes plus byte-rendering oracle",
    "C12": T + "round-trip and independent bit-decoder oracle on monitored executions",
    "C13": T + "reference-model monitor (shadow logical arrays) over setter histories",
    "C14": T + "round-trip monitor over real files, cross-process loads, and injected I/O faults",
    "C15": T + "group-representative oracle (numpy) on monitored executions, both sort strategies",
    "C16": T + "sequential first-true-wins interpreter as oracle on monitored executions",
    "C17": T + "record-label oracle: the same numpy operation on label arrays",
    "C18": T + "record-label oracle for selection; refusal monitor for the strict form",
    "C19": T + "record-label oracle for reads and indexed updates",
    "C20": T + "declared-schema oracle (independent field table) on monitored constructions",
    "C21": T + "mutation workload of well- and ill-formed instances against a declared-schema oracle; validator call counters",
    "C22": T + "round-trip and snapshot monitors over conversion histories",
    "C23": T + "kernels run interpreted and on an interleaving, bounds-checked memory simulator against a sort-merge oracle, plus end-to-end queue histories",
    "C24": T + "kernels run interpreted and on an interleaving, bounds-checked memory simulator under a slot-ownership monitor, plus end-to-end table histories",
    "C25": T + "elementwise numpy oracle on monitored executions (single-element perturbations)",
    "C26": T + "per-field plain-array oracle on monitored executions",
    "C27": T + "logging formatter hooked into record types plus a parser of the rendered text",
    "C28": T + "declared-table oracle on types built from generated declarations; refusal monitor",
    "C29": T + "differential monitor against jax.numpy and between forms of the same call; refusal monitor",
    "C30": T + "conservation monitors during whole searches; final distances, predecessors and visiting orders against textbook searches",
}

NA = {}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    built = os.path.exists(os.path.join(H, "xv", "checks", i.lower() + ".py")) and i not in NA
    if built:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=TECH[i], level="exploration",
                           level_note="held on the executions recorded in the evidence file; no claim beyond them"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks are added to /repo: all monitors observe the public API from /verif. See DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
