#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after editing; keep in step with properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (proptest generators, shrinking): "
C = {
 "C01": (PBT + "validity predicate over generated valid / singly-faulted matrix stacks, stateful assignment histories",
         "Searches for an accepted invalid or a rejected valid matrix, and for lost state. Row sums between rounding and clear error are not judged."),
 "C02": (PBT + "stateful model-based testing of edit histories against a set-of-edges model",
         "Every observable of the graph compared with the model after every step of histories of up to 40 operations."),
 "C03": (PBT + "differential against mixed-radix arithmetic, bijection checked exhaustively per generated network",
         "All configurations of every generated parent set; up to 12 nodes and cardinality 12."),
 "C04": (PBT + "differential against a reference joint generator",
         "Every entry of the joint matrix, up to 1000 joint states, entries compared up to rounding."),
 "C05": (PBT + "invariant over sampled paths",
         "Every step of every sampled path is checked; what is not sampled is not seen."),
 "C06": (PBT + "statistical invariant (martingale deviation bound) over generated processes",
         "Detects a rate wrong by a fixed fraction once the cell was visited often enough; false alarms below 1e-8 per run by an exponential deviation inequality."),
 "C07": (PBT + "differential: same inputs twice, prefixes, pool sizes and concurrent callers",
         "Thread schedules are those the machine produces on pools of 1 to 8 threads; they are not enumerated."),
 "C08": (PBT + "differential against a reference pass, and metamorphic relations",
         "Counts compared exactly, times up to rounding."),
 "C09": (PBT + "differential against a reference estimator",
         "Rows without residence time are not judged (the property makes no claim there)."),
 "C10": (PBT + "differential against a reference estimator, validity of the result, alpha=tau=0 limit",
         "Includes the round trip of the result through set_cim."),
 "C11": (PBT + "differential against an independent closed form (own log-gamma), metamorphic relations",
         "Compared up to rounding relative to the size of the summands."),
 "C12": (PBT + "validity predicate (local optimality) over generated score tables, metamorphic relations",
         "Scores come from a stand-in score function or from independently computed library scores; ties are excluded by construction."),
 "C13": (PBT + "differential against an independent PC-stable procedure over generated decision patterns and data",
         "Decisions within the numerical margin of a test's threshold are excluded and counted."),
 "C14": (PBT + "differential against independently computed statistics and distribution functions",
         "Own incomplete beta and gamma functions; decisions within the numerical margin of the threshold are excluded and counted."),
 "C15": (PBT + "stateful differential: cached against direct estimation, bit for bit",
         "Sequences of up to 30 requests."),
 "C16": (PBT + "invariants and statistical frequencies over generated graphs",
         "Exact at density 0 and 1; otherwise frequencies of edges and pairs of edges within the deviation bound."),
 "C17": (PBT + "validity predicate over generated parameters, statistical spread",
         "Own validity predicate, not only the library's; spread judged on eighths of the interval."),
 "C18": (PBT + "differential against a reference sum and a stateful model of the tables",
         "Sums compared up to rounding, table entries exactly."),
 "C19": (PBT + "differential against matrix-exponential means and variances, path identities (constant, linear, telescoping, dwelling times), reconstructed stopping rule",
         "Identities hold up to rounding for every set of paths; expectations within the deviation bound; the stopping rule is judged outside a numerical margin."),
 "C20": (PBT + "differential: whole space against single states, ratios against a naive maximum",
         "State spaces small enough to evaluate completely."),
 "C21": (PBT + "acceptance predicate over generated well- and ill-formed inputs",
         "A refusal is a panic, as the code documents it; the message is not judged."),
 "C22": (PBT + "stateful model of the single slot; law and rewards of amalgamated networks against the network",
         "Statistical parts use the deviation bound of C06 and C19."),
 "C23": (PBT + "end-to-end round trip: generated network, simulated data, learned structure and parameters",
         "Strong parents and data sized by a power computation; cases needing too much data are counted and skipped."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
assert [p["id"] for p in props] == sorted(C), "properties and checks differ"
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": [{
        "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": C[i][0], "level": "exploration", "level_note": C[i][1]} for i in sorted(C)],
    "not_applicable": [],
    "notes": "No hooks: everything the checks need of reCTBN is public. VERIF_SEED selects the random stream, VERIF_SCALE multiplies the case counts. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
