#!/usr/bin/env python3
# Source of MANIFEST.json (run from /verif: python3 tools/gen_manifest.py)
import json
props = [json.loads(l) for l in open("properties.jsonl")]
CLAIMED = {
 "P01": "Generated indexes (built, partially built, loaded and hand-made graphs, 4 element types) and queries; every result checked for ids, distances, order, prefix, closure under the saved graph.",
 "P02": "Generated strongly connected graphs and complete small indexes; results compared with brute force.",
 "P03": "Generated generic data sets: recall against brute force with calibrated floors, distance evaluations counted by a user-defined container.",
 "P04": "Generated histories of push/build/partial/save/reload/reorder/search; structural invariants after every step, in memory and in the saved file.",
 "P05": "Generated configurations and sizes; layer sizes checked against an independent description, partial builds and refusals.",
 "P06": "Round trip of generated indexes through bytes at any alignment, mapped files, builders; independent decoder and encoder of the format.",
 "P07": "Round trip of generated collections; independent decoder and encoder.",
 "P08": "Differential: resumed from a saved file against continued in memory.",
 "P09": "Metamorphic: reordered index against the renamed original, brute-force order of keys.",
 "P10": "Reference distances in double precision over many storage paths.",
 "P11": "Reference normalization and quantization in double precision.",
 "P12": "Generated mixes of zero, duplicate and ordinary elements: no failure, invariants, findability with calibrated bounds.",
 "P13": "Model-based histories against lists over a table.",
 "P14": "Generated word lists and files against an independent parser, encoder and decoder; precomputed sums against double precision.",
 "P15": "Model-based histories of inserts, batches, searches, saves and reloads against a list and the graph invariants.",
 "P16": "Concurrent histories with random delays, logged with a logical clock and checked for linearizability; blocking detected by quiescence.",
 "P17": "Builds and reorderings in pools of 2 to 8 threads with random delays: invariants, sizes, complete linking, determinism with one thread.",
 "P18": "Every fault at every call of an in-memory destination (per case; sampled above 60 calls), limited files, full devices.",
 "P19": "Damaged index and element files next to inaccessible pages; outcome of the process and header refusal rules.",
 "P20": "Model-based and differential: generated histories of calls of the Python module, against the same calls of the library and a model of what was appended.",
 "P22": "The same reads sequentially and from 2 to 8 threads with random delays, for every storage.",
 "P23": "Generated structured data in random order: distances of elements with neighboring ids against exact grouping and random order with a calibrated bound; key laws against brute force.",
 "P24": "The generated cases and histories of the other checks in programs built with the address and thread sanitizers; a report is a violation.",
 "P25": "Files made by an independent encoder of the format, loaded and written again for an independent decoder.",
 "P21": "Model-based histories against lists of vectors, for every storage.",
}
NOT = {}
LEVEL = {"P18": "fault_enumeration"}
TECH = {}
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "technique": TECH.get(i, "property-based testing: generated inputs and histories against an explicit oracle, with shrinking"),
        "level": LEVEL.get(i, "exploration"),
        "level_note": CLAIMED[i] + " Holds on the cases explored (counts in the evidence file); nothing is claimed beyond them.",
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh harness && ./build.sh pyharness",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NOT.get(p["id"], "check under construction")} for p in props if p["id"] not in CLAIMED],
    "notes": "run.sh rebuilds the harness from /repo's working tree, runs the generated cases in 8 worker processes and writes evidence/<id>.json; replay a violation with harness/target/release/granne-verif replay <file>.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
