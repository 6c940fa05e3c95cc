#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUND = ("Exhaustive within the stated bounds (coverage.phases of the evidence lists every enumerated space with its size) on the real code, "
         "compiled from /repo in a checked and in a plain build. ")
MAPT = "explicit-state exploration of the real tree against a reference map: all histories, subset states x suffixes, edge-covering walks, sweeps"
T = {
 "C01": ("model_checking", MAPT, "Trusts std's BTreeMap as the reference and the lawfulness of the harness's keys and hashers."),
 "C02": ("model_checking", MAPT, "As C01; removal results, emptiness and complete drains are judged."),
 "C03": ("model_checking", MAPT, "As C01; every query is asked at every universe key, its neighbours and the extremes of the key type."),
 "C04": ("model_checking", MAPT, "As C01; writes go through every mutable query at every probe."),
 "C05": ("model_checking", "exhaustive exploration of all forward/backward step interleavings over all subset states of the real tree", "All 2^(n+2) direction words for contents of n <= 12 entries; periodic words beyond."),
 "C06": ("model_checking", MAPT, "As C01; sizes, bounds and dismantling are judged."),
 "C07": ("exploration", "exhaustive enumeration of key domains (complete to 32 bits, boundary alphabets above)", "Complete for 8-, 16- and 32-bit keys and U2/U4; products of boundary values for wider keys and arrays."),
 "C08": ("exploration", "exhaustive enumeration of key domains (complete to 32 bits, boundary alphabets above)", "Complete for keys up to 32 bits; products of boundary values for 64-bit keys."),
 "C09": ("model_checking", "explicit-state exploration of the real child collections against a map-of-maps model, including must-panic removals", "Trusts std's BTreeMap as the reference."),
 "C10": ("model_checking", "explicit-state exploration of the real byte containers: all subsets of a 16-key boundary sub-domain, all small and nearly full sets, all 256 probes", "Trusts std's BTreeMap as the reference."),
 "C11": ("model_checking", "lock-step differential exploration of all configurations over corresponding keys, with an allocation monitor", "One configuration (the BTreeMap implementation) is the reference of the comparison."),
 "C12": ("model_checking", "explicit-state exploration with a per-value ledger of births, holders and drops", "Values that record their own creation and destruction stand for arbitrary values."),
 "C13": ("fault_enumeration", "enumeration of every panic point of caller-supplied code in every operation from every small state", "Memory faults are seen through the drop ledger, and crashes through the supervising process; caller-supplied code panics but does not itself break memory."),
 "C14": ("model_checking", "explicit-state exploration with counters in caller-supplied keys, leaves, lists and collections; bound checked on every operation of growing histories", "Steps inside the byte set, the array and the hash table themselves are not visible; the constant is generous."),
 "C15": ("model_checking", "explicit-state exploration of all two-tree histories after cloning", "Configurations whose parts are all cloneable."),
 "C16": ("model_checking", MAPT, "As C01, over complete 4-bit key universes with every split."),
 "C17": ("model_checking", MAPT + "; two builds compared by digests", "Builds with and without debug assertions and overflow checks; other compiler settings are trusted."),
 "C19": ("model_checking", "explicit-state exploration under a metering allocator: all short histories, subset states taken apart, short words repeated hundreds of times, macro-histories", "The bound on what is held is relative to a freshly built tree."),
 "C18": ("exploration", "exhaustive enumeration of the 2- and 4-bit domains and of borrowed/owned key combinations", "Complete for U2 and U4; boundary values for the wrapped keys."),
}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/mc/src/bin/{i.lower()}.rs"):
        lvl, tech, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + tech, "level": lvl, "level_note": BOUND + note})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the public API. Findings and repairs: known_findings.txt."}
open(f"{ROOT}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
