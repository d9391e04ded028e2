#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "Seeded random search with shrinking, then enumeration of the whole stated domain against the oracle; " \
       "the evidence says whether the enumeration of the run was complete. Trusts the reference model and that " \
       "the harness build of raki behaves like any other build."
NOTE = {
 "C01": "Words are enumerated completely; (word, opcode) pairs completely for halfwords, sampled for 32-bit words; "
        "machine words beyond 32 bits by kinds of excess bits and sampled.",
 "C15": "Values up to 32 bits are enumerated completely, wider ones by kinds of excess bits and sampled.",
 "C16": "Words are enumerated completely; (word, opcode) pairs completely for halfwords, sampled for 32-bit words.",
 "C17": "Sampled histories only: self-consistency of every call over fresh processes, orders, repetitions and threads. "
        "Single calls that change later ones are looked for over all supported words; state that takes a rarer "
        "combination of calls than the generated histories contain is out of reach.",
 "C12": "Words are enumerated completely; format flags are tried on one in sixteen 32-bit words and on all halfwords.",
 "C21": "Words are enumerated completely, with a choice of altered copies per word; opcodes and errors are compared in all pairs.",
 "C22": "Words are enumerated completely, with one point of failure per 32-bit word and all of them for halfwords.",
}
NOTE["C25"] = "Every decodable word is tried with one set of values derived from it, scarce ones with 32."
NOTE["C26"] = "Every decodable word is read as decoded, a quarter of them and all scarce ones also with parts set to other values."
NOTE["C24"] = "Words are enumerated completely; pairs of 32-bit words and opcodes and wide machine words are sampled."
NOTE["C23"] = "Streams are sampled; every single supported word is enumerated as a stream of one."
TECH = {"C17": "stateful property-based testing of call histories in fresh processes (order, repetition, threads)"}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": TECH.get(p, "property-based testing: structured random words with shrinking plus domain enumeration against a reference oracle"),
        "level": "exploration", "level_note": NOTE.get(p, ENUM)})
only = sys.argv[1:]
if only:
    checks = [c for c in checks if c["property"] in only]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo. known_findings.txt lists repaired defects. See DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
