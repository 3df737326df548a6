#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the harness knows and properties.jsonl."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.run([root + "/harness/target/debug/vh"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
TECH = {
    "C32": "property-based testing: generated histories of option changes, reads and conversions over several threads against a per-thread reference model, with shrinking",
    "C11": "property-based testing: generated histories of saves and removals (in memory, open files, paths) against a last-write model, with shrinking",
    "C33": "property-based testing: generated edit and save histories of file objects against a set-of-tags reference model, with shrinking",
    "C34": "property-based testing: generated frame contents, integers and byte streams against independent codecs and round-trips, with shrinking",
    "C35": "property-based testing: generated tags with sizes drawn around the limits of length fields, read-back and refusal oracle, with shrinking",
    "C36": "property-based testing: generated tags carried through generated chains of formats (remap, save, read), preservation oracle per stop, with shrinking",
    "C37": "property-based testing: generated pairs of tags, frames and values; equality against an independent canonical form, hash and order laws, with shrinking",
    "C38": "property-based testing: generated files and unwritable tags, byte-identity oracle after refusals; metamorphic relation between lossy and strict text encoding, with shrinking",
    "C39": "property-based testing: structured generation and mutation of files of all formats, round-trip oracle over what was read (read, save, read again), native and generic, with shrinking",
    "C40": "property-based testing: generated numbers and frame IDs against tables written from the format specifications, in both directions",
    "C21": "property-based testing: generated operation sequences on the in-memory tags against reference models, with shrinking",
    "C22": "property-based testing: exhaustive key tables and generated names against relations between the mappings",
}
NOTE = ("Randomised search over generated inputs with shrinking; it samples the input space described in "
        "DESIGN.md and proves nothing beyond the cases it ran. Trusts the harness's own independent parsers.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "property-based testing: generated files, tags and operation sequences against an independent parser / model oracle, with shrinking"),
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every property is checked through the public API."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
