#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness files present."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/harness/**/zz_verif_c*.go', recursive=True):
    have |= {m.upper() for m in re.findall(r'Verif_(C\d\d)_', open(f).read())}
notes = json.load(open(root + '/tools/levels.json')) if os.path.exists(root + '/tools/levels.json') else {}
default = ("Bounded symbolic execution of the compiled SSA of the real functions; z3/cvc5 decide every branch and assertion for all input values "
           "within the bounds named per harness in the evidence; counterexamples and sample paths are re-run against the compiled code. "
           "Trusted: the engine's models of library code outside the repository (DESIGN.md), the solvers, and the bounds.")
m = {"version": 1, "setup_cmd": "./check.sh -build", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in have:
        m["checks"].append({
            "property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes.get(i, {}).get("technique", "symbolic execution of the real code's SSA with SMT-decided branches and assertions (z3/cvc5), counterexamples replayed on the compiled code"),
            "level": "model_checking",
            "level_note": notes.get(i, {}).get("note", default)})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "no harness for this property yet")})
m["notes"] = "Every check builds the engine in /verif/engine, loads /repo's working tree, and re-encodes it on each run. No hooks in /repo are needed."
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), "claimed")
