#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The list of built checks is in BUILT."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "crates/"

def op(*names):
    return [f"{C}rx_core_operator_{n}/src" for n in names]
def ob(*names):
    return [f"{C}rx_core_observable_{n}/src" for n in names]

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, crate="core", level_note=None, built=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
        _crate=crate, _built=built, _note=level_note))

exec(open(os.path.join(HERE, "tools", "property_list.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

checks, na = [], []
for p in P:
    if not p["_built"]:
        na.append(dict(property=p["id"], reason="the generator and oracle for it are not finished yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique="property-based testing: generated histories against a reference model, with shrinking",
        level="exploration",
        level_note=p["_note"] or "Randomised, model-based exploration of generated programs and histories; trusts the reference model in the harness, single threaded unless stated."))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks only use the public API of the crates", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. KNOWN_FINDINGS.txt lists findings and fixed defects.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
