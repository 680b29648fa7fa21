#!/usr/bin/env python3
"""Writes MANIFEST.json (a development aid; no check runs it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import docprops
try:
    import cliprops
    CLI = cliprops.PROPS
except ImportError:
    CLI = {}
ACC = "TLA+ acceptor of renderer output (HtmlTrace) checked with TLC against traces recorded from the real renderer"
GEN = "TLA+ specification explored with TLC; every generated behaviour replayed in the real renderer and compared exactly"
TECH = {
 "C01": ACC, "C02": ACC + "; target spellings generated from Targets.tla", "C03": ACC + " (outcomes)", "C05": ACC, "C06": ACC,
 "C04": "TLA+ specification of histories of rendering calls explored with TLC and replayed on threads of the real renderer",
 "C16": "TLA+ specification of documents made of separated parts explored with TLC; real rendering of the whole compared with that of the parts",
}
CT = getattr(cliprops, "TECH", {}) if CLI else {}
NOTE = {
 "C01": "all sequences of up to 3 fragments, hostile payloads in every position and random longer documents; every different trace of markup events is accepted or rejected by the specification. Trusts the tokenizer of HTML in the harness.",
 "C02": "every spelling of targets up to the bound, read as a browser reads it; random documents beyond. Trusts the harness's HTML reader.",
 "C03": "bounded documents exhaustively, long repetitions and random ones; each document has a time limit. Deep nesting is a listed finding.",
 "C04": "all short histories, sampled long ones; interleavings inside concurrent calls are those the machine produces.",
}
DEF = "bounded-exhaustive in the stated alphabets, sampled beyond; equality with the specification's answer is exact on structure and text. Assumes documents outside the alphabets behave alike; trusts TLC and the harness's HTML reader."
CN = getattr(cliprops, "NOTE", {}) if CLI else {}
checks, na = [], []
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in docprops.PROPS or i in CLI:
        checks.append({"property": i, "quick_cmd": f"python3 run/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run/check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": CT.get(i) or TECH.get(i, GEN), "level": "model_checking",
                       "level_note": CN.get(i) or NOTE.get(i, DEF)})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash run/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specification language: TLA+, checked with TLC. No hooks in /repo: everything is observed through gfm::Parser, smd_core's public functions and the smd binary."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
