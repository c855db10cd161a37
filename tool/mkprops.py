#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P, NA, NOTE

def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for pid, title, stmt, over, text, why, files, mech in P:
            assert len(title) <= 80, title
            f.write(json.dumps({
                "id": pid, "title": title, "statement": stmt,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    na = dict(NA)
    checks = []
    for p in P:
        if p[0] in na:
            continue
        assert glob.glob(os.path.join(VERIF, "units", p[0] + "*.cc")), p[0]
        checks.append({
            "property": p[0], "quick_cmd": "python3-vt check.py %s quick" % p[0],
            "thorough_cmd": "python3-vt check.py %s thorough" % p[0],
            "technique": "contract-based deductive verification: weakest-precondition style VC generation over the LLVM IR of the unmodified /repo functions, obligations discharged by a polynomial normaliser, z3 and cvc5",
            "level": "proof",
            "level_note": NOTE.get(p[0], NOTE["*"])})
    json.dump({
        "version": 1,
        "setup_cmd": "python3-vt check.py setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA],
        "notes": "see DESIGN.md; tool/mkprops.py regenerates this file and properties.jsonl from tool/props.py"},
        open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")
main()
