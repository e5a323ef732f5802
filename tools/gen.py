#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the META of the check modules."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def meta(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("ID", "META", "ASSUMPTIONS", "RULE", "N"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    mods = sorted((meta(p) for p in glob.glob(V + "/checks/*.py")), key=lambda m: m["ID"])
    na = json.load(open(V + "/tools/not_applicable.json"))
    props, checks = [], []
    for m in mods:
        M = m["META"]
        assert len(M["title"]) <= 80, m["ID"]
        props.append({
            "id": m["ID"], "title": M["title"], "statement": M["statement"],
            "quantifier": {"over": M["over"], "text": M["quant"]},
            "why_tests_cant": M["why"],
            "anchors": {"files": M["files"], "mechanism": [{"name": a, "where": b} for a, b in M["mech"]],
                        "observe_at": M.get("observe", []), "hook_needed": None}})
        checks.append({
            "property": m["ID"], "quick_cmd": "./check %s --tier quick" % m["ID"],
            "thorough_cmd": "./check %s --tier thorough" % m["ID"],
            "evidence_file": "evidence/%s.json" % m["ID"],
            "technique": M.get("technique", "property-based testing: generated histories against a reference model"),
            "level": "exploration",
            "level_note": M["note"] + (" Assumes: " + "; ".join(m["ASSUMPTIONS"]) + "." if m.get("ASSUMPTIONS") else "")})
    for n in na:
        props.append(n["prop"])
    with open(V + "/properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in na],
           "notes": "Pure Python: every check imports uvm from /repo/src in a fresh process; nothing is built or cached. No hooks in /repo."}
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    design(mods, na)
    print(len(checks), "checks")


def design(mods, na):
    out = [open(V + "/tools/design_head.md").read()]
    for line in open(V + "/known_findings.txt"):
        if line.startswith("finding "):
            out.append("* " + line.strip())
    out.append("\n## Properties and how each is decided\n")
    for m in mods:
        M = m["META"]
        out += ["### %s %s" % (m["ID"], M["title"]), "", M["statement"], "",
                "* Quantified over: %s." % M["quant"], "* Decided by: %s" % M["note"],
                "* Non-trivial case: %s." % m["RULE"], "* Cases: %d (quick) / %d (thorough, within its time budget) per worker, 8 workers." % m["N"],
                "* Beyond the tests: %s" % M["why"]]
        if m.get("ASSUMPTIONS"):
            out.append("* Assumes: %s." % "; ".join(m["ASSUMPTIONS"]))
        out.append("")
    for n in na:
        out += ["### %s %s (not applicable)" % (n["prop"]["id"], n["prop"]["title"]), "", n["reason"], ""]
    res = json.load(open(V + "/tools/seed_results.json"))
    out += ["## Planted bugs", "", "Written from the property text and the code; kept whether or not caught at first (`tools/plant.py`).", "",
            "| bug | property | caught by its check | what it breaks |", "|---|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        k = d.split("/")[-2]
        mt = json.load(open(d))
        out.append("| %s | %s | %s | %s |" % (k, mt["property"], res.get(k, "?"), mt["what_it_breaks"]))
    out.append("")
    tail = V + "/tools/design_tail.md"
    if os.path.exists(tail):
        out.append(open(tail).read())
    open(V + "/DESIGN.md", "w").write("\n".join(out))


main()
