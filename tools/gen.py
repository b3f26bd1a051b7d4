#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (committed files; rerun after editing)."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "sa"), os.path.join(V, "rules")]
import core
for m in sorted(f[:-3] for f in os.listdir(os.path.join(V, "rules")) if f.endswith(".py")):
    importlib.import_module(m)

O, S, L, R, B, K, T, P = ("src/oqnlp.rs", "src/scatter_search.rs", "src/local_solver/builders.rs", "src/local_solver/runner.rs", "src/observers/mod.rs",
                          "src/checkpoint.rs", "src/types.rs", "src/problem.rs")
F, PY, PB, PO = "src/filters.rs", "python/src/lib.rs", "python/src/builders.rs", "python/src/observers.rs"
S1, S2 = "src/observers/stage1.rs", "src/observers/stage2.rs"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


exec(open(os.path.join(V, "tools", "props.py")).read())

seen = set()
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in seen and len(p["title"]) <= 80, p["id"]
        seen.add(p["id"])
        if p["id"] not in core.RULES and p["technique"]:
            print("no rule yet:", p["id"])
            continue
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
assert set(core.RULES) <= seen, set(core.RULES) - seen

TRUST = ("Static: decided on the MIR rustc emits for /repo's current tree, whole call graph inlined; trusted are rustc's MIR, the models of "
         "std/rayon/argmin functions in sa/models and the semantics of floats and overflow as mathematical symbols. ")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other", "level_note": TRUST + p["note"],
    } for p in PROPS if p["id"] in core.RULES],
    "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in PROPS if not p["technique"]],
    "notes": "No hooks in /repo are needed: the analyser reads the compiler's own representation of the unmodified tree. All commits in /repo "
             "are fix: commits, listed in known_findings.json.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
