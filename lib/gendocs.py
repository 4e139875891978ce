#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from props/*/prop.py and lib/design_head.md.
props/<id>/prop.py: PROP = dict(title, statement, over, text, why, files, mechanism[(name, where)], design, note, [na=reason])"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(V + "/props/*/prop.py")):
    ns = {}
    exec(open(f).read(), ns)
    p = ns["PROP"]
    p["id"] = os.path.basename(os.path.dirname(f))
    props.append(p)
clean = lambda s: " ".join(s.split())
with open(V + "/properties.jsonl", "w") as o:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p.get("observe"): a["observe_at"] = p["observe"]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": clean(p["statement"]),
            "quantifier": {"over": p["over"], "text": clean(p["text"])}, "why_tests_cant": clean(p["why"]), "anchors": a}) + "\n")
TECH = "symbolic execution of the LLVM IR of the real sources (psisym), assertions decided by the Z3 SMT solver over all values within bounds"
man = {"version": 1, "setup_cmd": "bash engine/build.sh build/psisym",
       "checks": [], "not_applicable": [],
       "notes": "One driver (run.py) and one engine (engine/) decide every property; props/<id>/ holds the harness, the bounds and the text. Quick and thorough differ in bounds only."}
sec = []
for p in props:
    sec.append(f"### {p['id']} {p['title']}\n\n{clean(p['statement'])}\n")
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": clean(p["na"])})
        sec.append("**Not applicable**: " + clean(p["na"]) + "\n")
        continue
    ns = {"REPO": "/repo", "VERIF": "/verif"}
    exec(open(V + "/props/" + p["id"] + "/spec.py").read(), ns)
    S = ns["SPEC"]
    man["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "technique": TECH, "level": p.get("level", "model_checking"), "level_note": clean(p["note"] + " Bounds: " + S["bounds"] + ". " + ("Assumes: " + "; ".join(S["assumptions"]) + "." if S["assumptions"] else ""))})
    sec.append("* Real code encoded: " + ", ".join(f"`{s}`" for s in S["sources"]) + " (plus the headers they include).")
    for e in S["entries"]:
        sec.append(f"* `{e['fn']}`: {e.get('what', '')}.")
    sec.append("* Bounds: " + S["bounds"] + ".")
    if S["assumptions"]: sec.append("* Assumptions and what lies outside: " + "; ".join(S["assumptions"]) + ".")
    sec.append("* " + clean(p["design"]) + "\n")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
seeded = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeded.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {clean(m['what_it_breaks'])} | {clean(m['needs'])} | {m.get('caught', '?')} |")
head = open(V + "/lib/design_head.md").read()
tail = open(V + "/lib/design_tail.md").read() if os.path.exists(V + "/lib/design_tail.md") else ""
open(V + "/DESIGN.md", "w").write(head + "\n## Properties\n\n" + "\n".join(sec) + "\n## Planted bugs\n\n| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(seeded) + "\n\n" + tail)
print(len(props), "properties,", len(man["checks"]), "claimed,", len(seeded), "planted bugs")
