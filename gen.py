#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/text.py and props/registry.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "props"))
import registry  # noqa: E402
import text  # noqa: E402

ps, checks, na = [], [], []
for p in text.P:
    st = p["statement"]
    ps.append(dict(id=p["id"], title=p["title"], statement=st, quantifier=dict(over=p["over"], text=p["qtext"]),
                   why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]],
                                observe_at=p["observe"], hook_needed=None)))
    sp = registry.REG.get(p["id"])
    if p["na"] or not sp:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
        continue
    parts = []
    if sp.get("cpp"):
        parts.append("symbolic execution of the C++ sources' LLVM IR, decided by z3/cvc5, native replay")
    if sp.get("py"):
        parts.append("symbolic execution of the Python sources on symbolic tensors, decided by z3, concrete replay")
    b = "; ".join(sp[k]["bounds"] for k in ("cpp", "py") if sp.get(k))
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                       thorough_cmd=f"python3 check.py {p['id']} --thorough", evidence_file=f"evidence/{p['id']}.json",
                       technique="; ".join(parts), level="model_checking",
                       level_note=("Every execution within the bounds is covered by solver queries over the real code. Bounds: "
                                   + b + ". Floats as reals unless stated; random draws arbitrary. Trusted: the executor in "
                                   "/verif/engine, clang, z3/cvc5. " + p["note"]).strip()))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in ps:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na), f, indent=1)
    f.write("\n")


# ---- the generated parts of DESIGN.md
def section(name, lines):
    global doc
    a, b = f"<!-- {name} -->\n", f"<!-- end {name} -->"
    i, j = doc.index(a) + len(a), doc.index(b)
    doc = doc[:i] + "\n".join(lines) + "\n" + doc[j:]


doc = open(os.path.join(ROOT, "DESIGN.md")).read()
out = []
for p in text.P:
    sp = registry.REG.get(p["id"])
    out.append(f"### {p['id']} {p['title']}\n")
    if not sp:
        out.append(f"Not checked: {p['na'] or 'no check built yet'}\n")
        continue
    for k, e in (("cpp", "A"), ("py", "B")):
        if k not in sp:
            continue
        q = sp[k]
        hs = q["harness"] if isinstance(q["harness"], list) else [q["harness"] + ".py"]
        names = sorted({(r if isinstance(r, str) else r["run"]) for r in q["runs"]})
        out.append(f"Engine {e}, `{k}/{hs[0]}`, runs: {', '.join(names)}. Bounds: {q['bounds']}.")
        for a in q.get("assumptions", []):
            out.append(f"Assumes: {a}.")
    out.append(f"Why tests cannot settle it: {p['why']}" + (f" Note: {p['note']}" if p["note"] else "") + "\n")
section("properties", out)
kf = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
section("findings", [f"* {k['property']} {k['what'] if k['status'] != 'fixed' else k['what'].split(' ', 2)[2]}"
                     + (" (fixed)" if k["status"] == "fixed" else " (recorded)") for k in kf])
sd = os.path.join(ROOT, "seeded")
rows = ["| id | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(ROOT, "props", "caught.json")))
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, 'not confirmed yet')} |")
section("planted", rows)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(doc)
