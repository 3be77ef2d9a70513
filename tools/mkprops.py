"""Writes properties.jsonl and MANIFEST.json from the table below.   python3 tools/mkprops.py"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOTE = {}
LEVEL = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="proof", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over.split(), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(),
                          "mechanism": [{"name": m.split("@")[0].strip(), "where": m.split("@")[1].strip()} for m in mech],
                          "state": [{"name": s.split("|")[0].strip(), "meaning": s.split("|")[1].strip(), "where": s.split("|")[2].strip()} for s in state],
                          "observe_at": list(observe), "hook_needed": None}})
    LEVEL[id] = level
    NOTE[id] = " ".join(note.split())


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

COMMON = ("Obligations are generated from /repo's current source on every run by executing it on symbolic values. "
          "Trusted: the executor in vc/sym and vc/tens (cross-checked against CPython runs in every check), CPython and "
          "numpy indexing semantics, z3; floating point treated as exact arithmetic. ")
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hook"], capture_output=True, text=True).stdout.split()
M = {"version": 1,
     "setup_cmd": "python3-vt -c 'import z3, sympy, numpy, scipy, yaml' 2>/dev/null || python3-vt -c 'import z3, numpy, scipy'",
     "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo's source unchanged", "source_commits": commits},
     "checks": [], "not_applicable": NA,
     "notes": "Contracts live in vc/checks/*.py next to the generator vc/harness.py; see DESIGN.md."}
for p in P:
    i = p["id"]
    if i in {n["property"] for n in NA}:
        continue
    M["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                        "technique": TECH[LEVEL[i]], "level": LEVEL[i], "level_note": COMMON + NOTE[i]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(M["checks"]), "checks")

# ------------------------------------------------------------------ DESIGN.md
tpl = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
rows = []
for p in P:
    if p["id"] in {n["property"] for n in NA}:
        continue
    rows.append(f"### {p['id']} {p['title']}\n\n{HOW.get(p['id'], '')}\n{NOTE[p['id']]}\n".replace("\n\n\n", "\n\n"))
tpl = tpl.replace("@@TABLE@@", "\n".join(rows))
tpl = tpl.replace("@@NA@@", "\n".join(f"* **{n['property']}** {n['reason']}" for n in NA) or "(none)")
known = [l.strip() for l in open(os.path.join(V, "known-findings.txt")) if l.strip() and not l.startswith("#")]
tpl = tpl.replace("@@DEFECTS@@", "\n".join("* " + l for l in known))
caught = {}
if os.path.exists(os.path.join(V, "tools", "caught.json")):
    caught = json.load(open(os.path.join(V, "tools", "caught.json")))
S = []
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    if os.path.exists(os.path.join(sd, d, "meta.json")):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        S.append(f"* `{d}` ({m['property']}): {m['what_it_breaks']} — caught by: {caught.get(d, 'not recorded')}")
tpl = tpl.replace("@@SEEDED@@", "\n".join(S))
open(os.path.join(V, "DESIGN.md"), "w").write(tpl)
