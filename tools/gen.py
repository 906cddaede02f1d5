import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.props import P
import importlib, re
out = []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                    why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)))
with open(f"{H}/properties.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
checks, na, rows = [], [], []
for p in P:
    src = f"{H}/checks/{p['id'].lower()}.py"
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        rows.append(f"### {p['id']} {p['title']}\nNot applicable: {p['na']}\n")
        continue
    s = open(src).read()
    m = re.search(r'^BOUNDS = (.*)$', s, re.M)
    b = eval(m.group(1))
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                       technique="symbolic execution of the real Python code with SMT (z3/cvc5), counterexamples replayed",
                       level="model_checking",
                       level_note=f"Bounded: {b}. Real arithmetic instead of IEEE-754; linear-algebra and convex-solver calls by contract (DESIGN.md). {p['how']}"))
    rows.append(f"### {p['id']} {p['title']}\n*What is decided.* {p['statement']}\n\n*How.* {p['how']}\n\n*Bounds.* {b}.\n")
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="./check CXX [quick|thorough] [case...]; ./replay FILE re-runs a reported counterexample on the real code."), open(f"{H}/MANIFEST.json", "w"), indent=1)
d = open(f"{H}/DESIGN.md").read() if os.path.exists(f"{H}/DESIGN.md") else "<!-- P -->\n<!-- /P -->\n"
a, rest = d.split("<!-- P -->")
_, z = rest.split("<!-- /P -->")
d = a + "<!-- P -->\n" + "\n".join(rows) + "<!-- /P -->" + z
import glob
t = ["| id | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    m = json.load(open(f))
    t.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {' '.join(str(m['needs']).split()).replace('|', '/')} |")
a, rest = d.split("<!-- B -->")
_, z = rest.split("<!-- /B -->")
open(f"{H}/DESIGN.md", "w").write(a + "<!-- B -->\n" + "\n".join(t) + "\n<!-- /B -->" + z)
