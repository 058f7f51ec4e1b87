#!/opt/venv/bin/python
"""Writes /verif/DESIGN.md: fixed text, per-property notes, and the bounds as the checks themselves state them."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.environ.get("BIG_REPO", "/repo"))
sys.dont_write_bytecode = True
from mc import core

# id: (what is explored and how, oracle, why beyond tests)
NOTES = {}
def note(id, method, oracle, reach, *more):
    NOTES[id] = (method, oracle, reach, more)

exec(open(os.path.join(V, "tools", "design_notes.py")).read())

out = [HEAD]
out.append("\n## The properties, one by one\n\nQuick and thorough bounds are quoted from the checks (the thorough one in parentheses or after 'thorough'). 'Oracle' is what the real code's behaviour is compared with.\n")
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n")
    if i not in NOTES:
        print("no note for", i)
        continue
    method, oracle, reach, more = NOTES[i]
    out.append(f"- **How**: {method}\n- **Oracle**: {oracle}\n- **Beyond tests**: {reach}\n")
    for m in more:
        out.append(f"- {m}\n")
    try:
        m = core.load_property(i)
    except ModuleNotFoundError:
        continue
    out.append(f"- **Bounds** (`mc/{i.lower()}.py`):\n")
    for part in m.PARTS:
        out.append(f"  - *{part.name}*: {part.bound}\n")
    for a in getattr(m, "ASSUMPTIONS", ()):
        out.append(f"- **Assumes**: {a}\n")
seeds = ["## Planted bugs\n\nEach is in `seeded/<id>/`; 'caught' names the quick check that reports it (run with `check.py` on a tree with the patch applied).\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"]
caught = {}
f = os.path.join(V, "tools", "caught.txt")
if os.path.exists(f):
    for line in open(f):
        k, v = line.split(None, 1)
        caught[k] = v.strip()
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, '?')} |\n")
out.append(TAIL.replace("@SEEDS@\n", "".join(seeds)))
text = "".join(out)
open(os.path.join(V, "DESIGN.md"), "w").write(text)
print(len(text))
