"""Write DESIGN.md from tools/DESIGN.in, the checks' META, the known findings and seeded/."""
import ast, glob, json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
M = json.load(open(f"{HERE}/MANIFEST.json"))
claimed = {c["property"]: c for c in M["checks"]}
cost = json.load(open(f"{HERE}/tools/cost.json"))
notes = json.load(open(f"{HERE}/tools/oracles.json"))


def meta(i):
    t = ast.parse(open(f"{HERE}/checks/{i.lower()}.py").read())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "META":
            for k in n.value.keywords:
                if k.arg == "assumptions":
                    return ast.literal_eval(k.value)
    return []


out = []
for p in P:
    i = p["id"]
    if i not in claimed:
        continue
    out.append(f"### {i} {p['title']}\n")
    out.append(f"* Oracle: {notes.get(i, '')}")
    out.append(f"* Claimed: {claimed[i]['level_note']}")
    for a in meta(i):
        out.append(f"* Bounds/assumptions: {a}")
    out.append(f"* Cost: {cost.get(i, '?')} s (quick)\n")
d = json.load(open(f"{HERE}/known-findings.json"))
fixed = "\n".join("* " + f[len("fixed: "):] for f in d["fixed"])
hits = json.load(open(f"{HERE}/tools/hits.json"))
rows = ["| seed | property | needs | result |", "|---|---|---|---|"]
for s in sorted(glob.glob(f"{HERE}/seeded/*/meta.json") + glob.glob(f"{HERE}/seeded_more/*/meta.json")):
    n = os.path.basename(os.path.dirname(s))
    m = json.load(open(s))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {hits.get(n, 'not run')} |")
na = "\n".join(f"* {x['property']}: {x['reason']}" for x in M["not_applicable"])
t = open(f"{HERE}/tools/DESIGN.in").read()
t = t.replace("@TABLE@", "\n".join(out)).replace("@FIXED@", fixed).replace("@SEEDS@", "\n".join(rows)).replace("@NA@", na)
open(f"{HERE}/DESIGN.md", "w").write(t)
