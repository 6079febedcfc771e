"""Writes DESIGN.md: the prose below, the rules as the checks state them (from the last evidence files), and
what tools/matrix.py measured on the planted bugs."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
PROSE = {}
exec(open(os.path.join(V, "tools", "design_props.py")).read())

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [HEAD]
out.append("## The properties, one by one\n")
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i in na:
        out.append(f"Not applicable. {na[i]}\n")
        continue
    for k, t in zip(("Analysed", "Oracle", "Bounds", "Why not a test"), PROSE[i]):
        out.append(f"- **{k}.** {t}")
    e = os.path.join(V, "evidence", f"{i}.json")
    if os.path.exists(e):
        d = json.load(open(e))
        out.append(f"- **Cost.** about {max(1, round(d['wall_s']))} s; {d['coverage']['obligations']} obligations on the unchanged tree.")
        out.append("- **Rules.**")
        for r, v in sorted(d["coverage"]["rules"].items()):
            out.append(f"  - `{r}`: {v['rule']}")
    out.append("")
m = os.path.join(V, "tools", "matrix.json")
rows = json.load(open(m)) if os.path.exists(m) else {}
tab = ["| planted bug | breaks | caught by | what it needs |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", i, "meta.json")
    if not os.path.exists(f):
        continue
    d = json.load(open(f))
    r = rows.get(i, {})
    by = ", ".join(f"{p} ({', '.join(rs)})" for p, rs in sorted(r.items()) if rs) or "not run" if r or i not in rows else "nothing"
    tab.append(f"| {i} | {d['property']} | {by} | {d['needs']} |")
out.append(TAIL.replace("@MATRIX@", "\n".join(tab)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
