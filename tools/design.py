"""Rewrites the generated part of DESIGN.md (per property: method, rules, bounds)
from tools/props.py and the rules the checks declare."""
import ast
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, P  # noqa

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rules(pid):
    src = open(f"{root}/bsa/rules/{pid.lower()}.py").read()
    res = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" \
                and len(n.args) == 2:
            try:
                res.append((n.lineno, ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
            except ValueError:
                pass
    return [(a, b) for _, a, b in sorted(res)]


def caught():
    res = {}
    base = root + "/seeded"
    for d in sorted(os.listdir(base)) if os.path.isdir(base) else ():
        m = json.load(open(f"{base}/{d}/meta.json"))
        res.setdefault(m["property"], []).append((d, m["needs"]))
    return res


bugs = caught()
out = []
for p in sorted(P + NA, key=lambda p: p["id"]):
    out.append(f"### {p['id']} — {p['title']}\n")
    if "reason" in p:
        out.append(f"*Not applicable.* {p['reason']}\n")
        continue
    out.append(f"*Quantifies over:* {p['text']}.\n")
    out.append(f"*Why tests cannot settle it:* {p['why']}\n")
    out.append(f"*Method:* {p['technique']}.\n")
    if rules(p["id"]):
        out.append("*Rules:*\n")
        out += [f"- `{a}`: {b}" for a, b in rules(p["id"])]
        out.append("")
    out.append(f"*Bounds and trust:* {p['note']}\n")
    for d, needs in bugs.get(p["id"], ()):
        out.append(f"*Seeded change:* `seeded/{d}` (needs: {needs})\n")
text = open(root + "/DESIGN.md").read()
a, b = "<!-- generated by tools/design.py -->", "<!-- end of generated part -->"
i, j = text.index(a) + len(a), text.index(b)
open(root + "/DESIGN.md", "w").write(text[:i] + "\n\n" + "\n".join(out) + "\n" + text[j:])
