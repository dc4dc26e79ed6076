#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md from known_findings.txt, seeded/ and tools/caught.json"""
import glob, json, os, re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + "/DESIGN.md").read()


def put(name, body):
    global t
    t = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda m: f"<!-- {name} -->\n{body}\n<!-- /{name} -->", t, flags=re.S)


rows = []
for l in open(H + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        rows.append(f"| {m[1]} | {m[2]} | {m[3]} |")
put("fixes", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(rows))
caught = json.load(open(H + "/tools/caught.json")) if os.path.exists(H + "/tools/caught.json") else {}
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |")
put("seeds", "| change | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(H + "/DESIGN.md", "w").write(t)
