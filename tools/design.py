#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md: findings and planted bugs."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(ROOT, "DESIGN.md")).read()

def fill(mark, lines):
    global text
    a, b = f"<!-- {mark} -->", f"<!-- /{mark} -->"
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + "\n" + "\n".join(lines) + "\n" + text[j:]

known = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
fill("findings", ["| check | commit | what failed |", "|---|---|---|"] + [
    f"| {f['property']} | {f.get('commit', '-')} | {f['what']} |" for f in known])

rows = ["| seed | caught by | needs |", "|---|---|---|"]
seeded = os.path.join(ROOT, "seeded")
for name in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, name, "meta.json")))
    needs = re.sub(r"\s+", " ", m["needs"])
    rows.append(f"| {name} | {m['property']} | {needs} |")
fill("seeds", rows)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
