"""Writes the tables of DESIGN.md (bounds, planted bugs) from the checks and from seeded/."""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def put(text, mark, body):
    return re.sub(rf"(<!-- {mark} -->\n).*?(<!-- end -->)", lambda m: m[1] + body + m[2], text, flags=re.S)


rows = ["| id | quick | thorough |\n|---|---|---|\n"]
for f in sorted(glob.glob(HERE + "/props/C[0-9]*.py")):
    n = os.path.basename(f)[:-3]
    b = importlib.import_module("props." + n).BOUNDS
    rows.append(f"| {n} | {b['quick']} | {b['thorough']} |\n".replace("||", "∥"))
bugs = ["| bug | caught by | needs |\n|---|---|---|\n"]
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(f))
    bugs.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |\n")
p = HERE + "/DESIGN.md"
s = open(p).read()
s = put(put(s, "bounds", "".join(rows)), "bugs", "".join(bugs))
open(p, "w").write(s)
