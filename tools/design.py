#!/usr/bin/env python3
"""Generates /verif/DESIGN.md from tools/design_head.md, the properties, the harness sources
(rule, assumptions, case counts) and seeded/*/meta.json + tools/seeds.txt (what catches what)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
orc = {}
for blk in open(f"{V}/tools/oracles.txt").read().split("\n@")[0:]:
    blk = blk.lstrip("@").strip()
    if blk:
        k, _, t = blk.partition(" ")
        orc[k] = t.strip()
def unq(s): return bytes(s, "utf8").decode("unicode_escape") if "\\" in s else s
out = [open(f"{V}/tools/design_head.md").read().rstrip(), "", "## Properties", ""]
for d in props:
    i = d["id"]
    f = f"{V}/harness/src/props/{i.lower()}.rs"
    out.append(f"### {i} {d['title']}\n")
    if not os.path.exists(f):
        out.append("Not claimed.\n"); continue
    s = open(f).read()
    s = s[s.rindex("pub fn prop("):]
    parts = re.findall(r'Part\s*\{\s*name:\s*"([^"]+)",\s*run(?::\s*\w+)?,\s*quick:\s*([\d_]+),\s*thorough:\s*([\d_]+)', s)
    rule = re.search(r'rule:\s*"((?:[^"\\]|\\.)*)"', s).group(1)
    ass = re.search(r'assumptions:\s*&\[(.*?)\]', s, re.S).group(1)
    ass = re.findall(r'"((?:[^"\\]|\\.)*)"', ass)
    if i in orc: out.append(f"*Specified and oracle.* {orc[i]}\n")
    out.append(f"*Generated.* {rule}\n")
    out.append("*Bounds.* Cases, quick / thorough: " + ", ".join(f"{n} {int(a):,} / {int(b):,}" for n, a, b in parts) + ". " +
               ("Assumptions: " + "; ".join(a.rstrip(".") for a in ass) + "." if ass else "") + "\n")
    out.append(f"*Why tests cannot settle it.* {d['why_tests_cant']}\n")
out += ["## Seeded bugs", "",
        "Each was written from the text of a property and the code, in a scratch copy, and kept only when it compiles, passes the stable tests and its demonstration fails.", "",
        "| seed | property | needs | caught by | with |", "|---|---|---|---|---|"]
caught = {}
for l in open(f"{V}/tools/seeds.txt"):
    if l.strip():
        a, _, b = l.strip().partition(" ")
        c, _, n = b.partition(" ")
        caught[a] = (c, n)
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    c = caught.get(n, ("not measured", ""))
    out.append(f"| {n} | {j['property']} | {j['needs']} | {c[0]} | {c[1]} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
