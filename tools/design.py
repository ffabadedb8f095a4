#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then tables from props.py, checks/, known_findings.json, tools/planted.md."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(f"{root}/tools/design_head.md").read()
o += "## Properties, harnesses and bounds\n\nQuick bounds; `thorough` raises them as the bound text says. Oracle: the harness's own account of what it did.\n\n"
for p in PROPS:
    c = json.load(open(f"{root}/checks/{p['id']}.json"))
    o += f"### {p['id']} {p['title']}\n\n{p['why']} Decided for {p['qtext']}. Observed at {', '.join(p['observe'])}.\n\n"
    for h in c["harnesses"]:
        fl = [k for k in ("race", "symhash", "symtime", "clock", "maporder") if h.get(k)]
        o += f"* `{h['pkg']}.{h['fn']}`: {h.get('bounds','')}" + (f" [{', '.join(fl)}]" if fl else "") + "\n"
    o += "\n"
o += "## Defects found and repaired in /repo\n\n"
for k in json.load(open(f"{root}/known_findings.json")):
    o += f"* {k['property']} ({k['harness']}, {k['commit']}): {k['text']}\n"
o += "\nNo finding is left unrepaired; each fix is reported by its check as a VIOLATION when reverted.\n\n"
o += open(f"{root}/tools/planted.md").read()
open(f"{root}/DESIGN.md", "w").write(o)
