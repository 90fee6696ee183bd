#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the BEGIN/END marks): the spaces of every
check, and the planted bugs with the check that catches each (from the log of tools/seed.py, kept
as tools/caught.json)."""
import importlib
import json
import re
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), "/repo"]
sys.dont_write_bytecode = True


def spaces():
    out = []
    for l in open(V / "properties.jsonl"):
        p = json.loads(l)
        m = importlib.import_module("checks." + p["id"])
        q = {s.name: s.bound for s in m.spaces("quick")}
        t = {s.name: s.bound for s in m.spaces("thorough")}
        out.append(f"\n**{p['id']} {p['title']}**\n")
        for n in list(dict.fromkeys(list(q) + list(t))):
            a, b = q.get(n), t.get(n)
            out.append(f"* `{n}`: " + (f"{a}" if a == b else f"{a}; thorough: {b}" if a else
                                       f"thorough only: {b}"))
        for a in getattr(m, "ASSUMPTIONS", ()):
            out.append(f"* *assumes:* {a}")
    return "\n".join(out)


def seeds():
    caught = json.loads((V / "tools/caught.json").read_text())
    out = ["| planted bug | what it needs | what it breaks | caught by (quick) |", "|---|---|---|---|"]
    for d in sorted((V / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        f = [x.replace("|", "\\|") for x in (m["needs"], m["what_it_breaks"])]
        out.append(f"| {d.name} | {f[0]} | {f[1]} | {caught.get(d.name, 'not run yet')} |")
    return "\n".join(out)


def main():
    p = V / "DESIGN.md"
    s = p.read_text()
    for name, f in (("spaces", spaces), ("seeds", seeds)):
        s = re.sub(f"(<!-- BEGIN {name} -->\n).*?(\n<!-- END {name} -->)",
                   lambda m: m.group(1) + f() + m.group(2), s, flags=re.S)
    p.write_text(s)


main()
