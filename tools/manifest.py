#!/usr/bin/env python3
"""Writes MANIFEST.json.  Properties without a checks/Cxx.py are listed under not_applicable."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
BASE = ("bounded-exhaustive explicit-state model checking: every case of the stated bounded space "
        "is executed on the real code and compared step by step with a reference model")
NOTE = {
    "C01": "reference tokenizer/parser over all small trees",
    "C02": "reference escaping model over all code points and positions",
    "C03": "part-list model of attribute values over all merge histories",
    "C04": "reference model over all leaves and positions of raw content",
    "C05": "permitted-gap model over all forests within the bound",
    "C06": "line-structured layout model over all forests within the bound",
    "C07": "catalogue x shapes against the void/non-void model",
    "C08": "all sequences of read-only operations and single mutations, object-graph snapshots",
    "C09": "substitution model of expansion over all forests with tagifiable nodes",
    "C10": "resolution model over all dependency sequences and placements",
    "C11": "document assembly model over all contents, placements and settings",
    "C12": "file-system state model over all dependency definitions, destinations and missing files",
    "C13": "text-with-serialised-dependencies model over all token sequences",
    "C14": "list-of-nodes model over all operation histories",
    "C15": "ordered-map model over all argument lists and update histories",
    "C16": "token-list/declaration model over all helper histories",
    "C17": "display-hook stack machine over all bounded with-block programs with faults",
    "C18": "all hash seeds in a range x all orders of earlier work, byte-compared between processes",
    "C19": "complete catalogue grid against the frozen classification",
    "C20": "component-tree model with a JavaScript expression parser over all bounded trees",
}
checks, na = [], []
for i in range(1, 21):
    p = f"C{i:02d}"
    if not (V / "checks" / f"{p}.py").exists():
        na.append(dict(property=p, reason="check under construction"))
        continue
    checks.append(dict(
        property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
        technique=f"{BASE} ({NOTE[p]})", level="model_checking",
        level_note="Exhaustive within the bounds listed in the evidence file (coverage.spaces); "
                   "nothing is sampled. Every trace of the model is executed on the "
                   "implementation, so there is no separate conformance gap. Trusts the reference "
                   "model in mc/model.py and the check's own assumptions list; says nothing "
                   "beyond the bounds."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
