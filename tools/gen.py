#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from props import PROPS, NA, HOOKS
TECH = ("symbolic execution of the compiled Rust code (concolic, every path) with z3/cvc5 deciding "
        "every branch and assertion; counterexamples replayed natively")
NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds the evidence file lists per "
        "harness (most integers unbounded, sizes bounded). {extra}Trusts: rustc, the symbolic stand-in for "
        "num-bigint (its integer semantics; counterexamples are replayed on the real num-bigint), z3 and cvc5.")
with open(V / "properties.jsonl", "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": p.get("hook")}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                 "thorough_cmd": f"python3 check.py {p['id']} thorough",
                 "technique": TECH, "level": "other",
                 "level_note": NOTE.format(extra=p.get("note", "") and p["note"] + " ")} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
if HOOKS:
    m["hooks"] = HOOKS
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(PROPS), "claimed,", len(NA), "not applicable")
def bindoc(pid, key):
    src = V / "harness/src/bin" / f"{pid.lower()}.rs"
    return [l.split(":", 1)[1].strip() for l in src.read_text().splitlines() if l.startswith(f"//! {key}:")] if src.exists() else []
head = (V / "tools/design_head.md").read_text()
tail = (V / "tools/design_tail.md").read_text()
body = "## Properties and how each is decided\n\n"
for p in PROPS:
    body += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    body += f"* Quantified over: {p['text']}.\n* Tests cannot settle it: {p['why']}\n"
    if p.get("oracle"): body += f"* Oracle: {p['oracle']}\n"
    for e in bindoc(p["id"], "encodes"): body += f"* Encodes: {e}\n"
    for e in bindoc(p["id"], "outside"): body += f"* Outside the bounds: {e}\n"
    if p.get("note"): body += f"* {p['note']}\n"
    body += "\n"
for p in NA:
    body += f"### {p['id']} {p['title']} (not applicable)\n\n{p['statement']}\n\n{p['reason']}\n\n"
(V / "DESIGN.md").write_text(head + body + tail)
