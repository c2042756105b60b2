"""Writes properties.jsonl and MANIFEST.json from the tables beside this file and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
from rv.run import read_meta  # noqa: E402

props, na = [], []
for name in ("properties_a", "properties_b"):
    if os.path.exists(os.path.join(HERE, "tools", name + ".py")):
        m = importlib.import_module(name)
        props += m.PROPERTIES
        na += getattr(m, "NOT_APPLICABLE", [])
excluded = {x["property"] for x in na}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b if isinstance(b, str) else ""} for a, b in
                                                              [(x if len(x) == 2 else (x[0], "")) for x in p["mech"]]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks = []
for p in sorted(props, key=lambda p: p["id"]):
    if p["id"] in excluded:
        continue
    meta = read_meta(p["id"])
    checks.append({
        "property": p["id"], "quick_cmd": "python3 -m rv.run " + p["id"], "thorough_cmd": "python3 -m rv.run %s --thorough" % p["id"],
        "technique": p.get("technique", "runtime monitoring: reference-model oracle over executions of the real code under generated, hostile workloads"),
        "level": "exploration",
        "level_note": p.get("note", "Held on the executions observed (counts in the evidence file), never a proof; trusts the oracle in rv/ and the interpreter.") +
        (" " + "; ".join(meta["ASSUMPTIONS"]) + "." if meta["ASSUMPTIONS"] else ""),
    })
manifest = {"version": 1, "setup_cmd": "python3 -m rv.selftest", "checks": checks, "not_applicable": na,
            "notes": "Pure-Python harness in rv/; no hooks in /repo: monitors attach from outside (sys.monitoring, API boundary, scripted random streams). See DESIGN.md."}
json.dump(manifest, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
