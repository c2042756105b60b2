"""Writes DESIGN.md from design_head.md, the check modules, the properties and the planted bugs."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
sys.dont_write_bytecode = True
from rv.run import read_meta  # noqa: E402

head = open(os.path.join(HERE, "tools", "design_head.md")).read()
known = json.load(open(os.path.join(HERE, "known_findings.json")))
head = head.replace("@KNOWN@", "\n".join("* %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in known["findings"]))
cost = json.load(open(os.path.join(HERE, "tools", "cost.json")))
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"], m.get("caught_by", m["property"])))
out = [head]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    meta = read_meta(p["id"])
    source = open(os.path.join(HERE, "rv", "checks", p["id"].lower() + ".py")).read()
    families = ""
    for node in ast.parse(source).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "FAMILIES":
            families = ", ".join("%s %s/%s" % (ast.literal_eval(k), ast.unparse(v.elts[1]), ast.unparse(v.elts[2]))
                                 for k, v in zip(node.value.keys, node.value.values))
    c = cost.get(p["id"], {})
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Workload and oracle:* %s.\n" % meta["RULE"])
    out.append("*Must have been observed (quick and thorough):* %s. *Cases (quick/thorough per worker):* %s. *Cost:* quick %s s, thorough %s s.\n" % (
        ", ".join("%s >= %s" % kv for kv in meta["NEED"].items()), families, c.get("quick", "?"), c.get("thorough", "at most %d" % meta["CAP"][1])))
    if meta["ASSUMPTIONS"]:
        out.append("*Assumes:* %s.\n" % "; ".join(meta["ASSUMPTIONS"]))
    out.append("*Beyond the tests:* %s\n" % p["why_tests_cant"])
    if p["id"] in seeds:
        out.append("*Planted bugs:* " + "; ".join(
            "`%s` (%s)%s" % (n, needs.rstrip("."), "" if by == p["id"] else " - " + ("not caught" if not by else "caught by " + by)) for n, needs, by in seeds[p["id"]]) + ".\n")
n = sum(len(v) for v in seeds.values())
missed = sorted(s[0] for v in seeds.values() for s in v if not s[2])
out.append("## Planted bugs\n\n%d are kept in seeded/, listed above with what each needs in order to manifest. %s\n" % (
    n, "All are caught by the quick tier of their property's check (seed 1)." if not missed else "Not caught by the quick tier of their property's check: %s; all others are." % ", ".join(missed)))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
