"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    m = glob.glob(os.path.join(V, "checks", p["id"] + "_*.py"))
    if not m:
        na.append(dict(property=p["id"], reason="no check built for it yet"))
        continue
    src = open(m[0]).read()

    def const(name, default=None):
        r = re.search(r'^%s = (?:"""(.*?)"""|"(.*?)"|\((.*?)\)$)' % name, src, re.M | re.S)
        if not r:
            return default
        if r.group(3) is not None:
            return "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', r.group(3)))
        return r.group(1) or r.group(2)
    checks.append(dict(
        property=p["id"],
        quick_cmd="./check %s --tier quick" % p["id"],
        thorough_cmd="./check %s --tier thorough" % p["id"],
        technique=const("TECHNIQUE", "property-based testing (Hypothesis-generated cases, explicit oracle, shrunk replay)"),
        level=const("LEVEL", "exploration"),
        level_note=const("LEVEL_NOTE", "Random search over generated cases with a fixed seed; no exhaustiveness. Trusts the oracle in checks/ and the in-process WSGI driver.")))
hooks = dict(guard="none", enable="no hooks: the checks drive /repo's code through its public interfaces", source_commits=[])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=hooks, checks=checks, not_applicable=na,
                   notes="./check <id> [--tier quick|thorough] [--replay FILE]; see DESIGN.md"), f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
