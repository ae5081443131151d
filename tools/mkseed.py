"""tools/mkseed.py SPEC.py: writes seeded/<id>/ for every planted change described in SPEC.py (a list named SEEDS)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$d/demo.py"\n'

for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        files = sorted({e[0] for e in s["edits"]})
        for f in files:
            for side in "ab":
                p = os.path.join(w, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), p)
        for f, old, new in s["edits"]:
            p = os.path.join(w, "b", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, stdout=subprocess.PIPE)
        out = r.stdout.decode()
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(out)
        r = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")])
        assert r.returncode == 0, s["id"]
    finally:
        shutil.rmtree(w)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    for lib in s.get("libs", ("srv",)):
        shutil.copy(os.path.join(V, "tools", "demolib", lib + ".py"), os.path.join(d, lib + ".py"))
    print(s["id"], len(out.splitlines()), "lines")
