"""tools/plant.py NAME [--tests] [--check PROP ...]: try a planted change in a scratch copy that is bind mounted over /repo.

Runs the demonstration without and with the patch, and on request the stable tests and checks with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, cmd, work, timeout=1800):
    rep = os.path.join(work, "reports")
    os.makedirs(rep, exist_ok=True)
    script = "mount --bind %s /repo && mount --bind %s /opt/vp/reports && cd /repo && %s" % (copy, rep, cmd)
    return subprocess.run(["unshare", "-m", "sh", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def main():
    name = sys.argv[1]
    tests = "--tests" in sys.argv
    d = os.path.join(V, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = sys.argv[sys.argv.index("--check") + 1:] if "--check" in sys.argv else []
    if checks == ["own"]:
        checks = [meta["property"]]
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(work, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = ns(copy, "bash %s/demo.sh" % demo, work, 300)
        print(name, "demo unchanged rc", r.returncode, "" if r.returncode == 0 else r.stdout.decode()[-1500:])
        p = subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], stderr=subprocess.PIPE)
        if p.returncode:
            print(name, "patch does not apply", p.stderr.decode()[:500])
            return
        r2 = ns(copy, "bash %s/demo.sh" % demo, work, 300)
        print(name, "demo patched rc", r2.returncode, r2.stdout.decode()[-300:].strip() if r2.returncode else "NOT SHOWN")
        if tests:
            out = os.path.join(work, "out.json")
            ns(copy, "bash /opt/vp/test.sh %s" % out, work)
            got = json.load(open(out))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = sorted(stable - set(got["passed"]))
            print(name, "stable tests failing with the patch:", len(miss), miss[:8])
        for c in checks:
            r = ns(copy, "cd %s && ./check %s --tier quick" % (V, c), work, 1000)
            lines = [x for x in r.stdout.decode().splitlines() if "VIOLATION" in x]
            print(name, "check", c, "rc", r.returncode, lines[:1])
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
