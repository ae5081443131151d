"""usage: fixed.py PROPERTY [COUNT] - list the last COUNT fix commits in known_findings.txt"""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "-n", sys.argv[2] if len(sys.argv) > 2 else "1"], capture_output=True, text=True).stdout
have = open(V + "/known_findings.txt").read()
with open(V + "/known_findings.txt", "a") as f:
    for line in reversed(out.splitlines()):
        h, _, s = line.partition(" ")
        if h in have or not s.startswith("fix:"):
            continue
        f.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s[5:]))
