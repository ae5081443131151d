"""usage: keep.py REPLAY.json NAME  - keep a replay file as a regression case"""
import json
import os
import sys
d = json.load(open(sys.argv[1]))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "regress", d["property"]), exist_ok=True)
with open(os.path.join(V, "regress", d["property"], sys.argv[2] + ".json"), "w") as f:
    json.dump(dict(sub=d["sub"], case=d["case"]), f)
