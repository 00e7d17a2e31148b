#!/usr/bin/env python3
"""replay.py FILE [LOG]: rebuilds from /repo, replays a trace file and prints what happened."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import PROPS
from check import symbolise, expand
path = sys.argv[1]
prop = re.search(r"^prop (\S+)", open(path).read(), re.M).group(1)
exe = B.build([PROPS[prop]["group"]])[PROPS[prop]["group"]]
cmd = [exe, "replay", path] + (["--log", sys.argv[2]] if len(sys.argv) > 2 else [])
r = subprocess.run(cmd, capture_output=True, text=True)
d = json.loads(r.stdout.strip().split("\n")[-1])
print("status", d["status"], "class", d["class"], "hash", d["hash"])
print(expand(exe, d["msg"]))
for s in symbolise(exe, d["stack"]):
    print("    at", s)
sys.exit(1 if d["status"] == "violation" else 0)
