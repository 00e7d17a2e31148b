#!/usr/bin/env python3
"""dev helper: rewrites the 'fixed:' lines of known_findings.jsonl from the fix commits in /repo"""
import subprocess, os
M = [("fastlock", "C01"), ("microlock", "C01"), ("mutex", "C01"), ("rwlock", "C02"), ("semaphore", "C03"), ("syncPt", "C04"), ("gate", "C04"), ("notifier", "C04"),
     ("Thread::sleep must", "C06"), ("threadSleeper", "C06"), ("mt/linux/thread.cpp", "C05"), ("refCntPtr", "C07"), ("weakref", "C07"), ("singleton", "C09")]
X = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixmap.txt")
if os.path.exists(X):
    M = [tuple(l.rstrip("\n").split("\t")) for l in open(X) if "\t" in l] + M
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=@%h %s", "--name-only"], capture_output=True, text=True).stdout
lines, cur = [], None
for l in out.split("\n"):
    if l.startswith("@"): cur = l[1:] if " fix: " in l else None
    elif l and cur:
        h, msg = cur.split(" fix: ")
        p = next((p for k, p in M if k in l or k in msg or k == h), None)
        if p: lines.append(f"fixed: property={p} {h} {msg}"); cur = None
        else: print("unmapped", cur, l)
kf = V + "/known_findings.jsonl"
old = [l for l in open(kf).read().split("\n") if l.startswith("{")] if os.path.exists(kf) else []
open(kf, "w").write("\n".join(old + lines) + "\n")
