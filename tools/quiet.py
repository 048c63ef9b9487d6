#!/usr/bin/env python3
"""quiet.py [NAME|CHECK...]: all (or the named) checks under each of quiet/*.diff, which keep the behaviour; /repo is restored"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sorted(f[:-5] for f in os.listdir(f"{ROOT}/quiet") if f.endswith(".diff"))
checks = [c["property"] if "property" in c else c["id"] for c in json.load(open(f"{ROOT}/MANIFEST.json"))["checks"]]
args = sys.argv[1:]
if subprocess.run(["git", "status", "--porcelain"], cwd="/repo", capture_output=True, text=True).stdout.strip():
    sys.exit("/repo is not clean")
bad = 0
for n in [x for x in names if not set(args) & set(names) or x in args]:
    try:
        subprocess.run(["git", "apply", f"{ROOT}/quiet/{n}.diff"], cwd="/repo", check=True)
        for c in [x for x in checks if not set(args) & set(checks) or x in args]:
            r = subprocess.run(["python3", "check.py", c, "quick"], cwd=ROOT, capture_output=True, text=True)
            print(n, c, "quiet" if r.returncode == 0 else f"ALARM (exit {r.returncode}) {r.stdout[-300:]}", flush=True)
            bad += r.returncode != 0
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd="/repo")
sys.exit(1 if bad else 0)
