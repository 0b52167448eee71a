#!/usr/bin/env python3
"""Development aid: run checks against the planted bugs, in scratch copies.

matrix.py [--all] [--ref DIR] [ID ...]   prints one line per bug and check
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
args = [a for a in args if a != "--all"]
ids = args or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="mx-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/r", check=True)
        for p in (props if every else [meta["property"]]):
            t = time.time()
            r = subprocess.run([V + "/run.sh", p], env=dict(os.environ, AAV_REPO=tmp + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            verdict = {0: "MISSED" if p == meta["property"] else "-", 1: "caught"}.get(r.returncode, "ERROR")
            if r.returncode == 1 and "VIOLATION property=" + p not in r.stdout:
                verdict = "ERROR"
            print(i, p, verdict, "%.0fs" % (time.time() - t), flush=True)
            if verdict == "ERROR":
                print(r.stdout[-1500:], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
