#!/usr/bin/env python3
"""catch.py [ID...]: run the check of each planted bug's property against a
scratch copy of /repo with the bug applied; prints which are caught."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
also = [a[1:] for a in sys.argv[1:] if a.startswith("-")]      # -C01: run these checks as well
for i in ids:
    R = "/tmp/catch/repo"
    subprocess.run(["rm", "-rf", "/tmp/catch"])
    os.makedirs("/tmp/catch")
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    d = os.path.join(HERE, "seeded", i)
    subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=R, check=True)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    for p in [prop] + also:
        t = time.time()
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p, "quick"], cwd=HERE, env=dict(os.environ, NOJA_REPO=R, VERIF_SEED="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode("utf-8", "replace")
        print("%-6s %-5s rc=%d %5.1fs %s" % (i, p, r.returncode, time.time() - t, "caught" if r.returncode == 1 and "VIOLATION property=" + p in out else "MISSED"), flush=True)
        if r.returncode not in (0, 1):
            print(out[-1500:])
subprocess.run(["rm", "-rf", "/tmp/catch"])
