#!/usr/bin/env python3
"""Development aid: runs the check of each planted bug's property on a patched copy.  runseeds.py [ID...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = "/tmp/runseed_" + i
    subprocess.run(["find", wt, "-delete"], stderr=subprocess.DEVNULL)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", "-f", wt, "HEAD"])
    subprocess.check_call(["git", "-C", wt, "apply", d + "/patch.diff"])
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", prop], env=dict(os.environ, SX_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "INCONCL", "ERROR"))]
    print("%-40s %s exit %d  %.0fs  %s" % (i, prop, r.returncode, time.time() - t, (v or [r.stdout[-300:]])[0][:160]), flush=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
