"""mkseed.py file.py...: each file defines PROP, ID, FILE (or EDITS), EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO.
Writes /verif/seeded/ID, checks: patch applies, builds+stable tests pass, demo 0 / nonzero."""
import sys, os, subprocess, shutil, json, runpy
for f in sys.argv[1:]:
    m = runpy.run_path(f)
    d = "/verif/seeded/" + m["ID"]
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    wt = "/tmp/seedwt_" + m["ID"]
    subprocess.run(["find", wt, "-delete"], stderr=subprocess.DEVNULL)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    for fn, old, new in m["EDITS"]:
        p = wt + "/distributed_vector_ole/" + fn
        s = open(p).read()
        assert s.count(old) == 1, (m["ID"], fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    shutil.copytree("/verif/demokit", d + "/kit", ignore=shutil.ignore_patterns("demo.sh"))
    shutil.copy("/verif/demokit/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(m["DEMO"].lstrip("\n"))
    json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(m["ID"], "unchanged:", r0.returncode, "patched:", r1.returncode, "" if (r0.returncode == 0 and r1.returncode == 1) else "***BAD***\n" + r0.stdout[-1500:] + "\n----\n" + r1.stdout[-1500:], flush=True)
    if r1.stdout: print("   ", r1.stdout.strip()[-200:])
    subprocess.run(["find", wt, "-delete"])
