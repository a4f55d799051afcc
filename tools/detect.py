"""Development aid: run the check of each planted bug against a copy of /repo with
the bug applied.   usage: detect.py [ID...]"""
import json, os, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
def one(i):
    d = V + "/seeded/" + i; p = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="detect-"); repo = tmp + "/repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, check=True)
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", p, "quick"], env=dict(os.environ, VF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
        first = [l for l in r.stdout.splitlines() if l.startswith("  stage")][:1]
        print("%-34s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if hit else "MISSED", r.returncode, time.time() - t, (first or r.stdout.splitlines()[-1:])[0][:150]), flush=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)
with ThreadPoolExecutor(2) as ex: list(ex.map(one, ids))
