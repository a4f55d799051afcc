"""Development aid: plant a bug given as a python file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (python source).
Confirms in a scratch copy that it applies, builds, passes the tests and that the
demonstration separates; writes seeded/<ID>.   usage: plant.py FILE..."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
TEST = """set -e
rm -rf build; /opt/venv/bin/python setup.py build_ext --inplace >/tmp/plant-build.log 2>&1
PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3
"""
for f in sys.argv[1:]:
    m = runpy.run_path(f)
    bugs = m["BUGS"] if "BUGS" in m else [m]
    for b in bugs:
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            repo = tmp + "/repo"; shutil.copytree("/repo", repo, symlinks=True)
            d = tmp + "/d"; os.makedirs(d)
            open(d + "/demo.py", "w").write(b["DEMO"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository, after its build\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump(dict(property=b["PROPERTY"], needs=b["NEEDS"], what_it_breaks=b["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
            r0 = run(["bash", d + "/demo.sh"], repo, timeout=300)
            for fn, old, new in b["EDITS"]:
                p = repo + "/" + fn; s = open(p).read()
                assert s.count(old) >= 1, (b["ID"], "pattern not found", old)
                open(p, "w").write(s.replace(old, new, 1))
            diff = run("git diff -- tt_sketch scripts", repo).stdout
            base = run("git diff 2538695 HEAD -- tt_sketch scripts", "/repo").stdout
            mine = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
            rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in rem if l in mine and len(l) > 3]
            t = run(["bash", "-c", TEST], repo, timeout=600)
            r1 = run(["bash", d + "/demo.sh"], repo, timeout=300)
            ok = r0.returncode == 0 and r1.returncode != 0 and "failed" not in t.stdout and "passed" in t.stdout and "error" not in t.stdout
            print("%-34s %s tests: %s | demo %d -> %d %s" % (b["ID"], "OK  " if ok else "FAIL", t.stdout.strip().splitlines()[-1:], r0.returncode, r1.returncode, ("touches own lines: %s" % bad) if bad else ""))
            if not ok: print(r0.stdout[-600:], "\n--\n", t.stdout[-600:], "\n--\n", r1.stdout[-600:]); continue
            open(d + "/patch.diff", "w").write(diff)
            dst = V + "/seeded/" + b["ID"]
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        finally: shutil.rmtree(tmp, ignore_errors=True)
