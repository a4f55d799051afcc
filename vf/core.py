"""Building the code under test, running drivers and TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8

class MachineryError(Exception): pass

class Work:
    """scratch directory of one check, removed at the end"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.n = 0
    def path(self, name): return os.path.join(self.dir, name)
    def fresh(self, stem):
        self.n += 1
        return self.path("%03d-%s" % (self.n, stem))
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, env=e, timeout=timeout, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

def build_code(work):
    """copy the package of /repo's working tree and compile its extension there"""
    dst = work.path("code")
    if os.path.isdir(dst): return dst
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "tt_sketch"), os.path.join(dst, "tt_sketch"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.c", "*.html", "build"))
    if os.path.isdir(os.path.join(REPO, "scripts")):
        os.makedirs(os.path.join(dst, "scripts"))
        for f in os.listdir(os.path.join(REPO, "scripts")):
            if f.endswith(".py"): shutil.copy(os.path.join(REPO, "scripts", f), os.path.join(dst, "scripts"))
    for f in os.listdir(REPO):
        if f in ("setup.py", "pyproject.toml", "README.md", "requirements.txt", "MANIFEST.in"):
            shutil.copy(os.path.join(REPO, f), dst)
    r = sh([PY, "setup.py", "build_ext", "--inplace"], cwd=dst, timeout=600)
    if r.returncode != 0:
        raise MachineryError("build of the extension failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    return dst

DRV_ENV = dict(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")

def run_driver(work, driver, job, nproc=NPROC, timeout=600, env=None):
    """executes job["scripts"] with drv/<driver>.py; returns one trace per script.
    A script during which the process dies or hangs yields {"died": reason}."""
    code = build_code(work)
    jf = work.fresh(driver + "-job.json")
    json.dump(job, open(jf, "w"))
    e = dict(DRV_ENV, PYTHONPATH=code + ":" + os.path.join(VERIF, "drv"), VF_CODE=code, VF_WORK=work.dir)
    e.update(env or {})
    n = len(job["scripts"])
    nproc = max(1, min(nproc, n))
    deadline = time.time() + timeout
    res = [None] * n
    def one(k):
        first = k
        while first < n:
            out = work.fresh(driver + "-out%d.ndjson" % k)
            err = ""
            try:
                r = sh([PY, os.path.join(VERIF, "drv", driver + ".py"), jf, out, str(first), str(nproc)],
                       env=e, timeout=max(5, deadline - time.time()))
                rc, err = r.returncode, r.stderr[-3000:]
            except subprocess.TimeoutExpired:
                rc = "timeout"
            cur = last = None
            if os.path.exists(out):
                for line in open(out):
                    try: x = json.loads(line)
                    except ValueError: continue
                    if "begin" in x: cur = x["begin"]
                    else: res[x["end"]] = x["trace"]; cur = None; last = x["end"]
                os.unlink(out)
            if rc == 0: return
            if cur is None and last is not None and isinstance(rc, int) and rc < 0:
                cur = last                          # e.g. a corrupted heap, noticed after the script
            if cur is None:
                raise MachineryError("driver %s failed before any script (%s): %s" % (driver, rc, err))
            if isinstance(rc, int) and rc > 0:      # a Python error of the driver itself
                res[cur] = {"died": "the result could not be recorded: %s" % (err.strip().splitlines() or ["?"])[-1][:200]}
            else: res[cur] = {"died": "process ended by %s" % (rc,)}
            if rc == "timeout": 
                for i in range(cur + nproc, n, nproc): res[i] = {"died": "not reached"}
                return
            first = cur + nproc
    with ThreadPoolExecutor(nproc) as ex: list(ex.map(one, range(nproc)))
    return res

_accel = None
def accel(work):
    d = work.path("accel")
    if not os.path.isdir(d):
        os.makedirs(d)
        r = sh(["javac", "-cp", TLAJAR, "-d", d] + [os.path.join(VERIF, "spec", "accel", f + ".java") for f in ("Accel", "Arrays", "Fix")])
        if r.returncode: raise MachineryError("javac: " + r.stderr)
    return d

def tlc(work, module, cfg, env=None, workers=NPROC, args=(), timeout=800, heap="6g", native=True):
    """run TLC; cfg is the text of the configuration.  Returns (rc, stdout)."""
    d = work.fresh("tlc-" + module); os.makedirs(d)
    open(os.path.join(d, "run.cfg"), "w").write(cfg)
    cp = ([accel(work)] if native else []) + [TLAJAR, CMJAR]
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"): os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", ":".join(cp), "tlc2.TLC",
           "-config", "run.cfg", "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-deadlock",
           *args, module]
    r = sh(cmd, env=env, timeout=timeout, cwd=d)
    out = r.stdout + r.stderr
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return r.returncode, out

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def check_ok(rc, out, what):
    if rc != 0 or "Error:" in out:
        raise MachineryError("TLC failed on %s (exit %s):\n%s" % (what, rc, "\n".join(out.splitlines()[-60:])))
