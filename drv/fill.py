"""Executes rounds of calls of the parallel generator (spec/Fill.tla) under given
schedules.  The calls are made in helper processes, one per environment (number of
CPUs that the process is told).  A helper makes the tasks of the generator wait for
the schedule: they are gated where they are handed to the thread pool (or to a
thread); memory that numpy hands out uninitialised is filled with NaN."""
import sys, os, json
ENVS = [0, 1, 3, 64]      # told number of CPUs, 0: the real one
HERE = os.path.realpath(__file__)

def serve(cpus):
    import threading, time, concurrent.futures as cf, concurrent.futures.thread as cft
    import numpy as np
    real_empty = np.empty
    def empty(*a, **k):
        x = real_empty(*a, **k)
        if x.dtype.kind == "f": x.fill(np.nan)
        return x
    np.empty = empty
    if cpus:
        os.cpu_count = lambda: cpus
        os.sched_getaffinity = lambda *_: set(range(cpus))
        import multiprocessing; multiprocessing.cpu_count = lambda: cpus
    RealPool, RealThread = cf.ThreadPoolExecutor, threading.Thread
    rounds = {}                      # thread that makes the call -> its gates
    class Gates:
        def __init__(self): self.tasks = []; self.lock = threading.Lock(); self.open = False
        def add(self):
            with self.lock: t = [threading.Event() for _ in range(4)]; self.tasks.append(t); return t   # may start, body over, may end, ended
        def release(self):
            self.open = True
            for t in list(self.tasks): t[0].set(); t[2].set()
    def gated(g, fn):
        t = g.add()
        def run(*a, **k):
            if not g.open: t[0].wait(30)
            try: return fn(*a, **k)
            finally:
                t[1].set()
                if not g.open: t[2].wait(30)
                t[3].set()
        return run
    class Pool(RealPool):
        def submit(self, fn, *a, **k):
            g = rounds.get(threading.get_ident())
            return super().submit(gated(g, fn) if g else fn, *a, **k)
    class Thread(RealThread):
        def __init__(self, group=None, target=None, *a, **k):
            g = rounds.get(threading.get_ident())
            if g and target is not None and getattr(target, "__module__", "").split(".")[0] not in ("concurrent", "threading"): target = gated(g, target)
            super().__init__(group, target, *a, **k)
    cf.ThreadPoolExecutor = cft.ThreadPoolExecutor = Pool
    threading.Thread = Thread
    from tt_sketch.utils import random_normal
    np.seterr(all="ignore")
    def snap(v): return np.array(v, dtype=float).tobytes().hex()
    for line in sys.stdin:
        rd = json.loads(line); n = len(rd["calls"]); gs = [Gates() for _ in range(n)]; out = [None] * n
        begin = threading.Barrier(n + 1)
        def call(i):
            c = rd["calls"][i]; rounds[threading.get_ident()] = gs[i]; begin.wait()
            try:
                sh = tuple(c["sh"]); sd = None if c["seed"] == "none" else int(c["seed"])
                if len(sh) == 1 and c["how"] == 1: sh = sh[0]
                elif c["how"] == 2: sh = list(sh)
                elif c["how"] == 3: sh = tuple(np.int64(x) for x in sh)
                v = random_normal(sh, seed=sd) if c["how"] % 2 else random_normal(sh, sd)
                at = snap(v); out[i] = dict(exc="", osh=[int(x) for x in np.shape(v)], x=at, v=v)
            except Exception as e: out[i] = dict(exc=type(e).__name__ + ": " + str(e)[:100], osh=[], x="")
            finally: rounds.pop(threading.get_ident(), None)
        ts = [RealThread(target=call, args=(i,), daemon=True) for i in range(n)]
        for t in ts: t.start()
        begin.wait(); log = []
        # the pool of each call may be made of fewer threads or tasks than the schedule names
        held = rd["hold"]
        for k, (what, i, j) in enumerate(rd["tok"]):
            g = gs[i - 1]; end = time.time() + 0.05
            while len(g.tasks) < j and ts[i - 1].is_alive() and not g.open and time.time() < end: time.sleep(0.0003)
            if len(g.tasks) < j: continue
            t = g.tasks[j - 1]
            if what == "s": t[0].set(); t[1].wait(0.01)
            else:
                if held and k >= len(rd["tok"]) - 3: time.sleep(held / 1000); held = 0
                t[2].set(); t[3].wait(0.01)
            if rd["gap"]: time.sleep(rd["gap"] / 1000)
        back = [not t.is_alive() for t in ts]
        for g in gs: g.release()
        for t in ts: t.join(40)
        for g in gs:
            g.release()
            for t in list(g.tasks): t[3].wait(5)
        for i, o in enumerate(out):
            if o is None: out[i] = dict(exc="no answer", osh=[], x="", later="")
            else: o["later"] = snap(o.pop("v")) if not o["exc"] else ""
            out[i]["tasks"] = len(gs[i].tasks); out[i]["early"] = back[i]
        sys.stdout.write(json.dumps(out) + "\n"); sys.stdout.flush()

if len(sys.argv) > 2 and sys.argv[1] == "--serve":
    serve(int(sys.argv[2])); sys.exit(0)

from common import *
import subprocess
helpers = {}
def ask(env, rd):
    if env not in helpers:
        helpers[env] = subprocess.Popen([sys.executable, HERE, "--serve", str(ENVS[env])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    h = helpers[env]
    try:
        h.stdin.write(json.dumps(rd) + "\n"); h.stdin.flush(); line = h.stdout.readline()
        return json.loads(line)
    except (OSError, ValueError):
        helpers.pop(env); h.kill(); return [dict(exc="process died", osh=[], x="", later="", tasks=0, early=False) for _ in rd["calls"]]
def moments(v):
    clampi = lambda x: int(max(-40000, min(40000, round(x)))) if math.isfinite(x) else 40000
    one = lambda w: dict(n=len(w), s=clampi(w.sum()), q=clampi((w * w).sum()), a=int((abs(w) < 1).sum()), p=int((w > 0).sum()))
    return [one(v)] + [one(w) for w in np.array_split(v, 8)]
def run_one(job, script, idx):
    ids, ev = {}, []
    def enc(h):
        out = []
        for x in np.frombuffer(bytes.fromhex(h), dtype=np.uint64):
            f = np.uint64(x).view(np.float64)
            out.append(0 if not np.isfinite(f) else ids.setdefault(int(x), len(ids) + 1))
        return out
    for rd in script["ev"]:
        req = dict(rd, calls=[dict(c, how=(idx + i) % 4) for i, c in enumerate(rd["calls"])])
        with limit(120): res = ask(rd["env"] - 1, req)
        rows = []
        for c, r in zip(rd["calls"], res):
            x, y = enc(r["x"]), enc(r["later"])
            rows.append(dict(sh=c["sh"], seed=c["seed"], exc=r["exc"], osh=r["osh"], x=x, later=y, tasks=r["tasks"], early=r["early"],
                             mom=moments(np.frombuffer(bytes.fromhex(r["x"]))) if len(x) >= 30 else []))
        ev.append(dict(env=rd["env"], res=rows))
    return dict(ev=ev)
if __name__ == "__main__": main(run_one)
