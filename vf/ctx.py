"""One run of one check: collects coverage and rejections, writes the evidence
and the replay files, prints the verdict."""
import json, os, re, sys, time, random, hashlib
from .core import *
from .trace import validate, REJ

KNOWN = os.path.join(VERIF, "known_findings.txt")

def known_findings(pid):
    """lines "known: property=<id> match=<regex over 'stage clause script'> <what fails>" """
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = Work()
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.design_states = 0
        self.samples, self.stages, self.assumptions = [], [], []
        self.rejections = []
        self.only = None                     # replay: a single script

    @property
    def thorough(self): return self.tier == "thorough"
    def n(self, quick, thorough): return thorough if self.thorough else quick
    def rng(self, stage): return random.Random("%s/%s/%d" % (self.pid, stage, self.seed))
    def subseed(self, stage): return self.rng(stage).randrange(1, 2**31)

    # ---- design models: exhaustive checking of a specification ----------------
    def model(self, stage, module, cfg, env=None, args=(), native=True, timeout=800, minstates=2):
        t = time.time()
        rc, out = tlc(self.work, module, cfg, env=env, args=args, timeout=timeout, native=native)
        check_ok(rc, out, "%s/%s" % (stage, module))
        gen, distinct = stats(out)
        if distinct < minstates: raise MachineryError("%s: only %d states" % (stage, distinct))
        self.states += distinct; self.transitions += gen; self.design_states += distinct
        self.stages.append(dict(stage=stage, kind="model", module=module, states=distinct, transitions=gen, wall_s=round(time.time() - t, 1)))
        return out

    # ---- behaviours generated by TLC -------------------------------------------
    def generate(self, stage, module, data, cfg, num, depth, timeout=800):
        t = time.time()
        f = self.work.fresh(stage + "-gen.json")
        json.dump(data, open(f, "w"))
        rc, out = tlc(self.work, module, cfg, env=dict(POOL_FILE=f), workers=1, timeout=timeout,
                      args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.subseed(stage + module))])
        check_ok(rc, out, "%s/%s" % (stage, module))
        scripts = parse_scripts(out)
        if len(scripts) < num * 0.9: raise MachineryError("%s: %d of %d behaviours generated" % (stage, len(scripts), num))
        self.stages.append(dict(stage=stage, kind="generate", module=module, scripts=len(scripts), wall_s=round(time.time() - t, 1)))
        return scripts

    # ---- execution and validation ------------------------------------------------
    def conform(self, stage, driver, module, scripts, job=None, data=None, consts="", env=None, denv=None,
                timeout=700, sample=1, nproc=NPROC, keyf=None):
        """run the scripts through the implementation; check the traces"""
        if not scripts: raise MachineryError(stage + ": no scripts")
        t = time.time()
        traces = run_driver(self.work, driver, dict(job or {}, scripts=scripts), nproc=nproc, timeout=timeout, env=denv)
        t1 = time.time()
        rej, states, trans = validate(self.work, module, dict(data or {}, traces=traces), env=env, consts=consts)
        self.states += states; self.transitions += trans
        self.traces += len(traces)
        ne = sum(len(x.get("ev", [])) for x in traces)
        self.events += ne
        self.stages.append(dict(stage=stage, kind="conformance", driver=driver, module=module, traces=len(traces), events=ne,
                                states=states, rejected=len(rej), run_s=round(t1 - t, 1), check_s=round(time.time() - t1, 1)))
        for i in range(min(sample, len(scripts))):
            self.samples.append(dict(stage=stage, script=shorten(scripts[i]), trace=shorten(traces[i])))
        for i, l, c in rej:
            self.rejections.append(dict(stage=stage, driver=driver, module=module, index=i, event=l, clause=c,
                                        script=scripts[i], trace=traces[i]))
        return traces, rej

    # ---- verdict ---------------------------------------------------------------------
    def finish(self):
        known = known_findings(self.pid)
        new, found = [], {}
        for r in self.rejections:
            key = "%s %s %s" % (r["stage"], r["clause"], json.dumps(r["script"], sort_keys=True))
            hit = [w for rx, w in known if rx.search(key)]
            if hit: found[hit[0]] = found.get(hit[0], 0) + 1
            else: new.append(r)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, design_states=self.design_states, stages=self.stages,
                   samples=self.samples[:6])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for w, n in found.items(): print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.pid, w, n))
        seen = {}
        for r in new:
            k = (r["stage"], r["clause"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 1 or len(seen) > 8: continue
            h = hashlib.sha1(json.dumps([r["stage"], r["clause"], r["script"]], sort_keys=True).encode()).hexdigest()[:10]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            p = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (self.pid, r["stage"], h))
            json.dump(dict(r, property=self.pid, tier=self.tier, seed=self.seed,
                           how="VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s runs the same scripts" % (self.seed, self.tier, self.pid)),
                      open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  stage %s, clause %s, event %s: %s" % (r["stage"], r["clause"], r["event"], brief(r)))
        if len(new): print("%d rejected traces: %s" % (len(new), {"%s/%s" % k: n for k, n in seen.items()}))
        print("%s %s: %d design+trace states, %d traces, %d events, %.1fs" %
              (self.pid, "VIOLATED" if new else "ok", self.states, self.traces, self.events, time.time() - self.t0))
        return 1 if new else 0

def brief(r):
    try:
        e = r["trace"]["ev"][r["event"] - 1]
        return json.dumps({k: v for k, v in e.items() if len(json.dumps(v)) < 120})[:400]
    except Exception: return json.dumps(r["script"])[:300]

def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."

def parse_scripts(out):
    res = []
    for line in out.splitlines():
        m = re.match(r'<<"SCRIPT", (\d+), "(.*)">>$', line)
        if m: res.append(json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\')))
    return res
