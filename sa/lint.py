"""Check framework: context, findings, evidence, parallel map."""
import json, multiprocessing as mp, os, sys, time
import build, facts

VERIF = build.VERIF

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.findings = {}       # key -> (msg, trace)
        self.cov = {}            # coverage counters / samples
        self.obl = 0; self.dis = 0
        self.samples = []
        self.funcs = set()
        self.assume = []
        fdir, self.hash = build.facts()
        self.fdir = fdir
        self._P = {}

    def prog(self, *crates):
        k = crates or None
        if k not in self._P:
            self._P[k] = facts.Program(self.fdir, only=set(crates) if crates else None)
        return self._P[k]

    def violation(self, key, msg, trace=()):
        key = key.replace(" ", "_")
        if key not in self.findings:
            self.findings[key] = (msg, list(trace))

    def obligation(self, ok, key=None, msg="", trace=()):
        self.obl += 1
        if ok: self.dis += 1
        else: self.violation(key, msg, trace)
        return ok

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)

_fn = None
def _call(x):
    return _fn(x)

def pmap(fn, items):
    """map in forked workers (shares the loaded program)"""
    global _fn
    items = list(items)
    _fn = fn
    n = min(8, os.cpu_count() or 4, max(1, len(items)))
    if n == 1 or os.environ.get("VLINT_SERIAL"): return [fn(x) for x in items]
    with mp.get_context("fork").Pool(n) as p:
        return p.map(_call, items, chunksize=1)

def load_known():
    out = {}; fixed = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line: continue
            d = json.loads(line)
            if d.get("status") == "fixed": fixed.append(d)
            else: out[(d["property"], d["key"])] = d
    return out, fixed

def main(pid, tier, run, technique, level="other"):
    t0 = time.time()
    try:
        ctx = Ctx(pid, tier)
        run(ctx)
    except build.BuildError as e:
        print(f"check {pid}: cannot analyse the tree: {e}", file=sys.stderr)
        return 2
    known, _ = load_known()
    new = {}; old = {}
    for k, v in ctx.findings.items():
        (old if (pid, k) in known else new)[k] = v
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {"explanation": technique, "obligations": ctx.obl, "discharged": ctx.dis,
           "functions_analysed": len(ctx.funcs), "functions": sorted(ctx.funcs)[:400],
           "samples": ctx.samples, "source_hash": ctx.hash, "exhaustive": False}
    cov.update(ctx.cov)
    d = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
         "coverage": cov, "assumptions": ctx.assume, "wall_s": round(time.time() - t0, 2), "violations": len(new),
         "known_findings": sorted(old)}
    json.dump(d, open(os.path.join(ev, f"{pid}.json"), "w"), indent=1)
    for k, (m, tr) in sorted(old.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {m}")
    rp = os.path.join(ev, f"{pid}.violation.txt")
    if os.path.exists(rp): os.remove(rp)
    if new:
        with open(rp, "w") as f:
            for k, (m, tr) in sorted(new.items()):
                f.write(f"[{pid}] {k}\n  {m}\n")
                for t in tr: f.write(f"    {t}\n")
                f.write("\n")
        for k, (m, tr) in sorted(new.items()):
            print(f"  {k}: {m}")
            for t in tr[:12]: print(f"      {t}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"ok {pid}: {ctx.dis}/{ctx.obl} obligations, {len(ctx.funcs)} functions, {time.time()-t0:.1f}s")
    return 0
