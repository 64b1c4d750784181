"""C11: where seeds and keys come from."""
import lint, rules_cover
from rules_cover import *
from rules_mask import DRAWS
from facts import calls, callee, norm_path
from absint import _E
import facts

SEEDERS = ("from_seed", "seed_from_u64", "from_rng")
ENTROPY = ("from_entropy", "thread_rng", "from_os_rng", "getrandom", "generate_for")
WEAK = ("std::time::", "std::process::id", "std::thread::current", "RandomState", "SmallRng", "StepRng", "mock::")

class Origin(Cover):
    keepbase = staticmethod(lambda b: b.startswith(("entropy:", "draw:", "recv:", "weak:")))
    """labels generators with their origin"""
    def __init__(self):
        super().__init__(); self.seeds = {}; self.ent = set()
    def opaque(self, fid): return super().opaque(fid)
    def on_call(self, I, st, f, args):
        if f.name in ENTROPY and ("Rng" in f.np or "rand" in f.np):
            self.ent.add(I.where())
            return [(st, O(frozenset([lab(f"entropy:{I.site()}")])))]
        if any(w in f.np for w in WEAK):
            L = frozenset()
            for a in args: L |= I.labs(st, a)
            return [(st, O(L | {lab("weak:" + f.np)}))]
        if f.name in DRAWS and "Rng" in f.np and args and f.name not in ("fill", "fill_bytes"):
            L = I.labs(st, args[0])
            return [(st, O(frozenset([lab(f"draw:{I.site()}")]) | L))]
        return None
    def on_seed(self, I, st, f, v):
        L = I.labs(st, v)
        self.seeds.setdefault((I.where(), f.name, frozenset(b.split(":")[0] if not b.startswith("self.") else "self" for b, fl in L if "l" not in fl)), I.chain())

def rng_work(item):
    eng, en, party = item
    r = Origin()
    try:
        I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET)
    except Budget as e:
        return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=str(e))
    keys = []
    if en.name in ("preprocess", "set_new_mac_key") and eng:
        for s, v in outs:
            if is_ok(v): keys.append({k: x for k, x in self_fields(I, s).items()})
    return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=None, seeds=r.seeds, funcs=set(I.funcs), ent=r.ent, keys=keys, nouts=len(outs))

def gen_fields(P, eng):
    """access paths of the keyed generators an engine owns"""
    out = []
    def walk(adt, path, d):
        ad = P.adts.get(adt)
        if not ad or d > 3 or len(ad["variants"]) != 1: return
        for f in ad["variants"][0]["f"]:
            if "Rng" in str(f[1]): out.append(path + "." + f[0])
            elif f[2] in P.adts: walk(f[2], path + "." + f[0], d + 1)
    walk(eng, "self", 0)
    return out

GOOD = {"entropy", "recv", "self", "arg"}

def c11(ctx):
    rules_cover._P = P = ctx.prog()
    E = engines(P)
    sites = {}
    for b in P.bodies.values():
        for i, t in calls(b):
            f = callee(t)
            if not f: continue
            np = norm_path(f["p"]); nm = np.split("::")[-1]
            if nm in SEEDERS and ("Rng" in np or "rand" in np): sites.setdefault(b.id, []).append((nm, str(t[5])))
            ctx.count("call_sites")
    nets = [e for e in E if gen_fields(P, e)]
    ctx.obligation(len(nets) >= 4, "anchor:engines", f"expected four engines with keyed generators, found {sorted(map(sh, nets))}")
    items = [(e, en, p) for e in nets for en in entries(P, e) for p in (0, 1, 2)]
    items.sort(key=lambda x: -len(P.bodies[x[1].fid].blocks) - (1000 if x[1].name == "verify" else 0))
    rs = lint.pmap(rng_work, items)
    seen = set()
    for r in rs:
        if not r["over"]: seen |= r["funcs"]
    # code outside the engines (generators of sample data, free functions) is analysed on its own, arguments unknown
    extra = []
    for fid in sorted(sites):
        root = fid
        while P.bodies[root].parent in P.bodies and "closure" in root: root = P.bodies[root].parent
        if fid not in seen and root not in seen: extra.append((None, Entry(root, root.split("::")[-1], None, None), None))
    rs += lint.pmap(rng_work, extra)
    nseeds = 0; covered = set()
    for r in rs:
        name = ent(r) if r["eng"] else r["name"]
        if r["over"]:
            ctx.violation(f"budget:{name}", f"{name}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", r["nouts"]); covered |= r["funcs"]
        for (w, nm, org), chain in r["seeds"].items():
            nseeds += 1
            ctx.obligation(bool(org & GOOD), f"seed:{w}", f"{name}: {w} seeds a generator with {nm} from {'the clock or another guessable source' if 'weak' in org else 'a constant'} (origins found: {sorted(org - {'draw'})})", chain)
            lib = not any(w.startswith(x) for x in BINS)
            ctx.obligation(nm != "seed_from_u64" or not lib, f"short-seed:{w}", f"{name}: {w} seeds a generator of the library with 64 bits only", chain)
        if r["eng"]:
            G = gen_fields(P, r["eng"])
            for o in r["keys"]:
                if r["name"] == "preprocess":
                    own = {}
                    for g in G:
                        L = o.get(g, _E)
                        bs = {b for b, f in L}
                        ctx.obligation(bs and not any(b.startswith("self.") for b in bs), f"placeholder:{sh(r['eng'])}:{g}", f"{name} can succeed without replacing the placeholder key of {g}")
                        ctx.obligation(bool({b.split(":")[0] for b in bs} & GOOD), f"key:{sh(r['eng'])}:{g}", f"{name}: the key of {g} has no random origin")
                        own[g] = {b for b in bs if b.startswith("draw:")}
                        ctx.count("keys")
                    for i, g in enumerate(G):
                        for h in G[i + 1:]:
                            ctx.obligation(not (own[g] & own[h]), f"shared-key:{sh(r['eng'])}:{g}:{h}", f"{name}: {g} and {h} are keyed from the same draw {sorted(own[g] & own[h])[:1]}")
                elif any(k == "self.mac_key" for k in o):
                    bs = {b for b, f in o["self.mac_key"]}
                    ctx.obligation("self.mac_key" not in bs and any(b.startswith("draw:") for b in bs), f"mackey:{sh(r['eng'])}", f"{name} can succeed without drawing a new MAC key")
                    ctx.count("mac_keys")
    for fid, l in sorted(sites.items()):
        ctx.obligation(fid in covered, f"unreached:{fid}", f"the seeding call in {fid} was not reached by the analysis")
    ctx.count("seeding_sites", sum(map(len, sites.values()))); ctx.count("seeds", nseeds)
    ctx.obligation(nseeds >= 15, "vacuous:seeds", f"only {nseeds} seeding events were analysed")
    for g in nets: ctx.sample(f"{sh(g)}: generators {gen_fields(P, g)}")
    ctx.assume.append("generators handed in by callers are cryptographically secure; the sample-data programs may be seeded by their user")

BINS = ("create_sample_data", "create_sample_data_plain", "find_match", "gen_cert")
