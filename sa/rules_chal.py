"""C08: random challenges are drawn only after the data they test is fixed."""
import lint, rules_cover
from rules_cover import *
from absint import _E
from rules_mask import DRAWS

class Chal(Cover):
    """ext = (challenges {(bases the seed came from, bases received before)}, answers, last message depended on a challenge)"""
    def __init__(self):
        super().__init__(); self.late = {}; self.cmps = set(); self.folds = set(); self.stale = {}; self.draws = 0; self.seeds = {}
    def on_call(self, I, st, f, args):
        # a draw from a challenge generator after more data arrived: that data's sender knew what would be drawn
        if args and (f.name in DRAWS and "Rng" in f.np or f.name.startswith("random")):
            L = I.labs(st, args[0])
            for k, pre in st.ts[EXT][0]:
                if any(b in k for b, fl in L if "r" in fl):
                    self.draws += 1
                    new = st.ts[RCV] - pre
                    if new: self.stale.setdefault((I.where(), frozenset(new)), I.chain())
        # products that fold authenticated pairs (MAC check)
        if f.name in ("dot", "dot_many", "mul", "mul_many") and len(args) >= 3:
            A, B = I.labs(st, args[1]), I.labs(st, args[2])
            for X, Y in ((A, B), (B, A)):
                x = bases(X)
                if any(b.endswith(".macs") for b in x) and any(b.endswith(".values") for b in x) and not any(".prf." in b for b in x):
                    self.folds.add((I.where(), frozenset(b for b in bases(Y) if ".prf." in b or b.startswith("recv:"))))
        return None
    def init(self): return mk(ext=(_E, _E, False))
    def on_seed(self, I, st, f, v):
        L = I.labs(st, v)
        key = frozenset(b for b, fl in L if b.startswith("recv:") and "l" not in fl)
        self.seeds.setdefault(I.where(), set()).add(frozenset(bases(L)))
        if not key: return
        ch, ans, dep = st.ts[EXT]
        ch = frozenset(x for x in ch if x[0] != key) | {(key, st.ts[RCV])}
        st.ts = upd(st.ts, ext=(ch, ans - key, dep))
    def received(self, ts, nb):
        ch, ans, dep = ts[EXT]
        # data of these sites is new now: it no longer counts as received before earlier challenges
        ch = frozenset((k, pre - nb) for k, pre in ch)
        ts = upd(ts, ext=(ch, (ans | nb) if dep else (ans - nb), dep))
        return super().received(ts, nb)
    def on_send(self, I, st, ts, peers, L, site):
        ch, ans, dep = ts[EXT]
        d = any("r" in f and b.startswith("recv:") for b, f in L)
        return super().on_send(I, st, upd(ts, ext=(ch, ans, d)), peers, L, site)
    def on_branch(self, I, st, p, truth):
        if p[0] == "eq":
            LL = p[1] | p[2]
            rb = frozenset(b for b, f in LL if "r" in f)
            chb = {b for b in rb if b.startswith("recv:")}
            data = {b for b, f in LL if "r" not in f and "l" not in f and b.startswith("recv:")}
            ch, ans, dep = st.ts[EXT]
            used = [(k, pre) for k, pre in ch if k & chb]
            keys = set().union(*[k for k, _ in used]) if used else set()
            pres = set().union(*[pre for _, pre in used]) if used else set()
            # received data that takes part (expanded seeds included) and that no challenge came after
            allrecv = {b for b, f in LL if "l" not in f and b.startswith("recv:")}
            if truth and (data or rb):
                self.cmps.add((p[3], frozenset(k for k, _ in used), frozenset(data), rb, any("h" in f for _, f in LL), frozenset(allrecv - keys - pres),
                               frozenset(b for b, f in LL if not b.startswith("recv:") and "l" not in f and "r" not in f)))
            if chb and data:
                for k, pre in used:
                    for b in data - pre - ans - k:
                        self.late.setdefault((p[3], b), I.chain())
        return super().on_branch(I, st, p, truth)

def chal_work(item):
    eng, en, party = item
    r = Chal()
    try:
        I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET)
    except Budget as e:
        return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=str(e))
    return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=None, late=r.late, cmps=r.cmps, folds=r.folds, stale=r.stale, draws=r.draws, desc=r.recv_desc, funcs=set(I.funcs), seeds=r.seeds, nouts=len(outs))

# operations whose products are checked on the spot by a sacrifice
SACRIFICE = {"MalAby3": ("mul", "dot", "dot_many", "masked_dot_many", "get_msb", "get_msb_many", "binary_or", "reduce_binary_or", "and", "and_many", "or", "or_many")}

def c08(ctx):
    rules_cover._P = P = ctx.prog("iris_mpc")
    E = engines(P)
    mal = [e for e in E if E[e]["malicious"]]
    ctx.obligation(len(mal) >= 3, "anchor:engines", f"expected three malicious-secure engines, found {mal}")
    items = [(e, en, p) for e in mal for en in entries(P, e) for p in (0, 1, 2)]
    items.sort(key=lambda x: -len(P.bodies[x[1].fid].blocks) - (1000 if x[1].name == "verify" else 0))
    rs = lint.pmap(chal_work, items)
    for r in rs:
        if r["over"]:
            ctx.violation(f"budget:{ent(r)}", f"{ent(r)} party {r['party']}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", r["nouts"])
        nm = sh(r["eng"])
        for (w, b), chain in r["late"].items():
            ctx.violation(f"late:{w}:{base_name(b, r['desc'])}", f"{ent(r)}: {w} tests data received in {base_name(b, r['desc'])} with a challenge that was drawn before that data arrived", chain)
        for (w, new), chain in r["stale"].items():
            ctx.violation(f"stale-draw:{w}", f"{ent(r)}: {w} draws a challenge from a generator that was seeded before {sorted(base_name(b, r['desc']) for b in new)} arrived", chain)
        ctx.count("challenge_draws", r["draws"])
        keysets = {c[1] for c in r["cmps"]}
        chal = [c for c in r["cmps"] if c[1]]
        ctx.count("challenge_tests", len(chal)); ctx.count("tests", len(r["cmps"]))
        for w, keys, data, rb, h, un, own in r["cmps"]:
            if nm == "Swift3" and r["name"] == "verify" and data and not h:
                # a test that is no comparison of redundant copies: a random combination of what it tests
                ctx.obligation(bool(keys), f"unchallenged:{w}", f"{ent(r)}: the test in {w} uses no challenge that was drawn interactively after the tested data was fixed")
                ctx.obligation(any(keys <= k and len(k) >= 2 for k in keysets), f"one-round:{w}",
                    f"{ent(r)}: the proof test in {w} uses one challenge only: the products and the proof must each be fixed before an independent challenge for them is drawn")
                ctx.obligation(len(un) <= 1, f"proof-late:{w}", f"{ent(r)}: {w} tests data received after the last challenge it uses: {sorted(base_name(b, r['desc']) for b in un)}")
        if r["name"] in SACRIFICE.get(nm, ()):
            ctx.obligation(bool(chal), f"nochallenge:{ent(r)}", f"{ent(r)} checks its products without a challenge that was drawn interactively")
        if nm == "SpdzWise" and r["name"] in ("verify", "precompute_and_triples"):
            ctx.obligation(bool(chal), f"nochallenge:{ent(r)}", f"{ent(r)} checks its AND triples without a challenge that was drawn interactively")
        if nm == "SpdzWise" and r["name"] in ("verify", "get_msb", "get_msb_many", "open", "open_many"):
            # the MAC check folds the pairs with randomness that no single peer knows: two independently keyed generators
            src = [c for c in r["cmps"] if any(b.startswith("self.mac_key") for b in c[6])]
            good = all(len({b for b in fb if b.startswith("self.")}) >= 2 or any(b.startswith("recv:") for b in fb) for w, fb in r["folds"])
            ok = bool(src) and ((bool(r["folds"]) and good) or all(c[1] for c in src))
            ctx.obligation(ok, f"mac-challenge:{ent(r)}", f"{ent(r)}: the MAC check does not fold its pairs with joint randomness that no single peer knows in advance (coefficients from {sorted(map(sorted, (fb for w, fb in r['folds'])))})")
            ctx.count("mac_tests", len(src))
        # a seed that only comes from stored generators is known to every holder of the key
        for w, os in r["seeds"].items():
            for o in os:
                st = [b for b in o if b.startswith("self.") and ".prf." in b]
                if st and not any(b.startswith("recv:") for b in o) and r["name"] != "preprocess":
                    ctx.violation(f"stored-seed:{w}", f"{ent(r)}: the seed expanded in {w} is drawn from {st} alone, whose key peers have held since preprocessing")
                ctx.count("seeds")
    ctx.sample("engines: " + ", ".join(map(sh, mal)))
    ctx.assume.append("joint randomness that two independently keyed pairwise generators contribute to is unknown to each single peer; commitments are covered by C09")

if __name__ == "__main__":
    ctx = lint.Ctx("C08", "quick"); c08(ctx)
    print(ctx.counts if hasattr(ctx, "counts") else "")
    for v in ctx.viol if hasattr(ctx, "viol") else []: print(v)
