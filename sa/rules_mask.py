"""C10: products leave a party only under fresh correlated randomness."""
import lint, rules_cover
from rules_cover import *
from absint import _E

DRAWS = ("gen", "gen_range", "sample", "sample_iter", "fill", "fill_bytes", "next_u32", "next_u64", "random")

class Mask(Cover):
    keepbase = staticmethod(lambda b: b.startswith("draw:"))
    """ext = spent draws {(where pushed, draw)}"""
    def __init__(self, twice=True):
        super().__init__(); self.twice = twice; self.sends = {}; self.draws = set()
    def init(self): return mk(ext=_E)
    def on_call(self, I, st, f, args):
        if f.name in DRAWS and ("Rng" in f.np) and args:
            L = I.labs(st, args[0])
            keys = {b for b, fl in L if b.startswith("self.") and ".prf" in b}
            kind = "+".join(sorted(k.split(".")[-1] for k in keys)) if keys and not any(b.startswith("recv:") for b, fl in L) else "local"
            d = f"draw:{kind}:{I.site()}".replace("|", "/")
            self.draws.add((I.where(), kind))
            st.ts = upd(st.ts, ext=frozenset(x for x in st.ts[EXT] if x[1] != d))
            if f.name in ("fill", "fill_bytes"): return None
            return [(st, O(frozenset([lab(d)]) | (flag(L, "r") if kind == "local" else _E)))]
        op = f.name[:-7] if f.name.endswith("_assign") else f.name
        if len(args) == 2 and op in ("add", "sub", "bitxor", "mul", "bitand", "add_from_bits") and "ops::" in f.np:
            k = I.resolve(st, f, args)
            if k is not None and not self.opaque(k): return None
            L0, L1 = I.labs(st, args[0]), I.labs(st, args[1])
            return self.arith(I, st, op, f.name != op, args, L0, L1)
        return None
    def arith(self, I, st, op, assign, args, L0, L1):
        isd = lambda l: l[0].startswith("draw:")
        if op in ("mul", "bitand"):
            # a product with a random factor is not hidden by that factor as by an additive mask
            L = frozenset((b, fl | {"x"}) if b.startswith("draw:") else (b, fl) for b, fl in L0 | L1)
        else:
            L = L0 | L1
            for M, D in ((L0, L1), (L1, L0)):
                ds = frozenset(l[0] for l in M if isd(l))
                pure = ds and all(isd(l) and "x" not in l[1] for l in M)
                secret = any(not isd(l) and "l" not in l[1] or "x" in l[1] for l in D)
                if pure and secret and self.twice:
                    spent = st.ts[EXT]
                    if all(("+", d) in spent for d in ds):
                        L = L | {lab("reuse:" + I.where() + ":" + "|".join(sorted(ds)))}
                    st.ts = upd(st.ts, ext=spent | {("+", d) for d in ds})
                    break
        if assign:
            if args[0].k == "r":
                for loc in args[0].a: I.store(st, loc, O(L), weak=len(args[0].a) > 1)
            return [(st, UNIT)]
        return [(st, O(L))]
    def on_elem(self, I, st, v):
        if not st.ts[EXT]: return
        ds = {b for b, f in I.labs(st, v) if b.startswith("draw:")}
        if ds and any(x[1] in ds for x in st.ts[EXT]):
            st.ts = upd(st.ts, ext=frozenset(x for x in st.ts[EXT] if x[1] not in ds))
    def on_send(self, I, st, ts, peers, L, site):
        secret = frozenset(b for b, f in L if b.startswith(("arg:", "self.")) and "l" not in f and "h" not in f and "r" not in f)
        draws = frozenset(b.split(":")[1] for b, f in L if b.startswith("draw:") and "x" not in f)
        if not secret: secret = frozenset(b.split("#")[0] for b, f in L if "x" in f)
        hashed = frozenset(b for b, f in L if "h" in f)
        # a reused mask only matters while no further fresh draw was added
        alld = {b for b, f in L if b.startswith("draw:")}
        reuse = frozenset(b.split(":draw:")[0][6:] for b, f in L if b.startswith("reuse:") and alld <= set("draw:" + x for x in b.split(":draw:", 1)[1].split("|draw:")))
        self.sends.setdefault((I.where(), site, secret, draws, bool(hashed), reuse), I.chain())
        return super().on_send(I, st, ts, peers, L, site)

def mask_work(item):
    eng, en, party = item
    for twice in (True, False):
        r = Mask(twice)
        try:
            I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET if not twice else 400000)
            break
        except Budget as e:
            if not twice: return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=str(e))
    share = []
    if en.name == "share":
        for s, v in outs:
            if is_ok(v): share += components(I, s, v)
    return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=None, sends=r.sends, draws=r.draws, desc=r.recv_desc, funcs=set(I.funcs), nouts=len(outs), twice=twice, share=share)

def components(I, s, v, d=0):
    """label sets of the scalar components of a value"""
    v = I.deep(s, v)
    if d < 6 and v.k == "s" and v.f: return [x for _, c in v.f for x in components(I, s, c, d + 1)]
    if d < 6 and v.k == "l":
        return [x for c in ([v.a] if v.a is not None else []) + [z for _, z in v.f] for x in components(I, s, c, d + 1)]
    return [I.labs(s, v)]

def c10(ctx):
    rules_cover._P = P = ctx.prog("iris_mpc")
    E = [e for e in engines(P) if engines(P)[e]["malicious"] or engines(P)[e]["semi"]]
    ctx.obligation(len(E) >= 4, "anchor:engines", f"expected four networked engines, found {sorted(E)}")
    items = [(e, en, p) for e in E for en in entries(P, e) for p in ((0, 1, 2) if en.name != "share" else (0,))]
    items.sort(key=lambda x: -len(P.bodies[x[1].fid].blocks) - (1000 if x[1].name in ("verify", "reduce_binary_or") else 0))
    rs = lint.pmap(mask_work, items)
    masked = {}
    for r in rs:
        if r["over"]:
            ctx.violation(f"budget:{ent(r)}", f"{ent(r)} party {r['party']}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", r["nouts"])
        nm = sh(r["eng"])
        if not r["twice"]: ctx.count("entries_without_reuse_tracking")
        for L in r["share"]:
            if not any(b.startswith("arg:input") for b, f in L): continue
            ds = {b for b, f in L if b.startswith("draw:")}
            ctx.count("share_components")
            ctx.obligation(len(ds) >= 2, f"share:{nm}", f"{nm}::share returns a component that depends on the input and on {len(ds)} random draw(s) only: one party's pair of components then determines the input")
        if r["name"] == "share":
            ctx.obligation(any(any(b.startswith("arg:input") for b, f in L) for L in r["share"]) or not r["share"], f"anchor:share:{nm}", f"{nm}::share: no output component depends on the input")
        if r["name"] in OPENS: continue
        for (w, site, secret, kinds, hashed, reuse), chain in r["sends"].items():
            if not secret or hashed: continue
            ctx.count("secret_sends")
            masked[(nm, r["name"])] = True
            ctx.obligation(bool(kinds), f"unmasked:{ent(r)}:{w}", f"{ent(r)}: {w} sends data derived from {sorted(secret)[:3]} without any correlated randomness added", chain)
            if nm == "Aby3" and kinds:
                ctx.obligation(len(kinds) >= 2, f"one-key:{ent(r)}:{w}", f"{ent(r)}: {w} sends data derived from {sorted(secret)[:3]} masked with draws from one generator only ({sorted(kinds)}), which a peer can remove or which cancel", chain)
            ctx.obligation(not reuse or kinds == {"local"}, f"reuse:{ent(r)}:{w}", f"{ent(r)}: {w} sends several elements under the same mask (added in {sorted(reuse)})", chain)
    for e in E:
        for n in ("mul", "dot", "dot_many", "masked_dot_many", "get_msb", "reduce_binary_or", "input"):
            ctx.obligation((sh(e), n) in masked or n == "input" or (sh(e), n) in NOSEND, f"vacuous:{sh(e)}:{n}", f"{sh(e)}::{n}: no send of secret-derived data was found")
    ctx.sample("products seen: " + ", ".join(sorted(f"{a}::{b}" for a, b in masked))[:900])
    ctx.assume.append("draws of a keyed generator are independent; which peer holds the key, and that masks cancel in the result, is left to the correctness tests")
    ctx.assume.append("openings (open*, and the opened triple differences, which carry triple masks) reveal their value by design")

NOSEND = set()

if __name__ == "__main__":
    import time; t = time.time()
    ctx = lint.Ctx("C10", "quick"); c10(ctx); print(time.time() - t, ctx.cov, ctx.samples)
    for k, v in ctx.findings.items(): print(k, v[0][:200])
