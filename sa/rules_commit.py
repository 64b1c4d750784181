"""C09: joint randomness is committed before it is revealed, and openings are checked against earlier commitments."""
import lint, rules_cover
from rules_cover import *
from rules_mask import DRAWS
from absint import _E
from posit import positional

def local(b): return b.startswith("draw:local")

class Commit(Cover):
    keepbase = staticmethod(lambda b: b.startswith(("draw:", "recv:")))
    """ext = (committed {(peer, draw)}, received since the first commitment, revealed {(peer, draw)}, checked opening labels)"""
    def __init__(self):
        super().__init__(); self.bad = {}; self.joint = {}; self.groups = set(); self.reveals = set()
    def init(self): return mk(ext=(_E, _E, _E, _E))
    def on_call(self, I, st, f, args):
        if f.name in DRAWS and "Rng" in f.np and args:
            L = I.labs(st, args[0])
            if f.name in ("fill", "fill_bytes"): return None
            if any(b.startswith(("self.", "recv:")) and "l" not in fl for b, fl in L): return None
            d = f"draw:local:{I.site()}"
            com, since, rev, chk = st.ts[EXT]
            st.ts = upd(st.ts, ext=(frozenset(x for x in com if x[1] != d), since, frozenset(x for x in rev if x[1] != d), chk))
            return [(st, O(frozenset([lab(d)])))]
        if f.name.startswith("finalize") and args:
            self.groups.add(frozenset(l for l in I.labs(st, args[0]) if local(l[0])))
        return positional(I, st, f, args)
    def pos(self, I, st, site, n):
        com, since, rev, chk = st.ts[EXT]
        rev = frozenset(x for x in rev if x[0] != ("pos", site)) | ({(("pos", site), n)} if n else _E)
        st.ts = upd(st.ts, ext=(com, since, rev, chk))
    def received(self, ts, nb):
        com, since, rev, chk = ts[EXT]
        if com: since = since | nb
        chk = frozenset(l for l in chk if l[0] not in nb)
        return super().received(upd(ts, ext=(com, since, rev, chk)), nb)
    def on_send(self, I, st, ts, peers, L, site):
        com, since, rev, chk = ts[EXT]
        H = {b for b, f in L if local(b) and "h" in f}
        Cl = {b for b, f in L if local(b) and "h" not in f and "r" not in f and "l" not in f}
        if H - {d for _, d in com} and com and {d for _, d in com} <= {d for _, d in rev} and rev:
            since = _E; rev = frozenset(x for x in rev if x[0] != "pre")       # a new round of commitments
        for p in peers:
            com = com | {(p, d) for d in H}
        known = {d for _, d in com}
        if Cl & known:
            for p in peers:
                self.reveals.add((I.where(), p))
                # a contribution goes out in the clear: the commitments of both peers must be there
                have = {b.split(":")[1] for b in since}
                if not {"next", "prev"} <= have:
                    self.bad.setdefault(("early", I.where()), (f"reveals its contribution to {p} before the commitments of {sorted({'next', 'prev'} - have)} arrived", I.chain()))
                if any((p, d) not in com for d in Cl & known):
                    self.bad.setdefault(("uncommitted", I.where()), (f"reveals to {p} a contribution that was never committed to that peer", I.chain()))
                if not any(x[0] == "pre" for x in rev): rev = rev | {("pre", b) for b in since}
                rev = rev | {(p, d) for d in Cl}
        return super().on_send(I, st, upd(ts, ext=(com, since, rev, chk)), peers, L, site)
    def on_branch(self, I, st, p, truth):
        r = super().on_branch(I, st, p, truth)
        if p[0] == "eq" and truth:
            LL = p[1] | p[2]
            op = {l for l in LL if l[0].startswith("recv:") and "h" in l[1]}
            cm = {b for b, f in LL if b.startswith("recv:") and "h" not in f and "l" not in f}
            com, since, rev, chk = st.ts[EXT]
            pre = {d for t, d in rev if t == "pre"}
            peers = {b.split(":")[1] for b in cm}
            good = {(b, frozenset(f - {"h"})) for b, f in op if b not in cm and cm and cm <= pre and b.split(":")[1] in peers and b not in pre}
            if good:
                out = []
                for ts in (r if r is not None else [st.ts]):
                    c, s, rv, k = ts[EXT]
                    out.append(upd(ts, ext=(c, s, rv, k | frozenset(good))))
                return out
        return r
    def on_seed(self, I, st, f, v):
        L = I.labs(st, v)
        rv = {b for b, fl in L if b.startswith("recv:") and "l" not in fl and "h" not in fl}
        own = {b for b, fl in L if local(b)}
        if not (rv and own): return
        com, since, rev, chk = st.ts[EXT]
        unchecked = frozenset(b for b in rv if not complete(chk, b))
        uncommitted = frozenset(d for d in own if d not in {x for _, x in com})
        self.joint.setdefault((I.site(), I.where(), frozenset(rv), frozenset(own), unchecked, uncommitted), I.chain())

def commit_work(item):
    eng, en, party = item
    r = Commit()
    try:
        I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET)
    except Budget as e:
        return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=str(e))
    return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=None, bad=r.bad, joint=r.joint, groups=r.groups, reveals=r.reveals, desc=r.recv_desc, funcs=set(I.funcs), nouts=len(outs),
                oks=[{k: v for k, v in self_fields(I, s).items() if ".prf" in k} for s, v in outs if is_ok(v)] if en.name == "preprocess" else [])

def c09(ctx):
    rules_cover._P = P = ctx.prog("iris_mpc")
    E = engines(P)
    mal = [e for e in E if E[e]["malicious"]]
    ctx.obligation(len(mal) >= 3, "anchor:engines", f"expected three malicious-secure engines, found {mal}")
    items = [(e, en, p) for e in mal for en in entries(P, e) for p in (0, 1, 2)]
    items.sort(key=lambda x: -len(P.bodies[x[1].fid].blocks) - (1000 if x[1].name == "verify" else 0))
    joint = {}
    for r in lint.pmap(commit_work, items):
        if r["over"]:
            ctx.violation(f"budget:{ent(r)}", f"{ent(r)} party {r['party']}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", r["nouts"])
        nm = sh(r["eng"])
        for (kind, w), (msg, chain) in r["bad"].items():
            ctx.violation(f"{kind}:{ent(r)}:{w}", f"{ent(r)}: {w} {msg}", chain)
        ctx.count("reveals", len(r["reveals"]))
        for (site, w, rv, own, un, uc), chain in r["joint"].items():
            joint[(nm, r["name"])] = joint.get((nm, r["name"]), 0) + 1
            ctx.count("joint_seeds")
            ctx.obligation(not un, f"unchecked:{ent(r)}:{w}", f"{ent(r)}: {w} uses contributions of {sorted(base_name(b, r['desc']) for b in un)} that were not (completely) checked against a commitment received before this party's own contribution was revealed", chain)
            ctx.obligation(not uc, f"nocommit:{ent(r)}:{w}", f"{ent(r)}: {w} uses an own contribution that was never committed", chain)
            for d in own:
                bound = [g for g in r["groups"] if complete(g, d)]
                ctx.obligation(bool(bound), f"unbound:{ent(r)}:{w}", f"{ent(r)}: no commitment covers the whole contribution used in {w}", chain)
                ctx.obligation(any(sum(complete(g, b) for b in {b for b, f in g}) >= 2 for g in bound), f"noblind:{ent(r)}:{w}", f"{ent(r)}: the commitment to the contribution used in {w} does not contain fresh blinding randomness in full", chain)
        for o in r["oks"]:
            if nm not in CONTRIB: continue
            for k, L in o.items():
                bs = {b for b, f in L}
                ctx.obligation(any(local(b) for b in bs) and any(b.startswith("recv:") for b in bs), f"key:{nm}:{k}", f"{nm}::preprocess leaves {k} without contributions of both this party and a peer")
                ctx.count("keys")
    for want in (("MalAby3", "preprocess"), ("Swift3", "preprocess"), ("Swift3", "verify")):
        ctx.obligation(joint.get(want, 0) > 0, f"vacuous:{want[0]}:{want[1]}", f"{want[0]}::{want[1]}: no joint randomness from committed contributions was found")
    ctx.sample("joint seeds: " + str({f"{a}::{b}": n for (a, b), n in joint.items()}))
    ctx.assume.append("the hash function is binding and hiding under a 256-bit blinding value")

# engines whose set-up contributes seeds from both ends of every key
CONTRIB = ("MalAby3", "Swift3")

if __name__ == "__main__":
    ctx = lint.Ctx("C09", "quick"); rules_cover._P = P = ctx.prog("iris_mpc")
    E = engines(P)
    for e in E:
        if not E[e]["malicious"]: continue
        for en in entries(P, e):
            if en.name in ("preprocess", "verify"):
                r = commit_work((e, en, 0))
                print(sh(e), en.name, r["over"], r["bad"], len(r["joint"]), r["reveals"])
                for (s, w, rv, own, un, uc) in r["joint"]: print("  J", w, len(rv), len(own), "UNCHECKED", sorted(base_name(b, r["desc"]) for b in un), "UNCOMM", sorted(uc))
                for g in r["groups"]: print("  G", [(b[-40:], sorted(f)) for b, f in g])
                for o in r["oks"]: print("  F", {k: sorted({b[:14] for b, f in v}) for k, v in o.items()})
