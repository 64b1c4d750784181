"""C22: statistical margin of the verification rings.

The sizes of all rings are read from the associated types and constants of the program.  For every supported element type the
engines are analysed with these sizes as known constants; a type whose margin is too small must have no successful path through an
operation that works in its verification ring (or, for an engine that is tied to the ring by its own type, through its set-up)."""
import re
import lint, rules_cover
from rules_cover import *
from absint import _E, V
MARGIN = 40

def ring_bits(P):
    """{element type: (bits of the share ring, bits of the verification ring)} for all Sharable types; None if unknown"""
    sh = {}; k = {}
    for i in P.impls:
        if i.get("trait", "").endswith("::Sharable"):
            sh[i["self"]] = {x["n"]: x["ty"] for x in i["items"] if x["ty"]}
    for c in P.consts.values():
        if c["id"].endswith("::K") and c.get("implself") and c.get("v"): k[c["implself"]] = int(c["v"])
    ringk = None
    def bits(share):
        m = re.match(r".*RingElement<(.+)>$", share or "")
        return k.get(m.group(1)) if m else None
    out = {}
    for t, d in sh.items():
        vs = sh.get(d.get("VerificationShare", ""), {})
        out[t] = (bits(d.get("Share")), bits(vs.get("Share")))
    return out, k

def of_ring(s):
    """'V' if the type expression denotes (a part of) the verification ring, 'S' the ring of the element type"""
    if "VerificationShare" in s: return "V"
    return None

class Margin(Cover):
    def __init__(self, ks, kv, eng_u):
        super().__init__(); self.ks = ks; self.kv = kv; self.eng_u = eng_u; self.consts = 0
    def on_def(self, I, o):
        if o.get("def", "").endswith("RingImpl::K") or o.get("def", "").endswith("IntRing2k::K"):
            cs = o.get("cs") or ""
            self.consts += 1
            if "VerificationShare" in cs: return C(self.kv)
            if re.search(r"\bU\b", cs) and self.eng_u: return C(self.kv)
            if re.search(r"\bT\b", cs): return C(self.ks)
        return None
    def on_binop(self, I, st, op, a, b):
        o = op.replace("WithOverflow", "")
        if o == "Sub" and a.k == b.k == "c" and isinstance(a.a, int) and isinstance(b.a, int) and a.a < b.a:
            r = C(4000)          # wraps around to a huge number when overflow checks are off
            return STR("()", None, {0: r, 1: FALSE}) if op != o else r
        return super().on_binop(I, st, op, a, b)
    def on_call(self, I, st, f, args):
        if any("VerificationShare" in g for g in f.raw.get("ga", [])) and "VS" not in (st.ts[EXT] or _E):
            st.ts = upd(st.ts, ext=(st.ts[EXT] or _E) | {"VS"})
        return super().on_call(I, st, f, args)

def work(item):
    eng, en, party, ks, kv, whole, ts = item
    r = Margin(ks, kv, whole)
    try:
        I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET)
    except Budget as e:
        return dict(item=item[:3], over=str(e), key=(ks, kv), ts=ts)
    ok = used = 0; 
    for s, v in outs:
        if is_ok(v) or en.name in SYNC:
            ok += 1
            used += "VS" in (s.ts[EXT] or _E)
    return dict(item=item[:3], over=None, key=(ks, kv), ok=ok, used=used, funcs=set(I.funcs), consts=r.consts, whole=whole, ts=ts)

SYNC = ("share", "add", "sub", "add_const", "sub_const", "mul_const")

def mentions(P, fid, memo):
    """the body or a function it can reach names the verification ring"""
    if fid in memo: return memo[fid]
    memo[fid] = False
    b = P.bodies.get(fid)
    if not b: return False
    r = False
    for bb in b.blocks:
        t = bb["t"]
        if t[0] == "call":
            f = t[1].get("fn")
            if f:
                if any("VerificationShare" in g for g in f.get("ga", [])): r = True
                for k in (f.get("rid"), f["id"]):
                    if k in P.bodies and mentions(P, k, memo): r = True
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("id") in P.bodies and mentions(P, s[2][1]["id"], memo): r = True
    memo[fid] = r
    return r

def c22(ctx):
    rules_cover._P = P = ctx.prog()
    B, k = ring_bits(P)
    ctx.obligation(len(B) >= 6, "anchor:types", f"only {len(B)} element types were found")
    for t, n in sorted(k.items()):
        m = re.fullmatch(r"[iu](\d+)", t)
        ctx.obligation(n == (int(m.group(1)) if m else 1), f"ring-size:{t}", f"{t} is said to have {n} bits")
    pairs = {}
    for t, (a, b) in sorted(B.items()):
        if not ctx.obligation(a is not None and b is not None, f"sizes:{t}", f"the ring sizes of {t} could not be determined"): continue
        ctx.obligation(b >= a, f"smaller:{t}", f"the verification ring of {t} ({b} bits) is smaller than its ring ({a} bits)")
        ctx.obligation(a >= (int(t[1:]) if re.fullmatch(r"[iu]\d+", t) else 1), f"share-ring:{t}", f"values of {t} do not fit its share ring of {a} bits")
        pairs.setdefault((a, b), []).append(t)
        ctx.sample(f"{t}: share ring {a} bits, verification ring {b} bits, margin {b - a}")
    E = engines(P)
    items = []; memo = {}; per = {}
    mpc = P.trait_named("MpcTrait")
    for e in E:
        impl = [i for i in P.impls if i.get("trait") == mpc and i["selfadt"] == e]
        whole = any("VerificationShare" in i["self"] for i in impl)
        for en in entries(P, e):
            if whole and en.name != "preprocess": continue
            if not whole and not mentions(P, en.fid, memo): continue
            if en.name in SYNC: continue
            per.setdefault(e, []).append(en.name)
            for (a, b), ts in pairs.items():
                for p in (0, 1, 2): items.append((e, en, p, a, b, whole, tuple(ts)))
    items.sort(key=lambda x: -len(P.bodies[x[1].fid].blocks))
    ctx.obligation(len(per) >= 2, "anchor:engines", f"expected two engines that verify in a larger ring, found {sorted(map(sh, per))}")
    for e, l in per.items(): ctx.sample(f"{sh(e)}: {len(l)} operations in the verification ring")
    for r in lint.pmap(work, items):
        e, en, p = r["item"]; a, b = r["key"]
        name = f"{sh(e)}::{en.name}"
        if r["over"]:
            ctx.violation(f"budget:{name}", f"{name}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("size_constants_read", r["consts"])
        if b - a < MARGIN:
            bad = r["ok"] if r["whole"] else r["used"]
            ctx.obligation(not bad, f"margin:{name}:{'/'.join(r['ts'])}",
                           f"{name} runs for {', '.join(r['ts'])} although the verification ring is only {b - a} bits larger than the value ring (needed: {MARGIN})")
        else:
            ctx.obligation(r["ok"] > 0, f"refused:{name}:{'/'.join(r['ts'])}", f"{name} cannot succeed for {', '.join(r['ts'])} although its margin of {b - a} bits suffices")
    good = sum(1 for (a, b) in pairs if b - a >= MARGIN)
    ctx.obligation(good >= 3, "no-types", f"only {good} ring pairs have a sufficient margin")
    ctx.count("ring_pairs", len(pairs))
    ctx.assume.append("the margin of 40 bits is the one documented at Sharable::VerificationShare")
    ctx.assume.append("an engine whose own type fixes the verification ring is judged at its set-up operation")
