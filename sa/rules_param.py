"""C29: parameters of the product proofs: size of the extension, irreducible moduli, range of the challenges."""
import re
import lint, terms, rules_cover
from rules_cover import sh
from terms import *
from terms import _E, O, V, C, STR, ok, err, mk, upd, EXT
from engine import *
from cover import is_ok
SECURITY = 40

# ------------------------------------------------------------------ polynomials over GF(2)
def mulmod(a, b, f):
    n = f.bit_length() - 1; r = 0
    while b:
        if b & 1: r ^= a
        b >>= 1; a <<= 1
        if a >> n & 1: a ^= f
    return r

def gcd2(a, b):
    while b:
        while a and a.bit_length() >= b.bit_length(): a ^= b << (a.bit_length() - b.bit_length())
        a, b = b, a
    return a

def irreducible(f):
    """Rabin's test"""
    n = f.bit_length() - 1
    if n < 1 or not f & 1: return False
    ps = [p for p in range(2, n + 1) if n % p == 0 and all(p % q for q in range(2, p))]
    def pw(k):
        a = 2
        for _ in range(k): a = mulmod(a, a, f)
        return a
    return pw(n) == 2 and all(gcd2(f, pw(n // p) ^ 2) == 1 for p in ps)

# ------------------------------------------------------------------ lower bounds of terms in m
def split_top(s):
    out = []; d = 0; cur = ""
    for c in s:
        if c in "({": d += 1
        if c in ")}": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    return out + [cur]

def parse(t):
    """(operator, [arguments]) or (atom, None)"""
    m = re.match(r"^([\w:.]+)\((.*)\)$", t)
    if not m: return t, None
    return m.group(1), split_top(m.group(2))

def pow_lb(t, m):
    """largest a with t >= m * 2^a, None if unknown"""
    if t == m: return 0
    op, a = parse(t)
    if a is None: return None
    if op == "lin":
        best = None
        for k, c in lin(t).items():      # all other summands must not be negative
            if c < 0: return None
            if k == "#1" or k == "1": continue
            x = pow_lb(k, m) if k != t else None
            if x is not None: best = max(best if best is not None else -99, x + (c.bit_length() - 1))
        return best
    if op in ("float", "max", "next_power_of_two", "saturating_add"):
        xs = [pow_lb(x, m) for x in a]
        xs = [x for x in xs if x is not None]
        return max(xs) if xs else None
    if op == "mul":
        x = [pow_lb(y, m) for y in a]; n = [numv(y) for y in a]
        for i in (0, 1):
            if len(a) == 2 and x[i] is not None and n[1 - i] and n[1 - i] >= 1: return x[i] + int(n[1 - i]).bit_length() - 1
    if op == "shl":
        x, n = pow_lb(a[0], m), numv(a[1])
        if x is not None and n is not None: return x + int(n)
    return None

def numv(t):
    n = num(t)
    if n is not None: return n
    if re.fullmatch(r"f-?\d+(\.\d+)?", t): return float(t[1:])
    return None

def log_lb(t, m, exact=False):
    """largest c with t >= log2(m) + c; integers only when `exact`"""
    op, a = parse(t)
    if a is not None and op == "trunc":
        o2, a2 = parse(a[0])
        if o2 == "ceil": return log_lb(a2[0], m)
        x = log_lb(a[0], m)
        return None if x is None else x - 1
    if a is not None and op in ("ceil", "float"): return log_lb(a[0], m)
    if a is not None and op in ("floor", "round"):
        x = log_lb(a[0], m)
        return None if x is None else x - 1
    if a is not None and op == "log2": return pow_lb(a[0], m)
    if a is not None and op in ("ilog2", "checked_ilog2"):
        x = pow_lb(a[0], m)
        if x is None: return None
        return x if parse(a[0])[0] == "next_power_of_two" else x - 1
    if a is not None and op == "trailing_zeros" and parse(a[0])[0] == "next_power_of_two": return pow_lb(a[0], m)
    if a is not None and op == "max":
        xs = [x for x in (log_lb(y, m) for y in a) if x is not None]
        return max(xs) if xs else None
    L = lin(t); c0 = 0; base = None
    if len(L) == 1 and t in L: return None
    for k, c in L.items():
        if k in ("#1", "1", ""): c0 += c; continue
        x = log_lb(k, m)
        if c == 1 and x is not None and base is None: base = x
        elif c < 0 or not (c >= 0): return None
    return None if base is None else base + c0

def relevant(P):
    """functions from which a draw of polynomials or a choice of parameters can be reached"""
    edges = {}; seed = set()
    for b in P.bodies.values():
        for bb in b.blocks:
            t = bb["t"]
            if t[0] == "call" and t[1].get("fn"):
                f = t[1]["fn"]; sa = str(f.get("selfadt") or "")
                for k in (f.get("rid"), f["id"]):
                    if k in P.bodies: edges.setdefault(k, set()).add(b.id)
                n = f["p"].split("::")[-1]
                if sa.endswith("::Poly") and n in ("random", "degree") or sa.endswith("::IrreduciblePolys"): seed.add(b.id)
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("id") in P.bodies: edges.setdefault(s[2][1]["id"], set()).add(b.id)
    st = list(seed)
    while st:
        x = st.pop()
        for y in edges.get(x, ()):
            if y not in seed: seed.add(y); st.append(y)
    return seed
_REL = None

NARROW = ("u8", "u16", "u32", "i8", "i16", "i32", "bool", "char")

class Par(Terms):
    def __init__(self):
        super().__init__(); self.gets = {}; self.rand = {}; self.narrow = {}
    def symbol(self, I, st, f, args):
        n = f.name; sa = str(f.raw.get("selfadt") or "")
        k = f.raw.get("rid") or f.id
        if k in I.P.bodies and k not in _REL and "dzkp" in k and "::Poly" not in sa and "Irreducible" not in sa:
            ret = I.P.bodies[k].raw.get("ret", "")
            if "Result<" in ret: return [(st, ok(self.v("x"))), (st.fork(), err(self.v("x")))]
            if ret.startswith("("): return [(st, STR("()", None, {0: self.v("p0"), 1: self.v("p1")}))]
            return [(st, self.v("x") if ret != "()" else STR("()", None, {}))]
        T = lambda i: self.t(I, st, args[i])
        if "Rng" in f.np and (n == "gen" and str((f.raw.get("ga") or [""])[-1]) in NARROW or n == "next_u32"): self.narrow.setdefault(I.where(), (str((f.raw.get("ga") or ["u32"])[-1]), I.chain()))
        if n == "get" and sa.endswith("::IrreduciblePolys") and args:
            for t in self.ts(I, st, args[0]): self.gets.setdefault(t, I.where())
            return [(st, self.v("modulus"))]
        if sa.endswith("::Poly"):
            if n == "degree" and args:
                t = T(0)
                return [(st, self.v("D" if t == "modulus" else node("deg", t)))]
            if n == "random" and args:
                for t in self.ts(I, st, args[0]): self.rand.setdefault((t, I.where()), I.chain())
                return [(st, self.v("rnd"))]
            return [(st, self.v("poly"))]
        if n == "resize" and args:
            return [(st, O(_E))]
        if n in ("lagrange_points", "lagrange_polys", "serialize"): return [(st, self.v("x") if n != "serialize" else ok(self.v("x")))]
        return None

def work(item):
    kind, fid, name, eng, party = item
    P = rules_cover._P
    r = Par()
    try:
        I, outs = run_entry(P, r, Entry(fid, name, eng, None), party, budget=300000)
    except Budget as e:
        return dict(item=item, over=str(e))
    conds = []
    for s, v in outs:
        conds.append(s.ts[EXT][0])
    return dict(item=item, over=None, gets={t: (w, log_lb(t, "arg:m")) for t, w in r.gets.items()}, rand=r.rand, narrow=r.narrow, conds=conds, funcs=set(I.funcs))

def c29(ctx):
    global _REL
    rules_cover._P = P = ctx.prog()
    _REL = relevant(P)
    # ---- (1) the table of moduli
    irr = [a for a in P.adts if a.endswith("::IrreduciblePolys")]
    ctx.obligation(len(irr) == 1, "anchor:table", "the table of irreducible polynomials was not found")
    consts = {c["id"]: int(c["v"]) for c in P.consts.values() if irr and c.get("implself", "").endswith("IrreduciblePolys") and c.get("v")}
    for k, v in sorted(consts.items()):
        nm = k.split("::")[-1]
        ctx.obligation(irreducible(v), f"modulus:{nm}", f"the polynomial {nm} = {v:#x} is not irreducible over GF(2)")
        ctx.count("moduli")
        m = re.fullmatch(r"D(\d+)", nm)
        if m: ctx.obligation(v.bit_length() - 1 == int(m.group(1)), f"degree:{nm}", f"the polynomial {nm} has degree {v.bit_length() - 1}")
    lookups = [b for b in P.bodies.values() if irr and b.implselfadt == irr[0] and b.raw.get("sig") == ["usize"] and b.raw.get("ret") in ("u64", "u128")]
    known = 0
    for b in lookups:
        for d in range(SECURITY, 64):
            I, outs = run_entry(P, Terms(), Entry(b.id, b.name, None, None), None, budget=20000, argv={(b.raw["vars"] or [["d"]])[0][0]: C(d)})
            for s, v in outs:
                if v.k == "c" and isinstance(v.a, int):
                    known += 1
                    ctx.obligation(irreducible(v.a) and v.a.bit_length() - 1 == d, f"lookup:{d}", f"{b.name}({d}) gives {v.a:#x}, which is not an irreducible polynomial of degree {d}")
    ctx.count("lookups_evaluated", known)
    if not known:
        ctx.obligation(len(consts) >= 20, "anchor:lookup", "neither the look-up of a modulus nor a table of constants was recognised")
        ctx.assume.append("the look-up picks the constant of the requested degree")
    # ---- the modulus of the binary field
    got = False
    for b in P.bodies.values():
        if b.id.endswith("::MODULUS") and "gf2p64" in b.id:
            for bb in b.blocks:
                for s in bb["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "array":
                        v = sum(1 << i for i, o in enumerate(s[2][2]) if str(o.get("v")) == "1")
                        got = True
                        ctx.obligation(v == (1 << 64) | 0x1b, "modulus:GF2p64", f"the modulus {v:#x} is not the polynomial x^64+x^4+x^3+x+1 that the field type computes with")
                        ctx.obligation(irreducible(v), "modulus:GF2p64:irreducible", f"the modulus {v:#x} of the binary field is not irreducible"); ctx.count("moduli")
    # ---- (2) parameters
    setters = [b for b in P.bodies.values() if b.name == "set_parameters" and "dzkp" in b.id and b.implselfadt]
    ctx.obligation(len(setters) >= 3, "anchor:parameters", f"expected three proof systems, found {[b.p for b in setters]}")
    items = [("set", b.id, b.name, b.implselfadt, None) for b in setters]
    # ---- (3) challenges: every function of an engine that sets parameters and draws polynomials
    eng = [e for e in engines(P) if e.endswith("::Swift3")]
    setids = {b.id for b in setters}
    tops = []
    for b in P.bodies.values():
        if b.implselfadt in eng and "closure" in b.id:
            ids = {t[1]["fn"].get("rid") or t[1]["fn"]["id"] for _, t in facts.calls(b) if t[1].get("fn")}
            if ids & setids: tops.append(b.parent if b.parent in P.bodies else b.id)
    tops = sorted(set(tops))
    ctx.obligation(len(tops) >= 2, "anchor:verifiers", "the functions that run the product proofs were not found")
    for fid in tops:
        for p in (0, 1, 2): items.append(("run", fid, P.bodies[fid].name, P.bodies[fid].implselfadt, p))
    full = add("D", "#1", -1)
    nr = 0
    for r in lint.pmap(work, items):
        kind, fid, name, e, party = r["item"]
        nm = f"{sh(e)}::{name}"
        if r["over"]:
            ctx.violation(f"budget:{nm}", f"{nm}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs")
        if kind == "set":
            for t, (w, c) in r["gets"].items():
                ctx.sample(f"{nm}: degree {t} >= log2(2m) + {c - 1 if c is not None else '?'}")
                ctx.obligation(c is not None and c - 1 >= SECURITY, f"degree:{nm}", f"{nm}: the extension degree {t} is not shown to be at least log2(2m)+{SECURITY} (shown: {None if c is None else c - 1})", [w])
            if not r["gets"]:
                for cs in r["conds"]:
                    good = False
                    for (p, v) in cs:
                        if p[0] == "lt" and v and (numv(p[1]) or 0) >= SECURITY and "arg:m" in p[2] and "log2" in p[2]: good = True
                        if p[0] == "lt" and not v and (numv(p[2]) or 0) >= SECURITY and "arg:m" in p[1] and "log2" in p[1]: good = True
                        if good: ctx.sample(f"{nm}: guarded by {p}"[:300]); break
                    ctx.obligation(good, f"guard:{nm}", f"{nm} accepts parameters without checking that they leave {SECURITY} bits of soundness")
        else:
            for w, (ty, chain) in r["narrow"].items():
                ctx.obligation(False, f"narrow:{w}", f"{nm}: {w} draws a value of type {ty} for the check of the products instead of one from the whole extension", chain)
            for (t, w), chain in r["rand"].items():
                nr += 1
                ctx.obligation(t == full, f"challenge:{w}", f"{nm}: {w} draws a polynomial with {t}+1 random coefficients instead of one from the whole extension (D)", chain)
    ctx.count("challenge_draws", nr)
    ctx.obligation(nr >= 6, "vacuous:challenges", f"only {nr} draws of polynomials were analysed")
    ctx.assume.append("Poly::random(d) draws d+1 coefficients; batch sizes are below 2^52, so that the floating point logarithms are exact enough")
    ctx.assume.append("the soundness error of a proof over an extension of degree d is at most (2m+1)/(2^d-m)")
