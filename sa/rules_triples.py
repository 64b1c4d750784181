"""C23: pre-generated AND triples leave their store when they are used and enter it only after verification."""
import re
import lint, terms, rules_cover
from rules_cover import sh, complete
from cover import *
from absint import _E
from models import dv
import facts

MIN_REGISTERS = 1 << 13          # 2^20 AND gates in registers of 128 bits
REMOVE = ("drain", "split_off", "pop", "remove", "swap_remove", "pop_front", "pop_back", "split_to")

def store_types(P):
    """types of batches of triples: structs with several equally typed vectors and a removing accessor"""
    return [a for a in P.adts if a.endswith("::Triples")]

def rkey(I, st, r):
    """name of a range of indices, independent of how it is written"""
    n = str(r.a) if r.k == "s" else ""
    def t(x): return str(x.a) if x.k == "c" else "+".join(sorted(b for b, f in I.labs(st, x)))
    if n.endswith("RangeFull"): return "0..END"
    fs = [t(x) for _, x in r.f] if r.k == "s" else []
    if n.endswith("RangeTo") and fs: return f"0..{fs[0]}"
    if n.endswith("RangeFrom") and fs: return f"{fs[0]}..END"
    if "Range" in n and len(fs) >= 2: return f"{fs[0]}..{fs[1]}"
    return "?"

class Triple(Cover):
    """ext = {(field, removed range)}"""
    def __init__(self, roots):
        super().__init__(); self.roots = roots; self.removed = set(); self.puts = []
    def mine(self, b): return any(b == r or b.startswith((r + ".", r + "~")) for r in self.roots)
    def init(self): return mk(ext=_E)
    def on_call(self, I, st, f, args):
        if f.name in REMOVE and args and args[0].k == "r" and any(self.mine(b) for b, fl in I.labs(st, args[0])):
            m = I.models.lookup(I, f)
            L = frozenset(b for b, fl in I.labs(st, args[0]) if self.mine(b) and "l" not in fl)
            full = f.name == "drain" and len(args) > 1 and "RangeFull" in str(args[1].a)
            rg = rkey(I, st, args[1]) if f.name == "drain" and len(args) > 1 else f"{f.name}"
            if f.name == "split_off" and len(args) > 1: rg = ("+".join(sorted(b for b, fl in I.labs(st, args[1]))) if args[1].k != "c" else str(args[1].a)) + "..END"
            outs = m(I, st, f, args) if m is not None else None
            if outs is None:
                outs = [(st, O(I.labs(st, args[0])))]
                if f.name == "split_off": outs = [(st, COLL(O(I.labs(st, args[0]))))]
            self.removed.add((I.where(), rg))
            # only content taken out of the engine's own memory leaves the store; a copy does not
            if not all(loc[0] == 0 and loc[1] == "self" for loc in self.final(I, st, args[0])): return outs
            res = []
            for s2, v in outs:
                s2.ts = upd(s2.ts, ext=s2.ts[EXT] | {(b.split("~")[0], rg) for b in L})
                if not full:
                    v = I.mapl(s2, v, lambda X: frozenset((b + "~" if self.mine(b) and not b.endswith("~") else b, fl - {"slice"} if self.mine(b) else fl) for b, fl in X))
                res.append((s2, v))
            return res
        return None
    def final(self, I, st, v):
        """where a chain of references ends"""
        out = set()
        for loc in v.a:
            x = I.load(st, loc)
            out |= self.final(I, st, x) if x.k == "r" else {loc}
        return out

def over(sent, store, removed, fields):
    """labels of a store that are still in it although they were used"""
    out = set()
    have = {b for b, f in store if "l" not in f}
    for b, f in sent:                # content that was never touched is still there
        p = b.rstrip("~").split(".")
        anc = [".".join(p[:i]) for i in range(len(p), 1, -1)]
        if b[-1] != "~" and (any(a in have for a in anc) or not any(k == a or k.startswith(a + ".") for k in fields for a in anc[:1]) and not any(a in fields for a in anc)): have.add(b)
    for b, f in sent:
        if "l" in f or b not in have: continue
        if any(x in f for x in ("take", "mid", "slice", "skip")) and any(r[0] == b for r in removed): continue
        out.add(b)
    return out

def work(item):
    kind, fid, name, eng, party, roots = item
    P = rules_cover._P
    r = Triple(roots)
    try: I, outs = run_entry(P, r, Entry(fid, name, eng, None), party, budget=2000000, expand_more=store_types(P))
    except Budget as e: return dict(item=item, over=str(e))
    res = []
    for s, v in outs:
        F = self_fields(I, s)
        st = {k: L for k, L in F.items() if any(k == x or k.startswith(x + ".") for x in r.roots)}
        allL = frozenset(l for L in st.values() for l in L)
        used = frozenset(l for p, l in s.ts[SENT] if r.mine(l[0])) if kind == "engine" else frozenset(l for l in I.labs(s, v) if r.mine(l[0]))
        fields = {k for k, L in st.items() if any("l" not in f for b, f in L)}
        res.append(dict(ok=is_ok(v), reuse=over(used, allL, s.ts[EXT], F), used=bool(used), removed=s.ts[EXT],
                        out=frozenset(l[0] for l in I.labs(s, v) if r.mine(l[0]) and "l" not in l[1]), kept=frozenset(b for b, f in allL if "l" not in f), unver=frozenset(b for b, f in allL if b.startswith("recv:") and not complete(s.ts[CMP], b)),
                        rec=frozenset(b for b, f in allL if b.startswith("recv:")), fields=fields))
    return dict(item=item, over=None, res=res, desc=r.recv_desc, funcs=set(I.funcs), sites=r.removed)

# ------------------------------------------------------------------ size of the batches that are permuted together
from terms import Terms, node, lin, add, mul, num
import terms as _T

_C = frozenset()
def lb(t):
    """lower bound of a term of natural numbers under the comparisons _C of the path"""
    n = num(t)
    if n is not None: return n
    best = 0
    for p, v in _C:
        if p[0] != "lt": continue
        x, k = (p[2], num(p[1])) if v else (p[1], num(p[2]))
        if k is None: continue
        d = add(t, x, -1)                # t = x + d with x >= k
        if all(c >= 0 for c in lin(d).values()): best = max(best, k + int(v) + lb0(d))
    return max(best, lb0(t))

def lb0(t):
    x = _T._T.get(t)
    if not x: return 0
    op, a = x
    if op == "max": return max(lb(y) for y in a)
    if op == "min": return min(lb(y) for y in a)
    if op == "phi": return min(lb(y) for y in a)
    if op == "next_power_of_two": return lb(a[0])
    if op == "mul":
        r = 1
        for y in a: r *= lb(y)
        return r
    if op == "lin":
        pos = 0; neg = False
        for k, c in lin(t).items():
            if c < 0 and k != "1": neg = True
            pos += c * (1 if k == "1" else lb(k)) if c >= 0 or k == "1" else 0
        return 0 if neg else pos
    return 0

class Sizes(Terms):
    """lengths of vectors as terms, and the index ranges of the permutation"""
    def __init__(self, P, reach, target):
        super().__init__(); self.P = P; self.reach = reach; self.target = target; self.perms = {}; self.draws = {}; self.loops = {}; self.maps = {}
    def init(self): return mk(ext=(_E, _E))
    def on_binop(self, I, st, op, a, b):
        # a drawn bit index may be split into register and position, anything else maps several draws to one bit
        for x, y in ((a, b), (b, a)):
            if {l for l, f in I.labs(st, x)} == {"rnd:index"}:
                c = y.a if y.k == "c" and type(y.a) is int else None
                if op in ("BitAnd", "BitOr", "Shr", "Shl", "Div", "Rem", "Mul") and (op, c) not in (("BitAnd", 127), ("Shr", 7), ("Div", 128), ("Rem", 128)):
                    self.maps.setdefault((I.where(), op, c), I.chain())
        return super().on_binop(I, st, op, a, b)
    def cnt(self, v):
        for _ in range(12):
            if not isinstance(v, V) or v.k != "it": return None
            for b, f in v.lab:
                if b.startswith("cnt:"): return b[4:]
            v = v.a[1]
        return None
    def vlen(self, I, st, v):
        """length term of a vector or slice"""
        v = dv(I, st, v)
        ls = {b for b, f in I.labs(st, v)}
        vs = {b[4:] for b in ls if b.startswith("vec:")}
        if vs: return next(iter(vs)) if len(vs) == 1 and not ("#0" in vs and "x" in ls) else None
        t = self.ts(I, st, v)
        if len(t) == 1:
            x = next(iter(t))
            if x.startswith(("arg:", "self.")): return node("len", x)
        return None
    def vec(self, n): return O(frozenset([("vec:" + n, _E)]))
    def symbol(self, I, st, f, args):
        n = f.name
        k = f.raw.get("rid") or f.id
        if args and args[0].k == "s" and "Range" in str(args[0].a) and n in ("into_iter", "map", "zip", "for_each", "rev", "enumerate"):
            a, b = fget(args[0], 0), fget(args[0], 1)
            if a is not None and b is not None:
                x, y = self.t(I, st, a), self.t(I, st, b)
                w = node("in", x, y)
                self.loops.setdefault(I.where(), set()).add(w)
                it = V("it", frozenset([("cnt:" + add(y, x, -1), _E)]), ("range", O(frozenset([(w, _E)])), None), False)
                if n == "into_iter": return [(st, it)]
                args[0] = it
                return None
        if n in ("new", "with_capacity") and "Vec" in f.np: return [(st, self.vec("#0"))]
        if n == "next" and args and args[0].k == "r":
            # a vector that gets one element in every round of a counted loop has as many as the loop has rounds
            it = dv(I, st, args[0]); c = self.cnt(it); site = I.site("rounds"); m = I.models.lookup(I, f)
            if c is not None and m is not None:
                out = []
                for s, r in m(I, st, f, args):
                    x = s.ts[EXT]; old = [e for e in x[1] if e[0] == "rounds" and e[1] == site]; rest = frozenset(e for e in x[1] if not (e[0] == "rounds" and e[1] == site))
                    now, ever = (old[0][2], old[0][3]) if old else (None, None)
                    keep = now if ever is None else (ever & now if now is not None else ever)
                    if r.k == "s" and r.b == 1:
                        s.ts = upd(s.ts, ext=(x[0], rest | {("rounds", site, _E, keep)}) + x[2:])
                    else:
                        s.ts = upd(s.ts, ext=(x[0], rest) + x[2:])
                        for loc in keep or ():
                            if len(loc) == 3: I.store(s, loc, self.vec(c))
                    out.append((s, r))
                return out
        if n == "push" and len(args) == 2 and args[0].k == "r" and len(args[0].a) == 1 and "Vec" in f.np:
            (loc,) = args[0].a; x = st.ts[EXT]
            started = self.vlen(I, st, REF(loc)) == "#0"
            act = [e for e in x[1] if e[0] == "rounds"]
            if act:
                e = max(act, key=lambda e: e[1]) if len(act) == 1 else None
                if e is not None:
                    first = e[3] is None and started and loc not in e[2]
                    again = e[3] is not None and loc in e[3] and loc not in e[2]
                    pushed = (e[2] | {loc}) if first or again else e[2] - {loc}
                    st.ts = upd(st.ts, ext=(x[0], (x[1] - {e}) | {("rounds", e[1], pushed, e[3])}) + x[2:])
            I.store(st, loc, O(frozenset([("x", _E)])))
            return [(st, UNIT)]
        if n == "collect" and args:
            c = self.cnt(args[0])
            if c is not None: return [(st, self.vec(c))]
        if n == "len" and len(args) == 1:
            x = self.vlen(I, st, args[0])
            if x is not None: return [(st, self.v(x))]
        if n in ("split_at",) and len(args) == 2:
            x = self.vlen(I, st, args[0]); m = self.t(I, st, args[1])
            if x is not None: return [(st, STR("()", None, {0: self.vec(m), 1: self.vec(add(x, m, -1))}))]
        if n == "split_off" and len(args) == 2 and args[0].k == "r":
            x = self.vlen(I, st, args[0]); m = self.t(I, st, args[1])
            if x is not None:
                for loc in args[0].a: I.store(st, loc, self.vec(m))
                return [(st, self.vec(add(x, m, -1)))]
        if n == "pop" and args and args[0].k == "r":
            x = self.vlen(I, st, args[0])
            if x is not None:
                for loc in args[0].a: I.store(st, loc, self.vec(add(x, "#1", -1)), weak=len(args[0].a) > 1)
                return [(st, some(O(frozenset([("x", _E)]))))]
        if n == "drain" and len(args) > 1 and args[1].k == "s":
            fs = [self.t(I, st, x) for _, x in args[1].f]; rn = str(args[1].a)
            c = fs[0] if rn.endswith("RangeTo") else add(fs[1], fs[0], -1) if rn.endswith("::Range") and len(fs) == 2 else None
            if c is not None: return [(st, V("it", frozenset([("cnt:" + c, _E)]), ("v", O(frozenset([("x", _E)])), None), False))]
        if n == "truncate" and len(args) == 2 and args[0].k == "r":
            for loc in args[0].a: I.store(st, loc, self.vec(self.t(I, st, args[1])), weak=len(args[0].a) > 1)
            return [(st, UNIT)]
        if n in ("index", "index_mut") and len(args) == 2 and args[1].k == "s" and "Range" in str(args[1].a) and "RangeFull" not in str(args[1].a):
            x = self.vlen(I, st, args[0]); rn = str(args[1].a); fs = [self.t(I, st, y) for _, y in args[1].f]
            c = fs[0] if rn.endswith("RangeTo") else add(fs[1], fs[0], -1) if rn.endswith("::Range") and len(fs) == 2 else add(x, fs[0], -1) if rn.endswith("RangeFrom") and x else None
            if c is not None: return [(st, self.vec(c))]
        if n in ("as_mut_slice", "as_slice", "deref", "deref_mut", "as_mut", "as_ref", "borrow_mut", "index", "index_mut") and args and (len(args) == 1 or "RangeFull" in str(args[1].a)):
            return [(st, args[0])]
        if n == "gen_range" and len(args) == 2:
            r = args[1]
            if r.k == "s" and "Range" in str(r.a):
                self.draws.setdefault((I.where(), tuple(self.t(I, st, x) for _, x in r.f[:2])), I.chain())
            return [(st, O(frozenset([("rnd:index", _E)])))]
        if k == self.target:
            ls = tuple(self.vlen(I, st, a) for a in args[1:])
            global _C
            _C = st.ts[EXT][0]
            self.perms.setdefault((I.where(), ls, tuple(lb(x) if x else None for x in ls)), I.chain())
            return [(st, ok(UNIT)), (st.fork(), err(O(_E)))]
        if k in self.P.bodies and k not in self.reach and "triples" not in k and not "closure" in k:
            ret = self.P.bodies[k].raw.get("ret", "")
            x = O(frozenset([("x", _E)]))
            if ret.startswith("std::vec::Vec<"): return None
            if "Result<" in ret or "Result<" in str(I.dest_ty): return [(st, ok(x)), (st.fork(), err(x))]
            return [(st, x)]
        return None

def reaching(P, target):
    edges = {}
    for b in P.bodies.values():
        for bb in b.blocks:
            t = bb["t"]
            if t[0] == "call" and t[1].get("fn"):
                f = t[1]["fn"]
                for k in (f.get("rid"), f["id"]):
                    if k in P.bodies: edges.setdefault(k, set()).add(b.id)
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("id") in P.bodies: edges.setdefault(s[2][1]["id"], set()).add(b.id)
    seen = {target}; st = [target]
    while st:
        for y in edges.get(st.pop(), ()):
            if y not in seen: seen.add(y); st.append(y)
    return seen

def sizes_work(item):
    kind, fid, name, eng, target, reach = item
    P = rules_cover._P
    r = Sizes(P, reach, target if kind == "run" else None)
    try: I, outs = run_entry(P, r, Entry(fid, name, eng, None), None, budget=400000)
    except Budget as e: return dict(item=item, over=str(e))
    return dict(item=item, over=None, perms=r.perms, draws=r.draws, maps=r.maps, loops=r.loops, funcs=set(I.funcs))

def c23(ctx):
    rules_cover._P = P = ctx.prog("iris_mpc")
    ST = store_types(P)
    ctx.obligation(len(ST) == 1, "anchor:store", f"the store of AND triples was not found ({ST})")
    if not ST: return
    S = ST[0]
    # engines that own such stores; the one with generated triples is what `precompute_and_triples` fills
    E = {}
    for e in engines(P):
        fs = ["self." + f[0] for f in P.adts[e]["variants"][0]["f"] if f[2] == S]
        if fs: E[e] = fs
    ctx.obligation(len(E) >= 1, "anchor:engine", "no engine owns a store of AND triples")
    items = []
    for e, roots in E.items():
        for en in entries(P, e):
            for p in (0, 1, 2): items.append(("engine", en.fid, en.name, e, p, tuple(roots)))
    vecs = ["self." + f[0] for f in P.adts[S]["variants"][0]["f"] if "Vec" in f[1]]
    accessors = [b for b in P.bodies.values() if b.implselfadt == S and "closure" not in b.id and b.raw["argc"] >= 1 and b.locals[1][0].startswith("&mut")]
    for b in accessors: items.append(("store", b.id, b.name, S, None, tuple(vecs)))
    items.sort(key=lambda x: -len(P.bodies[x[1]].blocks))
    taken = set(); gen = {e: set() for e in E}; rs = lint.pmap(work, items)
    for r in rs:
        kind, fid, name, e, party, roots = r["item"]; nm = f"{sh(e)}::{name}"
        if r["over"]:
            ctx.violation(f"budget:{nm}", f"{nm}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", len(r["res"]))
        for o in r["res"]:
            if kind == "store":
                ctx.obligation(not o["reuse"], f"handed-out:{nm}", f"{nm} returns triples ({sorted(o['reuse'])[:3]}) that it leaves in the store")
                rg = {}
                for b, x in o["removed"]:
                    # what is handed out: the removed part, or what was left when the removed part went back into the store
                    if b in o["out"] and b + "~" in o["kept"] and x.endswith("..END"): x = "0.." + x[:-5]
                    elif b in o["out"] and b + "~" in o["kept"] and x.startswith("0.."): x = x[3:] + "..END"
                    rg.setdefault(b, set()).add(x)
                if rg:
                    taken.add(nm)
                    ctx.obligation(len({frozenset(x) for x in rg.values()}) == 1 and len(rg) == len(vecs), f"alignment:{nm}", f"{nm} removes different parts of the components of a triple: { {k: sorted(v) for k, v in sorted(rg.items())} }")
            else:
                if o["ok"] and name == "precompute_and_triples" and o["rec"]: gen[e] |= o["fields"]
    for r in rs:
        kind, fid, name, e, party, roots = r["item"]; nm = f"{sh(e)}::{name}"
        if r["over"] or kind != "engine": continue
        G = {f.rsplit(".", 1)[0] if f.count(".") > 1 else f for o in r["res"] for f in ()}
        pre = {x for x in roots if any(y == x or y.startswith(x + ".") for y in gen[e])}
        if name == "precompute_and_triples":
            for o in r["res"]:
                ctx.count("precompute_exits")
                for b in o["unver"]:
                    ctx.violation(f"unverified:{nm}", f"{nm} leaves triples in the store that were computed from {rules_cover.base_name(b, r['desc'])} before the verification of their batch has succeeded", rules_cover.where_of(r, b))
                ctx.obligation(not o["unver"], f"unverified:{nm}", "", None) if not o["unver"] else None
        for o in r["res"]:
            ru = {b for b in o["reuse"] if any(b.startswith(x) for x in pre)}
            if o["used"]: ctx.count("paths_using_triples")
            ctx.obligation(not ru, f"reuse:{nm}", f"{nm} sends data computed from pre-generated triples ({sorted(ru)[:3]}) and leaves them in the store")
    for e in E:
        ctx.obligation(bool(gen[e]), f"anchor:generated:{sh(e)}", f"{sh(e)}: no store is filled by precompute_and_triples")
    # ---- how many triples are permuted together
    def root(b):
        while b.parent in P.bodies: b = P.bodies[b.parent]
        return b
    tg = list({root(b).id: root(b) for b in P.bodies.values() if (b.implselfadt in E or root(b).implselfadt in E) and any(t[1].get("fn") and norm_path(t[1]["fn"]["p"]).endswith("Rng::gen_range") for _, t in facts.calls(b))}.values())
    ctx.obligation(len(tg) == 1, "anchor:permutation", f"the permutation of the triples was not found ({[b.p for b in tg]})")
    if len(tg) != 1: return
    top = tg[0]
    reach = reaching(P, top.id)
    items = [("perm", top.id, top.name, top.implselfadt, top.id, reach)]
    for e in E:
        for en in entries(P, e):
            if en.fid in reach: items.append(("run", en.fid, en.name, e, top.id, reach))
    np_ = 0; permuted = set()
    for r in lint.pmap(sizes_work, items):
        kind, fid, name, e, _, _ = r["item"]; nm = f"{sh(e)}::{name}"
        if r["over"]:
            ctx.violation(f"budget:sizes:{nm}", f"{nm}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]
        if kind == "perm":
            ctx.count("permutation_draws", len(r["draws"]))
            for (w, tt), chain in r["draws"].items():
                lo, hi = (tt + ("?", "?"))[:2]
                full = [x for x in r["loops"].get(w, ()) if lo == x and re.match(r"in\(#0, ", x) and x == node("in", "#0", hi)]
                # a counter of a while loop has no term: then the upper bound decides
                los = {x[1][0] for x in r["draws"] if x[0] == w and x[1]}
                counter = not r["loops"].get(w) and (lo == "?" or num(lo) is not None and los & {"?", "#1"})
                good = (bool(full) or counter) and re.fullmatch(r"lin\(128\*len\(arg:\w+\)\)", hi)
                ctx.obligation(bool(good), f"shuffle:{w}", f"{w}: the permutation draws an index from {lo}..{hi} in the loops {sorted(r['loops'].get(w, ()))}: this is no uniform permutation of all 128 bits of all registers", chain)
            for (w, op, c), chain in r["maps"].items():
                ctx.obligation(False, f"shuffle-map:{w}", f"{w} applies {op} {'' if c is None else hex(c)} to a drawn index: several draws lead to the same bit, this is no uniform permutation", chain)
            ctx.obligation(len(r["draws"]) >= 1, "vacuous:shuffle", "no draw of the permutation was analysed")
        else:
            for (w, ls, bounds), chain in r["perms"].items():
                np_ += 1; permuted.add((e, name))
                known = [max(b for b in bounds if b is not None)] if any(b is not None for b in bounds) else []    # equal lengths are checked by the permutation
                ctx.sample(f"{nm}: {w} permutes {ls[0]} registers")
                ctx.obligation(bool(known) and min(known) >= MIN_REGISTERS, f"batch:{w}", f"{nm}: {w} permutes batches of {ls[0]} registers (at least {known}), fewer than the {MIN_REGISTERS} the bucket check needs", chain)
    ctx.count("permutations", np_)
    for e in E:
        for n in ("precompute_and_triples", "verify"):
            ctx.obligation((e, n) in permuted, f"unpermuted:{sh(e)}::{n}", f"{sh(e)}::{n} checks triples without permuting them first")
    ctx.assume.append("buckets of size two are secure from 2^20 triples on; the challenge seed of the permutation is C08/C09")
