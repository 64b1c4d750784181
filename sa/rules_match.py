"""C07: the secure matcher and the plain reference decide by the same rule."""
import itertools, re
import lint, models, rules_cover
from rules_cover import sh
from terms import *
from terms import _T, _E, O, V, C, STR, COLL, RES, OPT, dv, ok, err, mk, upd, EXT
from engine import *
from cover import is_ok

MPC = ("sub_const", "add_const", "mul_const", "add", "sub", "masked_dot_many", "dot_many", "get_msb_many", "get_msb")

def failed(st, n):
    """the outcome where a primitive reports an error, kept apart from the others"""
    s = st.fork(); s.ts = upd(s.ts, ext=(s.ts[EXT][0] | {(("failed", n), True)},) + s.ts[EXT][1:])
    return s

def vecshare(I, st, f, args):
    """share vectors whose representation is not known here behave as lists"""
    n = f.name
    if "VecShareTrait" not in f.np or I.resolve(st, f, args) is not None: return None
    if n == "with_capacity": return [(st, COLL(None))]
    if n == "push": return models.m_push(I, st, f, args)
    if n == "extend": return models.m_extend(I, st, f, args)
    if n == "reserve": return [(st, STR("()", None, {}))]
    if n == "get_at": return [(st, O(I.labs(st, dv(I, st, args[0]))))]
    return None

class Match(Terms):
    """the matching rule as a term over the two codes and masks"""
    def __init__(self): super().__init__(); self.fails = []; self.calls = {}
    def symbol(self, I, st, f, args):
        n = f.name
        T = lambda i: self.t(I, st, args[i])
        r = vecshare(I, st, f, args)
        if r is not None: return r
        if n == "count_ones" and len(args) == 1: return [(st, self.v(node("count", T(0))))]
        if "MpcTrait" in f.np and n in MPC:
            self.calls[n] = self.calls.get(n, 0) + 1
            if n == "sub_const": return [(st, self.v(add(T(1), T(2), -1)))]
            if n == "add_const": return [(st, self.v(add(T(1), T(2))))]
            if n == "mul_const": return [(st, self.v(mul(T(1), T(2))))]
            if n == "add": return [(st, self.v(add(T(1), T(2))))]
            if n == "sub": return [(st, self.v(add(T(1), T(2), -1)))]
            if n == "masked_dot_many":
                a, b = sorted((T(1), T(2)))
                r = COLL(self.v(node("mdot", a, b, T(3))))
            elif n == "dot_many":
                a, b = sorted((T(1), T(2)))
                r = COLL(self.v(node("dot", a, b)))
            elif n == "get_msb_many": r = COLL(self.v(node("msb", T(1))))
            else: r = self.v(node("msb", T(1)))
            return [(st, ok(r)), (failed(st, n), err(O(frozenset([("mpc", _E)]))))]
        if n == "filter_reduce_add_twice":
            return [(st, ok(STR("()", None, {0: self.v(node("fsum", T(0), T(2))), 1: self.v(node("fsum", T(1), T(2)))}))), (failed(st, n), err(O(frozenset([("size", _E)]))))]
        return super().symbol(I, st, f, args)
    def on_diverge(self, I, st, what, args):
        self.fails.append((frozenset(st.ts[EXT][0]), what))

def outcomes(I, rule, outs, budget=None):
    """[(conditions, outcome)] of a function: outcome True / False / 'err:<variant>' / term"""
    tab = []
    for s, v in outs:
        conds = s.ts[EXT][0]
        v = dv(I, s, v)
        if v.k == "s" and v.a == RES:
            if v.b == 1: tab.append((conds, ("err", v))); continue
            v = dict(v.f).get(0) or O()
            v = dv(I, s, v)
        if v.k == "p":
            for truth in (True, False):
                s2 = s.fork()
                for ts in I.assume(s2, v.a, truth): tab.append((ts[EXT][0], truth))
        elif v.k == "c": tab.append((conds, bool(v.a)))
        else: tab.append((conds, rule.t(I, s, v)))
    for c, w in rule.fails: tab.append((c, ("panic", w)))
    return tab

def subst(t, m):
    """rename leaves of a term"""
    x = _T.get(t)
    if x is None:
        return m.get(t, t)
    if x[0] == "lin": 
        d = {}
        for k, c in lin(t).items():
            k2 = subst(k, m) if k != "1" else k
            d[k2] = d.get(k2, 0) + c
        return unlin(d)
    return node(x[0], *[subst(a, m) for a in x[1]])

def atoms(tab): return {p for c, _ in tab for p, _ in c}

def decide(tab, truth):
    """outcomes compatible with an assignment of the atoms"""
    out = []
    for c, o in tab:
        if all(truth.get(p, t) == t for p, t in c): out.append(o)
    return out

def kind(o):
    if isinstance(o, tuple): return "fail"
    return o

def find(P, suffix, adt=None):
    return [b for b in P.bodies.values() if b.id.endswith("::" + suffix) and (adt is None or (b.implselfadt or "").endswith(adt))]

def run(P, body, rule, budget=400000, argv=None):
    return run_entry(P, rule, Entry(body.id, body.id.split("::")[-1], body.implselfadt or "", None), None, budget=budget,
                     expand_more={body.implselfadt, "plain_reference::IrisCode"} , argv=argv)

def rename(tab, ren):
    return [(frozenset(((p[0],) + tuple(subst(x, ren) if isinstance(x, str) else x for x in p[1:]), t) for p, t in c),
             o if isinstance(o, (bool, tuple)) else subst(o, ren)) for c, o in tab]

def summary(tab, ats, sel):
    """{assignment of the relevant atoms: set of outcomes}"""
    out = {}
    ats = sorted(ats, key=str)
    for bits in itertools.product((False, True), repeat=len(ats)):
        tr = dict(zip(ats, bits))
        out[bits] = {sel(o) for o in decide(tab, tr)}
    return out

def pretty(ats, bits): return ", ".join(("" if b else "not ") + f"{a[1]} < {a[2]}" if a[0] == "lt" else f"{a}={b}" for a, b in zip(sorted(ats, key=str), bits))

class Filt(Terms):
    """answers every query of a mask bit with a fixed value"""
    def __init__(self, bit): super().__init__(); self.bit = bit; self.asked = 0
    def symbol(self, I, st, f, args):
        if f.name == "get_bit" and "IrisCodeArray" in f.np:
            self.asked += 1
            return [(st, C(self.bit))]
        if f.name == "bits" and "IrisCodeArray" in f.np:
            self.asked += 1
            return [(st, COLL(C(self.bit)))]
        return None
    def on_binop(self, I, st, op, a, b): return None
    def on_branch(self, I, st, p, truth): return None
    def on_call(self, I, st, f, args): return self.symbol(I, st, f, args)

def bases(I, st, v):
    """which operands a value was computed from"""
    out = set()
    for b, f in I.labs(st, v):
        if "l" in f: continue
        out |= set(re.findall(r"(?:arg:|self\.)\w+", b))
    return out

def c07(ctx):
    rules_cover._P = P = ctx.prog()
    need = lambda l, what: ctx.obligation(len(l) >= 1, f"anchor:{what}", f"{what} was not found, so the matching rule cannot be compared") and l
    # ---- the plain rule
    pl = find(P, "is_close", "IrisCode"); se = find(P, "compare_iris_many", "IrisProtocol")
    need(pl, "plain_reference::IrisCode::is_close"); need(se, "IrisProtocol::compare_iris_many")
    if not pl or not se: return
    r = Match(); I, outs = run(P, pl[0], r, argv={"other": V("s", frozenset([("arg:other", _E)]), "plain_reference::IrisCode")})
    ctx.funcs |= set(I.funcs)
    plain = rename(outcomes(I, r, outs), {"self.mask": "m1", "arg:other.mask": "m2", "self.code": "c1", "arg:other.code": "c2"})
    names = {a for c, _ in plain for q, _ in c for t in q[1:] for a in re.findall(r"\b(?:m1|m2|c1|c2)\b", str(t))}
    if not ctx.obligation({"m1", "m2", "c1", "c2"} <= names, "plain-shape", f"is_close decides from {sorted(names)} only, not from both codes and both masks"): return
    # ---- the secure rule
    r2 = Match(); I2, outs2 = run(P, se[0], r2)
    ctx.funcs |= set(I2.funcs)
    M = node("and", "m1", "m2")
    sec = rename(outcomes(I2, r2, outs2), {"arg:mask_a": "m1", "arg:mask_b": "m2", "arg:a": "c1", "arg:b": "c2"})
    for c, w in [(c, o) for c, o in sec if isinstance(o, tuple) and o[0] == "panic"]:
        ctx.obligation(False, "secure-panic", f"compare_iris_many can stop with a panic ({w}) under {sorted(map(str, c))[:3]}")
    # the arithmetic form of the masked distance: |a&m| + |b&m| - 2 <a&m, b&m> = |(a xor b) & m|
    dist = unlin({node("fsum", "c1", M): 1, node("fsum", "c2", M): 1, node("mdot", "c1", "c2", M): -2})
    okterms = []
    for c, o in sec:
        if isinstance(o, bool) or isinstance(o, tuple): continue
        okterms.append((c, o))
    if not ctx.obligation(bool(okterms), "secure-shape", "compare_iris_many has no successful outcome"): return
    def as_pred(o):
        """msb(A - B), with A the masked distance, is the comparison A < B"""
        x = _T.get(o)
        if not x or x[0] != "msb": return None
        d = dict(lin(x[1][0])); want = lin(dist)
        for k, n in want.items():
            if d.get(k) != n: return None
            d.pop(k)
        rest = unlin({k: -n for k, n in d.items()})
        return ("lt", DIST, rest)
    DIST = node("count", node("and", M, node("xor", "c1", "c2")))
    sec2 = []
    for c, o in sec:
        if not isinstance(o, (bool, tuple)):
            p = as_pred(o)
            if not ctx.obligation(p is not None, "distance:" + o[:160], f"compare_iris_many answers with {o[:300]}; expected the sign of |a&m| + |b&m| - 2<a,b>_m - threshold over the combined mask m"): continue
            c = c | {(p, True)}; sec2.append((c, True))
            sec2.append(((c - {(p, True)}) | {(p, False)}, False))
        else: sec2.append((c, o))
    # ---- one decision table
    def relevant(tab): return {p for p in atoms(tab) if p[0] == "lt"}
    ats = relevant(plain) | relevant(sec2)
    ctx.obligation(relevant(plain) == relevant(sec2), "atoms", f"the two matchers compare different quantities: plain {sorted(map(str, relevant(plain) - relevant(sec2)))}, secure {sorted(map(str, relevant(sec2) - relevant(plain)))}")
    if len(ats) <= 8:
        A = summary(plain, ats, lambda o: "refuse" if isinstance(o, tuple) else o)
        B = summary(sec2, ats, lambda o: "refuse" if isinstance(o, tuple) else o)
        for bits in A:
            a, b = A[bits], B[bits]
            good = len(a) == 1 and (b - {"refuse"} == a - {"refuse"})
            ctx.obligation(good, f"row:{pretty(ats, bits)[:220]}", f"when {pretty(ats, bits)}: the plain matcher answers {sorted(map(str, a))}, the secure one {sorted(map(str, b))}")
    ctx.sample("is_close: " + "; ".join(f"{pretty(ats, k)} -> {sorted(map(str, v))}" for k, v in A.items())[:600])
    # ---- the parts: masked sums count exactly the positions whose mask bit is set
    fr = [b for b in P.bodies.values() if b.id.endswith("::filter_reduce_add_twice") and b.implselfadt]
    ctx.obligation(len(fr) >= 2, "anchor:filter_reduce_add_twice", "fewer than two implementations of filter_reduce_add_twice were found")
    for b in fr:
        for bit in (True, False):
            R = Filt(bit); J, res = run(P, b, R)
            ctx.funcs |= set(J.funcs)
            oks = []
            for s, v in res:
                v = dv(J, s, v)
                if v.k == "s" and v.a == RES and v.b == 1: continue
                oks.append((s, J.field(s, J.field(s, v, 0), 0) if False else v))
            for s, v in oks:
                pay = dv(J, s, dict(v.f).get(0) or O()) if v.k == "s" and v.f else v
                f = dict(pay.f) if pay.k == "s" and pay.f else {}
                for i, op in ((0, "arg:a"), (1, "arg:b")):
                    got = bases(J, s, f.get(i, O())) & {"arg:a", "arg:b"}
                    want = {op} if bit else set()
                    ctx.obligation(R.asked > 0 and i in f and got == want, f"masked-sum:{b.implselfadt}:{i}:{bit}", f"{b.implselfadt}::filter_reduce_add_twice: with every mask bit {'set' if bit else 'cleared'} sum {i} is computed from {sorted(got) or 'nothing'}, expected {sorted(want) or 'nothing'}")
                    ctx.count("masked_sums")

# ---------------------------------------------------------------- C06: what a query discloses
OPEN = ("open", "open_many", "open_bit", "open_bit_many", "open_mac_key")
COMPUTE = ("mul", "dot", "dot_many", "masked_dot_many", "get_msb", "get_msb_many", "binary_or", "reduce_binary_or", "and", "or", "and_many", "or_many")

def marks(st): return st.ts[EXT][1]
def setm(st, m): st.ts = upd(st.ts, ext=(st.ts[EXT][0], frozenset(m)))

class Query(Match):
    """typestate of a query: verified, opened, failed step, elements drawn but not yet compared, comparisons not yet collected"""
    def __init__(self):
        super().__init__(); self.bad = {}; self.opened = []; self.steps = 0
    def init(self): return mk(ext=(_E, _E))
    def fail(self, st, n):
        s = failed(st, n); setm(s, marks(s) | {"failed:" + n}); return s
    def report(self, key, msg, I): self.bad.setdefault(key, (msg, I.chain()))
    def on_elem(self, I, st, v):
        if any(b.startswith("arg:db") for b, f in I.labs(st, v)):
            if "drawn" in marks(st): self.report("skipped-entry", "a database entry is drawn from the database and the next one is drawn before it has been compared", I)
            setm(st, marks(st) | {"drawn"})
    def on_push(self, I, st, ref, v):
        if "msb(" in "".join(b for b, f in I.labs(st, v)): setm(st, marks(st) - {"answer"})
        return v
    def symbol(self, I, st, f, args):
        n = f.name
        if any("arg:db" in b for a in args[1:] for b, fl in I.labs(st, dv(I, st, a))) and ("MpcTrait" in f.np or n == "filter_reduce_add_twice"):
            setm(st, marks(st) - {"drawn"})
        if "MpcTrait" in f.np:
            self.steps += 1
            m = marks(st)
            fl = sorted(x for x in m if x.startswith("failed:"))
            if n in OPEN:
                if "verified" not in m: self.report(f"unverified:{n}", f"{n} discloses a value although verify() has not succeeded after the last computation", I)
                if fl: self.report(f"open-after-failure:{n}", f"{n} is reached although {fl[0][7:]} failed", I)
                if "opened" in m: self.report(f"twice:{n}", f"{n} discloses a second value", I)
                if n != "open_bit": self.report(f"not-a-bit:{n}", f"the query opens with {n}, not a single bit", I)
                self.opened.append((self.t(I, st, args[1]) if len(args) > 1 else "?", I.chain()))
                setm(st, m | {"opened"})
                return [(st, ok(self.v("opened"))), (self.fail(st, n), err(O()))]
            if n in COMPUTE:
                if fl: self.report(f"continue-after-failure:{fl[0]}", f"the query goes on with {n} although {fl[0][7:]} failed", I)
                setm(st, m - {"verified"})
            if n == "verify":
                b = self.fail(st, n)
                setm(st, m | {"verified"})
                return [(st, ok(STR("()", None, {}))), (b, err(O()))]
            if n == "reduce_binary_or":
                if "answer" in m: self.report("lost-answer", "a comparison's answer is not among the values combined with OR", I)
                if "drawn" in m: self.report("skipped-entry", "a database entry is drawn from the database but not compared before the answers are combined", I)
                return [(st, ok(self.v(node("anyof", self.t(I, st, args[1]))))), (self.fail(st, n), err(O()))]
            if n in ("binary_or", "or"):
                a, b = sorted((self.t(I, st, args[1]), self.t(I, st, args[2])))
                return [(st, ok(self.v(node("anyof", a, b)))), (self.fail(st, n), err(O()))]
            if n in ("get_msb", "get_msb_many"):
                if "answer" in m: self.report("lost-answer", "a comparison's answer is dropped before the next comparison", I)
                r = super().symbol(I, st, f, args)
                setm(r[0][0], (marks(r[0][0]) | {"answer"}) if n == "get_msb_many" else marks(r[0][0]))
                for s, v in r[1:]: setm(s, marks(s) | {"failed:" + n})
                return r
            if n not in MPC and self.fallible(I, f):
                return [(st, ok(O())), (self.fail(st, n), err(O()))]
        r = super().symbol(I, st, f, args)
        if r and len(r) == 2 and n in ("masked_dot_many", "dot_many", "filter_reduce_add_twice"):
            setm(r[1][0], marks(r[1][0]) | {"failed:" + n})
        return r
    def on_slice(self, I, st, v, rng):
        """windows that move over the database; a window at a constant offset leaves entries out"""
        f = dict(rng.f)
        if 0 not in f or not str(rng.a).endswith("::Range"): return None
        s0 = self.t(I, st, f[0])
        if s0 == "#0" or (num(s0) is None and not lin(s0).get("1")): return "whole"
        return None
    def fallible(self, I, f): return f.name in ("preprocess", "precompute_and_triples", "finish", "input", "share", "mul", "dot")
    def done(self, I, outs):
        for s, v in outs:
            v = dv(I, s, v)
            fl = sorted(x for x in marks(s) if x.startswith("failed:"))
            if v.k == "s" and v.a == RES and v.b == 1: continue
            if fl: self.report(f"success-after-failure:{fl[0][7:]}", f"the query can report success although {fl[0][7:]} failed", I)
            pay = dict(v.f).get(0) if v.k == "s" and v.f else v
            t = self.t(I, s, pay) if pay is not None else "?"
            if t != "opened": self.report(f"answer:{t[:120]}", f"the query's answer is {t[:200]}, not the opened bit", I)

class Tree(Cover):
    """combining many bits with OR: every part a list or word is split into, and every intermediate answer, is used"""
    ORS = ("or", "or_many", "and", "and_many", "binary_or", "and3_many")
    def __init__(self): super().__init__(); self.bad = {}; self.ors = 0; self.splits = 0
    def init(self): return mk(ext=_E)
    def pend(self, st, add=(), drop=()):
        st.ts = upd(st.ts, ext=(st.ts[EXT] - frozenset(drop)) | frozenset(add))
    def on_slice(self, I, st, v, rng): return "whole"      # halves of a short list of bits
    def seen(self, I, st, v):
        self.pend(st, drop={b for b, f in I.labs(st, v) if "l" not in f and not f & PARTIAL})
    def on_push(self, I, st, ref, v): self.seen(I, st, v); return v
    def part(self, I, st, n, args, k):
        L = I.labs(st, dv(I, st, args[0]))
        site = I.site(n)
        labs = [(f"part:{site}:{i}", _E) for i in range(k)]
        old = {b for b, _ in labs} & st.ts[EXT]
        if old: self.bad.setdefault(f"part-unused:{n}", (f"a part made by {n} is never combined into the result", I.chain()))
        self.splits += 1
        self.pend(st, add={b for b, _ in labs}, drop={b for b, f in L if b.startswith(("part:", "ored:"))})
        base = frozenset((b, f) for b, f in L if not b.startswith(("part:", "ored:")))
        return [base | {l} for l in labs]
    def on_call(self, I, st, f, args):
        n = f.name
        if n == "split_at" and len(args) == 2:
            p = self.part(I, st, n, args, 2)
            return [(st, STR("()", None, {i: COLL(O(l)) for i, l in enumerate(p)}))]
        if n == "split" and len(args) == 1 and "BytesMut" not in f.np and "str" not in f.np:
            p = self.part(I, st, n, args, 2)
            return [(st, STR("()", None, {i: O(l) for i, l in enumerate(p)}))]
        if "BinaryMpcTrait" in f.np and n in self.ORS:
            self.ors += 1
            for a in args[1:]: self.seen(I, st, dv(I, st, a))
            site = "ored:" + I.site(n)
            if site in st.ts[EXT] and n.endswith("many"): self.bad.setdefault("answer-unused", (f"the outcome of {n} is dropped before the next one", I.chain()))
            self.pend(st, add={site})
            L = frozenset((b, fl) for a in args[1:] for b, fl in I.labs(st, dv(I, st, a)) if not b.startswith(("part:", "ored:")) and "l" not in fl)
            r = O(L | {(site, _E)})
            return [(st, ok(COLL(r) if n.endswith("many") else r)), (st.fork(), err(O()))]
        return vecshare(I, st, f, args)

def or_trees(ctx, P):
    n = 0
    for e in sorted(engines(P)):
        if "plain" in e.lower(): continue
        for en in entries(P, e):
            if en.name != "reduce_binary_or": continue
            R = Tree(); I, outs = run_entry(P, R, en, None)
            ctx.funcs |= set(I.funcs); n += 1
            for s, v in outs:
                v = dv(I, s, v)
                if not is_ok(v): continue
                pay = dict(v.f).get(0) if v.k == "s" and v.f else v
                L = I.labs(s, pay) if pay is not None else _E
                left = {b for b in s.ts[EXT]} - {b for b, f in L if not f & PARTIAL or b.startswith("ored:")}
                ctx.obligation(not left, f"part-unused:{sh(e)}:{sorted(x.split(':')[0] for x in left)}", f"{sh(e)}::reduce_binary_or: {len(left)} of the parts the inputs were split into never reach the result: {sorted(left)[:3]}")
                ctx.obligation(any(b == "arg:a" for b, f in L), f"input-unused:{sh(e)}", f"{sh(e)}::reduce_binary_or: the result does not depend on the input")
            ctx.obligation(R.ors > 0 and R.splits > 0, f"vacuous-tree:{sh(e)}", f"{sh(e)}::reduce_binary_or combines nothing")
            ctx.count("or_calls", R.ors); ctx.count("splits", R.splits)
            for k, (m, ch) in R.bad.items(): ctx.obligation(False, f"{k}:{sh(e)}", f"{sh(e)}::reduce_binary_or: {m}", ch)
    ctx.obligation(n >= 3, "anchor:reduce_binary_or", "fewer than three engines implement reduce_binary_or")

def c06(ctx):
    rules_cover._P = P = ctx.prog()
    pub = [b for b in P.bodies.values() if (b.implselfadt or "").endswith("IrisProtocol") and "{closure" not in b.id]
    q = [b for b in pub if b.id.endswith("::iris_in_db")]
    ctx.obligation(len(q) == 1, "anchor:iris_in_db", "IrisProtocol::iris_in_db was not found")
    M = node("and", "arg:mask_db", "arg:mask_iris")
    reached = set()
    for b in sorted(pub, key=lambda b: b not in q):
        if not any(len(v[1]) == 1 and v[1][0] == 1 and v[0] == "self" for v in b.raw["vars"]): continue      # constructors run no protocol
        R = Query()
        I, outs = run(P, b, R)
        ctx.funcs |= set(I.funcs); ctx.count("entry_points"); ctx.count("mpc_steps", R.steps); ctx.count("exits", len(outs))
        nm = b.id.split("::")[-1]
        if b in q: reached |= set(I.funcs)
        if b not in q:
            if nm in ("verify", "open_mac_key"): continue
            if b.raw.get("vis") != "Public" and b.id in reached: continue      # a helper of the query, judged with it
            ctx.obligation(not R.opened, f"opens:{nm}", f"IrisProtocol::{nm} opens a value", R.opened[0][1] if R.opened else [])
            continue
        R.done(I, outs)
        ctx.obligation(R.steps >= 6 and bool(R.opened), "vacuous", "the query performs no MPC steps or opens nothing")
        for k, (m, ch) in R.bad.items(): ctx.obligation(False, k, f"iris_in_db: {m}", ch)
        ctx.obl += R.steps; ctx.dis += R.steps - len(R.bad) if not R.bad else 0
        for t, ch in R.opened:
            x = _T.get(t)
            inner = x[1] if x and x[0] == "anyof" else ()
            good = len(inner) == 1 and _T.get(inner[0], ("",))[0] == "msb"
            if good:
                leaves = set(re.findall(r"(?:arg:|self\.?)[\w!.]*", inner[0]))
                good = leaves == {"arg:iris", "arg:db", "arg:mask_iris", "arg:mask_db"}
                d = lin(_T[inner[0]][1][0])
                good = good and all(k in d for k in (node("fsum", "arg:iris", M), node("fsum", "arg:db", M), node("mdot", "arg:db", "arg:iris", M)))
            ctx.obligation(good, f"opened-value:{t[:140]}", f"iris_in_db opens {t[:300]}; expected the OR over the comparisons of the query with every database entry under both masks", ch)
            ctx.sample("opened: " + t[:300])
    or_trees(ctx, P)
    ctx.assume.append("chunks() partitions a list and zip pairs equal positions; equal chunk sizes for codes and masks are enforced by the length checks (C14)")
