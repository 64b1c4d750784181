"""C16: value and tag of an authenticated share are transformed together."""
import re
import lint, models, terms, rules_cover
from rules_cover import sh
from terms import *
from terms import _T, _E, O, V, C, STR, COLL, RES, OPT, dv, ok, err, mk, upd, EXT
from engine import *
from cover import is_ok

PRIM = {"add": lambda a, b: add(a, b), "sub": lambda a, b: add(a, b, -1), "add_const": lambda a, b: add(a, b), "sub_const": lambda a, b: add(a, b, -1),
        "mul_const": lambda a, b: mul(a, b)}
PROD = ("mul", "dot")
PAIRS = {"value": "mac", "values": "macs"}

class Lock(Terms):
    def __init__(self, P, auth, engine):
        super().__init__(); self.P = P; self.auth = auth; self.inline = tuple(auth); self.engine = engine; self.pairs = {}; self.prims = 0
    def peer(self, t): return node("peer", t)
    def symbol(self, I, st, f, args):
        n = f.name
        T = lambda i: self.t(I, st, args[i])
        sa = str(f.raw.get("selfadt") or "")
        if n == "split_at" and len(args) == 2 and dv(I, st, args[0]).k in ("l", "o"):
            x = dv(I, st, args[0])
            return [(st, STR("()", None, {0: I.mapl(st, x, lambda L: flag(L, "take")), 1: I.mapl(st, x, lambda L: flag(L, "skip"))}))]
        if n == "rev" and "Iterator" in f.np:
            it = models.to_it(I, st, args[0])
            if it.k == "it" and it.a[0] == "v" and it.a[1] is not None:
                return [(st, V("it", it.lab, ("v", I.mapl(st, it.a[1], lambda L: flag(L, "rev")), None), it.b))]
        if n in ("gen_zero_share", "gen_binary_zero_share"): return [(st, C(0))]
        if "MpcTrait" in f.np and self.engine not in (sa, str(f.raw.get("rself") or "")) and sa != self.engine:
            self.prims += 1
            E = lambda: err(O(frozenset([("mpc", _E)])))
            if n in PRIM: return [(st, self.v(PRIM[n](T(1), T(2))))]
            if n in PROD: return [(st, ok(self.v(node("mul", T(1), T(2))))), (st.fork(), E())]
            if n == "input": return [(st, ok(self.v(node("in", "arg:input")))), (st.fork(), E())]
            if n == "share": return [(st, COLL(self.v(node("shr", T(0)))))]
            if n in ("mul_many", "dot_many"):
                return self.pairwise(I, st, dv(I, st, args[1]), dv(I, st, args[2]))
        if n in ("mul_many", "dot_many") and len(args) == 3 and sa not in self.auth and "spdzwise" not in f.np:
            return self.pairwise(I, st, dv(I, st, args[1]), dv(I, st, args[2]))
        if n in ("send_slices_and_receive_iters", "send_slices_and_receive_iter", "send_slice_and_receive_iter", "send_iter_and_receive_iter", "send_and_receive_value"):
            ts = [self.t(I, st, a) for a in args[1:]]
            vs = [COLL(self.v(self.peer(t))) for t in ts]
            if n == "send_and_receive_value": r = self.v(self.peer(ts[0]))
            else: r = vs[0] if len(vs) == 1 else STR("()", None, {i: v for i, v in enumerate(vs)})
            return [(st, ok(r)), (st.fork(), err(O(frozenset([("io", _E)]))))]
        if n == "new" and sa.endswith("aby3::share::Share") and len(args) == 2:
            return [(st, self.v(node("pair", T(0), T(1))))]
        return None
    def pairwise(self, I, st, x, y):
        """products of the elements at equal positions"""
        def peel(v):        # vec![..] literals
            while v.k == "s" and v.b != "clo" and v.f and len(v.f) == 1: v = v.f[0][1]
            return v
        x, y = peel(x), peel(y)
        if x.k == "l" and y.k == "l" and x.f and set(dict(x.f)) == set(dict(y.f)) and x.a is None:
            fx, fy = dict(x.f), dict(y.f)
            r = COLL(None, _E, {k: self.v(node("mul", self.t(I, st, fx[k]), self.t(I, st, fy[k]))) for k in fx})
        else:
            r = COLL(self.v(node("mul", self.t(I, st, x), self.t(I, st, y))))
        return [(st, ok(r)), (st.fork(), err(O(frozenset([("mpc", _E)]))))]

KEYS = ("self.mac_key", "arg:mac_key", "arg:key")

_M = {}
def matches(v, m):
    """is m an acceptable term for the tag of a value with term v?"""
    k = (v, m)
    if k not in _M:
        _M[k] = False; _M[k] = matches_(v, m)
    return _M[k]

def tag_leaf(v):
    m = re.sub(r"\.value(s?)(?=$|[.!])", lambda q: ".mac" + q.group(1), v)
    return m if m != v else re.sub(r"^arg:value(s?)(?=$|[.!])", lambda q: "arg:mac" + q.group(1), v)

def assign(vs, ms, test):
    """a one-to-one assignment of the terms vs to the terms ms"""
    if not vs: return not ms
    for i, m in enumerate(ms):
        if test(vs[0], m) and assign(vs[1:], ms[:i] + ms[i + 1:], test): return True
    return False

def matches_(v, m):
    x, y = _T.get(v), _T.get(m)
    if num(v) == 0: return num(m) == 0
    if any(m == mul(k, v) for k in KEYS): return True
    if v.startswith("wide{") or m.startswith("wide{"): return set(leaves(v)) == {z for z in leaves(m) if z not in KEYS}
    if x is None: return m != v and m == tag_leaf(v)
    op, a = x
    if op == "lin":
        d, e = lin(v), lin(m)
        def test(p, q):
            if p[1] != q[1]: return False
            return q[0] in KEYS if p[0] == "1" else matches(p[0], q[0])
        return assign(list(d.items()), list(e.items()), test)
    if y is None or y[0] != op: return False
    b = y[1]
    if op == "phi": return all(any(matches(p, q) for q in b) for p in a) and all(any(matches(p, q) for p in a) for q in b)
    if op == "mul":
        return len(a) == len(b) == 2 and any(a[i] == b[j] and matches(a[1 - i], b[1 - j]) for i in (0, 1) for j in (0, 1))
    if op in ("pair", "peer", "shr", "in"): return len(a) == len(b) and all(matches(p, q) for p, q in zip(a, b))
    return False

def expected(t):
    return re.sub(r"\.value(s?)", lambda q: ".mac" + q.group(1), t, count=1) if ".value" in t else f"mul({KEYS[0]}, {t})"

def leaves(t): return sorted(re.sub(r"\.(value|mac)(s?)", r".#\2", x) for x in re.findall(r"(?:arg:|self\.)[\w.!]+", t))

def alternatives(t):
    x = _T.get(t)
    return {z for z in (x[1] if x and x[0] == "phi" else (t,)) if not z.startswith("self.")}

def both(t):
    """operands of which value and tag both occur in a term"""
    o = [set(re.findall(r"((?:arg:|self)[\w.]*)\." + k + r"s?\b", t)) for k in ("value", "mac")]
    return o[0] & o[1]

def authvals(I, s, v, auth, path="", d=0):
    """authenticated shares inside a value: (path, V)"""
    v = dv(I, s, v)
    if d > 6: return
    if v.k == "s" and v.a in auth:
        yield path, v; return
    if v.k == "s" and v.f and v.b != "clo":
        for k, x in v.f: yield from authvals(I, s, x, auth, f"{path}.{k}", d + 1)
    if v.k == "l":
        if v.a is not None: yield from authvals(I, s, v.a, auth, path + "[]", d + 1)
        for k, x in v.f: yield from authvals(I, s, x, auth, f"{path}[{k}]", d + 1)

def pairs_of(P, adt):
    """[(i, j)] field indices of value and tag of an authenticated type"""
    fs = P.adts[adt]["variants"][0]["f"]
    names = [f[0] for f in fs]
    return [(names.index(a), names.index(b)) for a, b in PAIRS.items() if a in names and b in names]

def argval(nm, ty, auth):
    lab = frozenset([(f"arg:{nm}", _E)])
    base = None
    for a in auth:
        short = a.split("::", 1)[1]
        if re.search(r"(^|[&<\[ (])" + re.escape(short) + r"<", ty) or ty.lstrip("&").startswith(short): base = V("s", lab, a)
    if base is None: return None
    t = ty.lstrip("&").replace("mut ", "")
    if t.startswith(("[", "std::vec::Vec<", "alloc::vec::Vec<", "Vec<")): return COLL(base)
    return base

def c16(ctx):
    terms.SAT = 3
    rules_cover._P = P = ctx.prog()
    auth = [a for a, d in P.adts.items() if len(d["variants"]) == 1 and pairs_of(P, a)]
    ctx.obligation(len(auth) >= 2, "anchor:types", "the authenticated share types (value and mac fields) were not found")
    eng = [e for e in engines(P) if any(f[0] == "mac_key" for f in P.adts[e]["variants"][0]["f"])]
    ctx.obligation(len(eng) == 1, "anchor:engine", "the engine holding a MAC key was not found")
    if not auth or not eng: return
    todo = [(b, b.implselfadt) for b in P.bodies.values() if b.implselfadt in auth and "{closure" not in b.id]
    for en in entries(P, eng[0], ("MpcTrait",)):
        if en.name in ("add", "sub", "add_const", "sub_const", "mul_const", "mul", "dot", "dot_many", "masked_dot_many", "input", "share"): todo.append((P.bodies[en.fid], eng[0]))
    seen = 0
    for b, owner in todo:
        nm = b.id.split("::")[-1]
        if nm in ("deserialize", "serialize", "fmt", "is_zero", "is_empty", "len", "eq", "visit_seq", "visit_map"): continue
        argv = {}
        for v in b.raw["vars"]:
            if len(v[1]) == 1 and 1 <= v[1][0] <= b.argc:
                a = argval(v[0], b.locals[v[1][0]][0], auth)
                if a is not None: argv[v[0]] = a
        import os
        if os.environ.get("DBG"): print("..", owner, nm, list(argv), flush=True)
        R = Lock(P, auth, eng[0])
        E = Entry(b.id, nm, owner, None)
        try: I, outs = run_entry(P, R, E, None, expand_more=set(auth), argv=argv)
        except Budget as e:
            ctx.obligation(False, f"budget:{sh(owner)}:{nm}", f"{sh(owner)}::{nm}: {e}"); continue
        ctx.funcs |= set(I.funcs); ctx.count("functions")
        for s, v in outs:
            if not is_ok(dv(I, s, v)): continue
            cand = [("result" + p, x) for p, x in authvals(I, s, v, auth)]
            sv = s.get(0, "self")
            if sv is not None: cand += [("self" + p, x) for p, x in authvals(I, s, sv, auth)]
            for an in argv:
                x = s.get(0, ("arg", an))
                if x is not None: cand += [(f"{an}{p}", y) for p, y in authvals(I, s, x, auth)]
            for p, x in cand:
                f = dict(x.f)
                for i, j in pairs_of(P, x.a):
                    tv = R.t(I, s, f[i] if i in f else I.missing(x, i)); tm = R.t(I, s, f[j] if j in f else I.missing(x, j))
                    seen += 1
                    empty = lambda k: k in f and f[k].k == "l" and f[k].a is None and not f[k].f
                    if empty(i) and empty(j): continue
                    if i not in f and j not in f or tv == tm and "?" in tv and not leaves(tv): continue
                    if both(tv) and alternatives(tv) == alternatives(tm): ctx.count("undecided"); continue    # list positions were merged
                    good = matches(tv, tm) and not (empty(i) or empty(j))
                    ctx.obligation(good, f"{sh(owner)}::{nm}:{re.sub(r'[0-9]+', '', p)}", f"{sh(owner)}::{nm}: {p} has value {tv[:200]} and tag {tm[:200]}; expected the tag to be {expected(tv)[:200]} or equivalent")
                    ctx.count("pairs"); ctx.sample(f"{sh(owner)}::{nm} {p}: {tv[:70]} | {tm[:70]}")
        # accessors hand out the component they name
        if owner in auth and nm in ("get_value", "get_values", "get_mac", "get_macs"):
            for s, v in outs:
                t = R.t(I, s, v)
                ctx.obligation(t == "self." + nm[4:], f"{sh(owner)}::{nm}", f"{sh(owner)}::{nm} returns {t}")
        if owner in auth and nm == "get":
            for s, v in outs:
                v = dv(I, s, v); f = dict(v.f) if v.f else {}
                i, j = pairs_of(P, owner)[0]
                names = [z[0] for z in P.adts[owner]["variants"][0]["f"]]
                got = [R.t(I, s, f[k]) if k in f else "?" for k in (0, 1)]
                ctx.obligation(got == ["self." + names[i], "self." + names[j]], f"{sh(owner)}::get", f"{sh(owner)}::get returns {got}")
    ctx.obligation(seen >= 25, "vacuous", f"only {seen} value/tag pairs were seen")
