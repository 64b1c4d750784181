"""A term domain on top of the interpreter: every value is represented by the expression that computes it.

A term is a canonical string; sums are kept as linear combinations and commutative operators are sorted, so that
reordered or split computations have the same term.  Terms are carried as provenance labels."""
from absint import *
from absint import _E, V, O, C, PRED, STR, COLL
from models import RES, OPT, dv, ok, err, some, NONE
from cover import Cover, mk, upd, EXT, is_ok, self_fields
import itertools, re

_OPS = {"wide"}
_T = {}                      # term -> (op, args)
COMM = {"and", "xor", "or", "mul", "lin"}

def anf(t):
    """bitwise term as a sum (xor) of products (and) over its leaves: {product as a set of leaves}; the empty product is all ones"""
    x = _T.get(t)
    if x and x[0] in ("and", "xor"):
        parts = [anf(a) for a in x[1]]
        if x[0] == "xor":
            r = frozenset()
            for q in parts: r = r ^ q
            return r
        r = parts[0]
        for q in parts[1:]:
            acc = set()
            for a in r:
                for b in q: acc ^= {a | b}
            r = frozenset(acc)
        return r
    if t == "ONES": return frozenset([frozenset()])
    return frozenset([frozenset([t])])

def unanf(r):
    ms = []
    for m in r:
        l = sorted(m)
        ms.append("ONES" if not l else l[0] if len(l) == 1 else raw("and", *l))
    ms.sort()
    return "#0" if not ms else ms[0] if len(ms) == 1 else raw("xor", *ms)

def node(op, *args):
    if op in ("and", "xor", "or", "not"):
        q = [anf(a) for a in args]
        if max(map(len, q)) <= 8:
            def prod(a, b):
                acc = set()
                for x in a:
                    for y in b: acc ^= {x | y}
                return frozenset(acc)
            if op == "not": return unanf(q[0] ^ {frozenset()})
            r = q[0]
            for y in q[1:]: r = prod(r, y) if op == "and" else r ^ y if op == "xor" else r ^ y ^ prod(r, y)
            if len(r) <= 8: return unanf(r)
    return raw(op, *args)

def raw(op, *args):
    if op in COMM: args = tuple(sorted(args))
    s = f"{op}({', '.join(args)})"
    _T[s] = (op, args); _OPS.add(op)
    return s

def num(t): return int(t[1:]) if re.fullmatch(r"#-?\d+", t) else None

def lin(t):
    """{term: coefficient}"""
    n = num(t)
    if n is not None: return {"1": n} if n else {}
    x = _T.get(t)
    if x and x[0] == "lin":
        out = {}
        for a in x[1]:
            c, b = a.split("*", 1); out[b] = out.get(b, 0) + int(c)
        return out
    return {t: 1}

SAT = None                   # coefficients beyond this are "many" (loops that accumulate)

def unlin(d):
    if SAT: d = {k: max(-SAT, min(SAT, c)) for k, c in d.items()}
    d = {k: c for k, c in d.items() if c}
    if not d: return "#0"
    if set(d) == {"1"}: return f"#{d['1']}"
    if len(d) == 1 and list(d.values()) == [1]: return next(iter(d))
    return node("lin", *[f"{c}*{k}" for k, c in d.items()])

def add(a, b, k=1):
    if "?" in (a, b): return "?"
    d = dict(lin(a))
    for x, c in lin(b).items(): d[x] = d.get(x, 0) + k * c
    return unlin(d)

def mul(a, b):
    if "?" in (a, b): return "?"
    for x, y in ((a, b), (b, a)):
        n = num(x)
        if n is not None: return unlin({k: c * n for k, c in lin(y).items()})
    return node("mul", a, b)

BIN = {"add": add, "sub": lambda a, b: add(a, b, -1), "mul": mul, "bitand": lambda a, b: node("and", a, b), "bitxor": lambda a, b: node("xor", a, b),
       "bitor": lambda a, b: node("or", a, b), "shl": lambda a, b: node("shl", a, b), "shr": lambda a, b: node("shr", a, b), "div": lambda a, b: node("div", a, b), "rem": lambda a, b: node("rem", a, b)}
UN = {"neg": lambda a: mul("#-1", a), "not": lambda a: node("not", a)}
MIRBIN = {"Add": "add", "Sub": "sub", "Mul": "mul", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}
NUMERIC = ("std::f64::", "std::f32::", "core::f64::", "core::f32::", "core::num::", "std::num::")
OPTRAITS = ("std::ops::", "core::ops::", "num_traits::")

class Terms(Cover):
    widening = True
    def widen(self, L):
        """a value with many different terms keeps only what it was computed from"""
        if len(L) <= 6: return L
        leaves = set()
        for b, f in L:
            for x in re.split(r"[(),:{} ]+", b):
                x = x.split("*")[-1]
                if x and x not in _OPS and not x.startswith("#"): leaves.add(x)
        return frozenset([("wide{" + " ".join(sorted(leaves)) + "}", _E)])
    inline = ()              # ADTs whose operators are followed into instead of being symbols
    def t(self, I, st, v):
        """the term of a value"""
        v = dv(I, st, v)
        if v.k == "c": return f"#{int(v.a)}" if isinstance(v.a, (int, bool)) else f"#{v.a}"
        if v.k == "p": return "pred:" + str(v.a)
        if v.k == "s" and v.b != "clo" and v.f:
            return node("S", *[f"{k}:{self.t(I, st, x)}" for k, x in v.f]) if isinstance(v.f, tuple) else "?"
        L = I.labs(st, v)
        ts = sorted({b if not f else f"{b}!{''.join(sorted(f))}" for b, f in L})
        if not ts: return "?"
        return ts[0] if len(ts) == 1 else node("phi", *ts)
    def v(self, t):
        n = num(t)
        return C(n) if n is not None else O(frozenset([(t, _E)]))
    def ts(self, I, st, v):
        """the possible terms of a value"""
        v = dv(I, st, v)
        if v.k == "o":
            L = I.labs(st, v)
            r = {b if not f else f"{b}!{''.join(sorted(f))}" for b, f in L}
            if r: return r
        return {self.t(I, st, v)}
    def lift(self, fn, I, st, *vals):
        """apply a term constructor to every combination of possible terms"""
        sets = [self.ts(I, st, v) for v in vals]
        n = 1
        for x in sets: n *= len(x)
        if n > 16: return self.v(fn(*[self.t(I, st, v) for v in vals]))
        out = {fn(*c) for c in itertools.product(*sets)}
        if len(out) == 1: return self.v(next(iter(out)))
        return O(self.widen(frozenset((t, _E) for t in out)))
    def init(self): return mk(ext=(_E,))
    def on_const(self, I, fv): return O(frozenset([(f"f{fv}", _E)]))
    def on_cast(self, I, st, kind, v, ty):
        if kind == "IntToFloat": return self.v(node("float", self.t(I, st, v)))
        if kind == "FloatToInt": return self.v(node("trunc", self.t(I, st, v)))
        return None
    def on_binop(self, I, st, op, a, b):
        if a.k == "c" and b.k == "c" and type(a.a) is int and type(b.a) is int:
            o = op[:-12] if op.endswith("WithOverflow") else op
            o = o[:-9] if o.endswith("Unchecked") else o
            x, y = a.a, b.a; z = None
            if o == "Shl" and 0 <= y < 128: z = x << y
            elif o == "Shr" and 0 <= y < 128: z = x >> y
            elif o == "Add": z = x + y
            elif o == "Sub": z = x - y
            elif o == "Mul": z = x * y
            if z is not None and abs(z) < 1 << 62: return STR("()", None, {0: C(z), 1: C(False)}) if op.endswith("WithOverflow") else C(z)
        if a.k == "c" and b.k == "c" or a.k == "p" or b.k == "p": return None
        ov = op.endswith("WithOverflow"); o = op[:-12] if ov else op
        o = o[:-9] if o.endswith("Unchecked") else o
        if o in MIRBIN:
            r = self.lift(BIN[MIRBIN[o]], I, st, a, b)
            return STR("()", None, {0: r, 1: C(False)}) if ov else r
        return self.compare(I, st, o, a, b)
    def on_unop(self, I, st, op, a):
        if a.k in ("c", "p") or op not in ("Not", "Neg"): return None
        return self.v(UN["not" if op == "Not" else "neg"](self.t(I, st, a)))
    def compare(self, I, st, o, a, b):
        x, y = self.t(I, st, a), self.t(I, st, b)
        if "?" in (x, y): return None
        if o in ("Lt", "Le", "Gt", "Ge"):
            if o == "Lt": p = ("lt", x, y)
            elif o == "Gt": p = ("lt", y, x)
            elif o == "Ge": p = ("not", ("lt", x, y))
            else: p = ("not", ("lt", y, x))
            return PRED(p, I.labs(st, a) | I.labs(st, b))
        if o in ("Eq", "Ne"):
            p = ("teq",) + tuple(sorted((x, y)))
            return PRED(p if o == "Eq" else ("not", p), I.labs(st, a) | I.labs(st, b))
        return None
    def on_branch(self, I, st, p, truth):
        if p[0] in ("lt", "teq"): return self.atom(I, st, p, truth)
        return None
    def atom(self, I, st, p, truth):
        """remember the truth value of a comparison along this path; contradictory paths vanish"""
        conds = st.ts[EXT][0]
        if (p, not truth) in conds: return []
        # a length that is not zero is at least one
        if p[0] == "lt" and p[1] == "#0" and not truth and (("teq", "#0", p[2]), False) in conds: return []
        if len(conds) > 24: return None
        # counters of while loops: one lower bound of a term by a constant is enough
        if p[0] == "lt" and num(p[1]) is not None and any(q[0] == "lt" and q[2] == p[2] and num(q[1]) is not None and tr == truth for q, tr in conds): return None
        return [upd(st.ts, ext=(conds | {(p, truth)},) + st.ts[EXT][1:])]
    def symbol(self, I, st, f, args): return None
    def follow(self, f):
        sa = str(f.raw.get("selfadt") or "")
        return sa in self.inline
    def on_call(self, I, st, f, args):
        r = self.symbol(I, st, f, args)
        if r is not None: return r
        n = f.name
        std = f.np.startswith(OPTRAITS)
        if std and len(args) == 2 and not self.follow(f):
            if n in BIN: return [(st, self.lift(BIN[n], I, st, args[0], args[1]))]
            if n.endswith("_assign") and n[:-7] in BIN and args[0].k == "r":
                r = self.lift(BIN[n[:-7]], I, st, args[0], args[1])
                for loc in args[0].a: I.store(st, loc, r, weak=len(args[0].a) > 1)
                return [(st, STR("()", None, {}))]
        if std and len(args) == 1 and n in UN and not self.follow(f): return [(st, self.v(UN[n](self.t(I, st, args[0]))))]
        if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_neg") and not self.follow(f):
            ts = [self.t(I, st, a) for a in args]
            return [(st, self.v((BIN.get(n[9:]) or UN.get(n[9:]))(*ts)))]
        if n in ("min", "max") and len(args) == 2 and f.np.startswith(("std::cmp::", "core::cmp::")):
            return [(st, self.v(node(n, *sorted(self.t(I, st, a) for a in args))))]
        if f.np.startswith(NUMERIC) and args and not any(a.k in ("l", "it") for a in args):
            return [(st, self.v(node(n, *[self.t(I, st, a) for a in args])))]
        if n in ("zero", "one") and not args and not self.follow(f): return [(st, self.v("#0" if n == "zero" else "#1"))]
        if n in ("lt", "le", "gt", "ge") and "PartialOrd" in f.np and "racing" not in str(f.raw.get("rid", "")):
            r = self.compare(I, st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[n], args[0], args[1])
            if r is not None: return [(st, r)]
        if n in ("try_into", "try_from") and len(args) == 1:
            return [(st, ok(self.v(self.t(I, st, args[0])))), (st.fork(), err(O(frozenset([("convert", _E)]))))]
        return None
