"""Path-sensitive abstract interpreter over the dumped MIR.

Values carry *provenance labels*; nothing is executed: integers other than small
constants, lengths, ring elements and bytes are all abstracted to label sets.
States are partitioned by (block, rule typestate, variants/booleans of live locals)
and joined otherwise (ESP-style property simulation).  Internal calls are analysed
by inlining (call-string context), external ones through the models in models.py.
"""
import sys
from facts import norm_path
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ labels
# a label is (base, flags) ; flags is a frozenset of strings:
#   "h" hashed, "l" only a length, "take"/"skip"/"k0".. partial views
_E = frozenset()
PARTIAL = {"take", "skip", "mid", "step", "filter", "exact", "slice"}

def lab(base):
    return (base, _E)

_wrapc = {}
def flag(labels, fl):
    """add flag fl to each label"""
    k = (labels, fl)
    r = _wrapc.get(k)
    if r is None:
        r = frozenset((b, f if (fl in f) else f | {fl}) for (b, f) in labels)
        _wrapc[k] = r
    return r

def is_partial(f):
    return any(x in PARTIAL or x[0] == "k" for x in f)

def data_only(labels):
    return frozenset(l for l in labels if "l" not in l[1])

def complete(labels, base):
    """is the datum with this base label covered in full by the label set?"""
    fs = set()
    for b, f in labels:
        if b == base and "l" not in f:
            p = frozenset(x for x in f if x in PARTIAL or x[0] == "k")
            if not p:
                return True
            fs.add(p)
    # two different partial views (take+skip, [..n]+[n..], element 0 + element 1) make up the whole,
    # unless they are views of the same part
    return len(fs) >= 2 and not frozenset.intersection(*fs)

def bases(labels, with_len=False):
    return frozenset(b for b, f in labels if with_len or "l" not in f)

# ------------------------------------------------------------------ values
class V:
    __slots__ = ("k", "lab", "a", "b", "f", "_h", "_d")
    def __init__(self, k, lab=_E, a=None, b=None, f=()):
        self.k = k; self.lab = lab; self.a = a; self.b = b; self.f = f
        self._h = None; self._d = None
    def key(self):
        return (self.k, self.lab, self.a, self.b, self.f)
    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.lab, self.a, self.b, self.f))
        return self._h
    def __eq__(self, o):
        if self is o: return True
        if not isinstance(o, V): return False
        if hash(self) != hash(o): return False
        return self.key() == o.key()
    def __repr__(self):
        l = ",".join(sorted(b + ("!" + "".join(sorted(f)) if f else "") for b, f in self.lab))
        s = self.k
        if self.a is not None: s += f":{self.a}" if not isinstance(self.a, tuple) else ":" + repr(self.a)[:120]
        if self.b is not None: s += f"/{self.b}"
        if l: s += "{" + l + "}"
        if self.f: s += "(" + ", ".join(f"{k}={v!r}" for k, v in self.f) + ")"
        return s

def sk(x):
    return (0, x[0], '') if isinstance(x[0], int) else (1, 0, str(x[0]))

def O(labels=_E, ty=None): return V("o", labels, ty)
def C(v): return V("c", _E, v)
def STR(adt, variant, fields, labels=_E): return V("s", labels, adt, variant, tuple(sorted(fields.items(), key=sk)))
def REF(*targets): return V("r", _E, frozenset(targets))
def COLL(elem=None, labels=_E, fixed=None): return V("l", labels, elem, None, tuple(sorted((fixed or {}).items())))
def IT(elem, started=False, kind="v", extra=None, labels=_E): return V("it", labels, (kind, elem, extra), started)
def PRED(p, labels=_E): return V("p", labels, p)
UNIT = STR("()", None, {})
TRUE, FALSE = C(True), C(False)
BOT = V("u")

def fget(v, i):
    for k, x in v.f:
        if k == i: return x
    return None

def fset(v, i, x):
    d = dict(v.f); d[i] = x
    return V(v.k, v.lab, v.a, v.b, tuple(sorted(d.items(), key=sk)))

OPT, RES, CF, POLL = "Option", "Result", "ControlFlow", "Poll"
def some(v): return STR(OPT, 1, {0: v})
NONE = STR(OPT, 0, {})
def ok(v): return STR(RES, 0, {0: v})
def err(v): return STR(RES, 1, {0: v})

MAXDEPTH = 7

class Interp:
    def __init__(self, prog, rule, models, expand=(), budget=400000):
        self.P = prog
        self.rule = rule
        self.widening = getattr(rule, "widening", False)
        self.models = models
        self.expand = set(expand)     # ADTs whose unknown fields get access-path labels
        self.stack = []               # [(body id, bb)]
        self.steps = 0
        self.budget = budget
        self.funcs = {}               # visited functions -> visits
        self.sites = set()
        self.siteids = {}
        self.over = False
        self._live = {}; self._held = {}
        self.vis_calls = 0
        self.unmodelled = {}
        self.party = None             # specialisation of the party id
        self.zero_iter = False        # also consider loops that run zero times

    def rule_cleared(self, st, ref, old):
        self.rule.on_clear(self, st, ref, old)

    # -------------------------------------------------------------- site naming
    def site(self, tag=""):
        """context-sensitive site id: readable, independent of line numbers"""
        key = (tuple(self.stack), tag)
        s = self.siteids.get(key)
        if s is None:
            fn, bb = self.stack[-1]
            names = []
            for f, _ in self.stack:
                n = shortfn(f)
                if not names or names[-1] != n:
                    names.append(n)
            s = f"{'>'.join(names[-3:])}#{len(self.siteids)}"
            self.siteids[key] = s
        return s

    def where(self):
        fn, bb = self.stack[-1]
        return shortfn(fn)

    def chain(self):
        out = []
        for f, bb in self.stack:
            b = self.P.bodies.get(f)
            ln = ""
            if b is not None:
                t = b.blocks[bb]["t"]
                if t[0] == "call": ln = str(t[5])
                else: ln = str(b.span)
            out.append(f"{shortfn(f)} ({ln})")
        return out

    # -------------------------------------------------------------- labels of values
    def labs(self, st, v, depth=0, seen=None):
        if v is None: return _E
        if v.k in ("c", "u", "fn"): return v.lab
        if v.k == "o": return v.lab
        if depth > 12: return v.lab
        out = set(v.lab)
        if v.k == "r":
            if seen is None: seen = frozenset()
            for t in v.a:
                if t in seen: continue
                out |= self.labs(st, self.load(st, t), depth + 1, seen | {t})
            return frozenset(out)
        if v.k == "l":
            if v.a is not None: out |= self.labs(st, v.a, depth + 1, seen)
        if v.k == "it":
            kind, e, x = v.a
            if isinstance(e, V): out |= self.labs(st, e, depth + 1, seen)
            if isinstance(x, V): out |= self.labs(st, x, depth + 1, seen)
        for _, x in v.f:
            out |= self.labs(st, x, depth + 1, seen)
        return frozenset(out)

    def deep(self, st, v, depth=0):
        """value with references replaced by their referents (a snapshot)"""
        if v.k == "r":
            if depth > 6: return O(self.labs(st, v))
            r = None
            for t in v.a:
                x = self.deep(st, self.load(st, t), depth + 1)
                r = x if r is None else self.join(r, x)
            return r if r is not None else O()
        return v

    def mapl(self, st, v, fn, depth=0):
        """apply a label-set transformer through a value"""
        if v is None: return None
        if depth > 10: return O(fn(self.labs(st, v)))
        if v.k == "r":
            v = self.deep(st, v)
            if v.k == "r": return O(fn(self.labs(st, v)))
        a = v.a
        if v.k == "l" and a is not None: a = self.mapl(st, a, fn, depth + 1)
        if v.k == "it":
            kind, e, x = a
            if kind == "v" and isinstance(x, V): x = self.mapl(st, x, fn, depth + 1)
            a = (kind, self.mapl_keepref(st, e, fn, depth + 1) if isinstance(e, V) else e, x)
        return V(v.k, fn(v.lab), a, v.b, tuple((k, self.mapl(st, x, fn, depth + 1)) for k, x in v.f))

    def mapl_keepref(self, st, v, fn, depth=0):
        return self.mapl(st, v, fn, depth)

    # -------------------------------------------------------------- join
    def join(self, x, y, depth=0):
        if x is y or x == y: return x
        if x.k == "u": return y
        if y.k == "u": return x
        if depth > MAXDEPTH:
            return O(self.flat(x) | self.flat(y))
        if x.k == y.k:
            if x.k == "o":
                L = x.lab | y.lab
                if self.widening and len(L) > 4: L = self.rule.widen(L)
                return V("o", L, x.a if x.a == y.a else None)
            if x.k == "r":
                return V("r", x.lab | y.lab, x.a | y.a)
            if x.k == "c":
                return O(x.lab | y.lab)
            if x.k == "l":
                e = x.a if y.a is None else (y.a if x.a is None else self.join(x.a, y.a, depth + 1))
                fx, fy = dict(x.f), dict(y.f)
                if set(fx) == set(fy):
                    f = {k: self.join(fx[k], fy[k], depth + 1) for k in fx}
                else:
                    f = {}
                    for k in set(fx) | set(fy):
                        z = fx.get(k) or fy.get(k)
                        e = z if e is None else self.join(e, z, depth + 1)
                return V("l", x.lab | y.lab, e, None, tuple(sorted(f.items())))
            if x.k == "s" and x.a == y.a and x.b == y.b:
                fx, fy = dict(x.f), dict(y.f)
                f = {}
                for k in set(fx) | set(fy):
                    a = fx[k] if k in fx else self.missing(x, k)
                    b = fy[k] if k in fy else self.missing(y, k)
                    f[k] = self.join(a, b, depth + 1)
                return V("s", x.lab | y.lab, x.a, x.b, tuple(sorted(f.items(), key=sk)))
            if x.k == "it" and x.a[0] == y.a[0] and x.b == y.b:
                e = x.a[1]
                if isinstance(x.a[1], V) and isinstance(y.a[1], V):
                    e = self.join(x.a[1], y.a[1], depth + 1)
                ex = x.a[2]
                if isinstance(x.a[2], V) and isinstance(y.a[2], V):
                    ex = self.join(x.a[2], y.a[2], depth + 1)
                elif x.a[0] == "v": ex = None
                return V("it", x.lab | y.lab, (x.a[0], e, ex), x.b)
            if x.k == "p":
                if x.a == y.a: return V("p", x.lab | y.lab, x.a)
                return V("p", x.lab | y.lab, ("unk",))
        if {x.k, y.k} == {"c", "p"}:
            c, p = (x, y) if x.k == "c" else (y, x)
            return V("p", c.lab | p.lab, ("unk",))
        if "s" in (x.k, y.k) and "o" in (x.k, y.k):
            s, o = (x, y) if x.k == "s" else (y, x)
            if s.b is None:
                return V("s", s.lab | o.lab, s.a, None, tuple((k, self.join(z, O(o.lab), depth + 1)) for k, z in s.f))
        if "l" in (x.k, y.k) and "o" in (x.k, y.k):
            l, o = (x, y) if x.k == "l" else (y, x)
            return V("l", l.lab | o.lab, O(o.lab) if l.a is None else self.join(l.a, O(o.lab), depth + 1), None, ())
        if x.k == "s" and y.k == "s" and x.a == y.a and x.f == () and y.f == ():
            return V("o", x.lab | y.lab, x.a)
        return O(self.flat(x) | self.flat(y))

    def missing(self, s, k):
        """the value of a field that is not materialised"""
        if s.lab and s.a in self.expand and isinstance(k, int):
            fld = self.field_of(s.a, k)
            if fld is not None and len(s.lab) == 1:
                (b, fl), = s.lab
                nm, fadt = fld
                l = frozenset([(b + "." + nm, fl)])
                if fadt in self.expand:
                    return V("s", l, fadt)
                return V("o", l, fadt)
        return O(s.lab)

    def field_of(self, adt, k):
        a = self.P.adts.get(adt)
        if not a: return None
        fs = a["variants"][0]["f"]
        if k >= len(fs): return None
        return fs[k][0], fs[k][2]

    def flat(self, v, depth=0):
        """labels without memory (references contribute nothing but their own labels)"""
        if v is None or not isinstance(v, V): return _E
        out = set(v.lab)
        if depth > 12: return frozenset(out)
        if v.k == "l" and v.a is not None: out |= self.flat(v.a, depth + 1)
        if v.k == "it":
            for z in v.a[1:]:
                out |= self.flat(z, depth + 1)
        for _, x in v.f: out |= self.flat(x, depth + 1)
        return frozenset(out)

    # -------------------------------------------------------------- memory
    # location = (frame, local, path tuple)
    def load(self, st, loc, depth=0):
        fr, l, path = loc
        v = st.get(fr, l)
        if v is None: return BOT
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        """project a value (not through a reference)"""
        k = e[0]
        if v.k == "r" and k != "*":
            v = self.deep(st, v)
        if k == "f":
            i = e[1]
            if v.k == "s":
                x = fget(v, i)
                return x if x is not None else self.missing(v, i)
            if v.k == "p" or v.k == "c":
                return O(v.lab)
            if v.k == "l":
                return O(self.flat(v))
            if v.k == "it":
                return O(self.flat(v))
            if v.k == "o":
                if v.a in self.expand:
                    return self.missing(V("s", v.lab, v.a), i)
                return O(v.lab)
            return O(v.lab)
        if k == "e":
            if v.k == "l":
                r = v.a
                for _, x in v.f:
                    r = x if r is None else self.join(r, x)
                if r is None: r = O(v.lab)
                elif v.lab: r = self.addl(r, v.lab)
                self.rule.on_elem(self, st, r)
                return r
            if v.k == "it":
                return O(self.flat(v))
            if v.k == "s":
                return O(self.flat(v))
            return O(v.lab)
        if k == "k":
            if v.k == "l":
                x = fget(v, e[1])
                if x is not None: return x
                if v.f and v.a is None:
                    r = None
                    for _, z in v.f: r = z if r is None else self.join(r, z)
                    return r
                r = v.a if v.a is not None else O(v.lab)
                if v.lab and v.a is not None: r = self.addl(r, v.lab)
                return self.mapl(st, r, lambda L: flag(L, f"k{e[1]}"))
            return O(flag(self.flat(v), f"k{e[1]}"))
        if k == "sub":
            return self.mapl(st, v, lambda L: flag(L, "slice"))
        if k == "d":
            if v.k == "o":
                return V("s", v.lab, v.a, e[1])
            return v
        return O(self.flat(v))

    def addl(self, v, labels):
        if not labels or labels <= v.lab and v.k == "o": return v
        if v.k == "o": return V("o", v.lab | labels, v.a)
        if v.k == "c": return V("o", v.lab | labels)
        if v.k == "u": return O(labels)
        if v.k == "s":
            if v.f:
                return V("s", v.lab | labels if v.b is None and v.a in self.expand else v.lab | labels, v.a, v.b,
                         tuple((k, self.addl(x, labels)) for k, x in v.f))
            return V("s", v.lab | labels, v.a, v.b, v.f)
        if v.k == "l":
            if v.a is None and not v.f:
                return V("l", v.lab | labels, O(labels), None, ())
            return V("l", v.lab | labels, None if v.a is None else self.addl(v.a, labels), None,
                     tuple((k, self.addl(x, labels)) for k, x in v.f))
        return V(v.k, v.lab | labels, v.a, v.b, v.f)

    def store(self, st, loc, val, weak=False):
        fr, l, path = loc
        if not path:
            if weak:
                old = st.get(fr, l)
                if old is not None: val = self.join(old, val)
            st.put(fr, l, val)
            return
        base = st.get(fr, l)
        if base is None: base = BOT
        st.put(fr, l, self.upd(st, base, path, val, weak))

    def upd(self, st, v, path, val, weak):
        if not path:
            return self.join(v, val) if weak and v.k != "u" else val
        e = path[0]
        k = e[0]
        if k == "f":
            if v.k == "s":
                old = fget(v, e[1])
                if old is None: old = self.missing(v, e[1]) if len(path) > 1 or weak else BOT
                return fset(v, e[1], self.upd(st, old, path[1:], val, weak))
            base = V("s", self.flat(v), v.a if v.k == "o" else None, None)
            old = self.missing(base, e[1]) if (len(path) > 1 or weak) else BOT
            return fset(base, e[1], self.upd(st, old, path[1:], val, weak))
        if k == "d":
            if v.k == "s" and v.b == e[1]:
                return self.upd(st, v, path[1:], val, weak)
            nv = V("s", self.flat(v), v.a if v.k in ("o", "s") else None, e[1], v.f if v.k == "s" and v.b is None else ())
            return self.upd(st, nv, path[1:], val, weak)
        if k in ("e", "sub"):
            if v.k == "l":
                old = v.a
                if old is None and v.f:
                    nf = tuple((kk, self.upd(st, x, path[1:], val, True)) for kk, x in v.f)
                    return V("l", v.lab, None, None, nf)
                if old is None: old = BOT
                nf = tuple((kk, self.upd(st, x, path[1:], val, True)) for kk, x in v.f)
                return V("l", v.lab, self.upd(st, old, path[1:], val, True), None, nf)
            return self.addl(v, self.labs(st, val)) if v.k != "u" else O(self.labs(st, val))
        if k == "k":
            if v.k == "l":
                old = fget(v, e[1])
                if old is not None:
                    return V("l", v.lab, v.a, None, tuple((kk, self.upd(st, x, path[1:], val, weak) if kk == e[1] else x) for kk, x in v.f))
                old = v.a if v.a is not None else BOT
                return V("l", v.lab, self.upd(st, old, path[1:], val, True), None, v.f)
            return self.addl(v, self.labs(st, val)) if v.k != "u" else O(self.labs(st, val))
        return self.addl(v, self.labs(st, val))

    # resolve a MIR place to a set of locations
    def locs(self, st, fr, place):
        cur = [(fr, place[0], ())]
        for e in place[1:]:
            nxt = []
            for loc in cur:
                if e == "*":
                    v = self.load(st, loc)
                    if v.k == "r":
                        nxt.extend(v.a)
                    else:
                        nxt.append(loc)    # Box or opaque reference: same location
                elif e[0] == "f":
                    nxt.append((loc[0], loc[1], loc[2] + (("f", e[1]),)))
                elif e[0] == "d":
                    nxt.append((loc[0], loc[1], loc[2] + (("d", e[1]),)))
                elif e[0] == "i":
                    iv = st.get(fr, e[1])
                    if iv is not None and iv.k == "c" and isinstance(iv.a, int) and not isinstance(iv.a, bool):
                        nxt.append((loc[0], loc[1], loc[2] + (("k", iv.a),)))
                    else:
                        nxt.append((loc[0], loc[1], loc[2] + (("e",),)))
                elif e[0] == "ci":
                    nxt.append((loc[0], loc[1], loc[2] + (("k", e[1]),)))
                elif e[0] == "sub":
                    nxt.append((loc[0], loc[1], loc[2] + (("sub",),)))
                else:
                    nxt.append(loc)
            cur = nxt
            if len(cur) > 6: cur = cur[:6]
        return cur

    def rd(self, st, fr, place):
        r = None
        for loc in self.locs(st, fr, place):
            v = self.load(st, loc)
            r = v if r is None else self.join(r, v)
        return r if r is not None else O()

    def wr(self, st, fr, place, val):
        ls = self.locs(st, fr, place)
        for loc in ls:
            self.store(st, loc, val, weak=len(ls) > 1)

    # -------------------------------------------------------------- operands / rvalues
    def opv(self, st, fr, o):
        if "cp" in o: return self.rd(st, fr, o["cp"])
        if "mv" in o: return self.rd(st, fr, o["mv"])
        if "fn" in o: return V("fn", _E, FnRef(o["fn"]))
        v = o.get("v")
        if v is not None:
            ty = o.get("c", "")
            if ty == "bool": return C(v in (True, 1, "1", "true"))
            try: return C(int(v))
            except Exception: return O()
        if o.get("fv") is not None:
            r = self.rule.on_const(self, o["fv"])
            if r is not None: return r
        if o.get("s") is not None:
            r = self.rule.on_str(self, o["s"])
            if r is not None: return r
        if o.get("def") and not o.get("prom"):
            r = self.rule.on_def(self, o)
            if r is not None: return r
        d = o.get("defp") or o.get("def")
        if d and not o.get("prom"):
            return V("o", frozenset([("const:" + str(o.get("def") or d), _E)]))
        return O()

    def rvalue(self, st, fr, body, r):
        k = r[0]
        if k == "use": return self.opv(st, fr, r[1])
        if k == "ref":
            if len(r[2]) == 2 and r[2][1] == "*" and r[1] == "shared":
                # a shared reborrow of what an opaque reference stands for outlives the variable that holds the reference
                v = st.get(fr, r[2][0])
                if v is not None and v.k in ("o", "c"): return v
            return V("r", _E, frozenset(self.locs(st, fr, r[2])))
        if k == "cast":
            v = self.opv(st, fr, r[2])
            x = self.rule.on_cast(self, st, r[1], v, r[3])
            return v if x is None else x
        if k == "agg":
            kd = r[1]; ops = [self.opv(st, fr, x) for x in r[2]]
            kk = kd.get("k")
            if kk == "array":
                if len(ops) <= 8:
                    return COLL(None, _E, {i: x for i, x in enumerate(ops)})
                e = None
                for x in ops: e = x if e is None else self.join(e, x)
                return COLL(e)
            if kk == "tuple":
                return STR("()", None, dict(enumerate(ops)))
            if kk == "adt":
                adt = kd.get("id", "")
                nm = adt.split("::")[-1]
                std = {"Option": OPT, "Result": RES, "ControlFlow": CF, "Poll": POLL}
                if adt.startswith("core::") and nm in std:
                    return STR(std[nm], kd.get("v"), dict(enumerate(ops)))
                ad = self.P.adts.get(adt)
                isen = len(ad["variants"]) > 1 if ad else kd.get("vn") != nm
                return STR(adt, kd.get("v") if isen else None, dict(enumerate(ops)))
            if kk in ("closure", "coroutine", "coroutine_closure"):
                return STR(kd.get("id"), "clo", dict(enumerate(ops)))
            return STR("agg", None, dict(enumerate(ops)))
        if k == "bin":
            a = self.opv(st, fr, r[2]); b = self.opv(st, fr, r[3])
            self.vars = ('v' not in r[2], 'v' not in r[3])
            x = self.binop(st, r[1], a, b)
            self.vars = (False, False)
            return x
        if k == "un":
            a = self.opv(st, fr, r[2])
            x = self.rule.on_unop(self, st, r[1], a)
            if x is not None: return x
            if r[1] == "Not":
                if a.k == "c" and isinstance(a.a, bool): return C(not a.a)
                if a.k == "p": return V("p", a.lab, pnot(a.a))
            if r[1] == "PtrMetadata":
                return O(flag(self.labs(st, a), "l"))
            return O(self.labs(st, a)) if a.k != "c" else O()
        if k == "disc":
            return V("d", _E, tuple(self.locs(st, fr, r[1])))
        if k == "repeat":
            return COLL(self.opv(st, fr, r[1]))
        return O()

    def binop(self, st, op, a, b):
        x = self.rule.on_binop(self, st, op, a, b)
        if x is not None: return x
        la = self.labs(st, a); lb = self.labs(st, b)
        ov = op.endswith("WithOverflow")
        o = op[:-12] if ov else op
        res = None
        if a.k == "c" and b.k == "c" and isinstance(a.a, int) and isinstance(b.a, int):
            try:
                x, y = a.a, b.a
                if o == "Add": res = C(x + y)
                elif o == "Sub": res = C(x - y)
                elif o == "Mul": res = C(x * y)
                elif o == "Rem" and y: res = C(x % y)
                elif o == "Div" and y: res = C(x // y)
                elif o == "Eq": res = C(x == y)
                elif o == "Ne": res = C(x != y)
                elif o == "Lt": res = C(x < y)
                elif o == "Le": res = C(x <= y)
                elif o == "Gt": res = C(x > y)
                elif o == "Ge": res = C(x >= y)
                elif o == "BitAnd": res = C(x & y) if not isinstance(x, bool) else C(x and y)
                elif o == "BitOr": res = C(x | y) if not isinstance(x, bool) else C(x or y)
                elif o == "BitXor": res = C(x ^ y) if not isinstance(x, bool) else C(x != y)
            except Exception:
                res = None
            if res is not None and isinstance(res.a, int) and not isinstance(res.a, bool) and abs(res.a) > 4096:
                res = O()
        if res is None:
            if o in ("Eq", "Ne"):
                p = ("eq", la, lb, self.where())
                # comparison of a boolean predicate with a constant
                if a.k == "p" and b.k == "c" and isinstance(b.a, bool): p0 = a.a if b.a else pnot(a.a); res = V("p", a.lab, p0 if o == "Eq" else pnot(p0))
                elif b.k == "p" and a.k == "c" and isinstance(a.a, bool): p0 = b.a if a.a else pnot(b.a); res = V("p", b.lab, p0 if o == "Eq" else pnot(p0))
                else:
                    if la and lenonly(la) and b.k == "c" and b.a == 0: p = ("empty", la, _E, self.where())
                    elif lb and lenonly(lb) and a.k == "c" and a.a == 0: p = ("empty", lb, _E, self.where())
                    elif b.k == "c": p = ("eqc", la, b.a, self.where())
                    elif a.k == "c": p = ("eqc", lb, a.a, self.where())
                    if p[0] == "empty" and self.counted(a, b): return C(o == "Ne")
                    res = PRED(p if o == "Eq" else pnot(p), la | lb)
            elif o in ("Lt", "Le", "Gt", "Ge"):
                p = ("ord", la, lb, o, a.a if a.k == "c" else None, b.a if b.k == "c" else None, self.where())
                # length compared with zero: (non-)emptiness
                fl = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
                if la and lenonly(la) and b.k == "c": e = empt(o, b.a, la, self.where())
                elif lb and lenonly(lb) and a.k == "c": e = empt(fl[o], a.a, lb, self.where())
                else: e = None
                if e is not None:
                    p = e
                    if self.counted(a, b): return C(e[0] == "not")
                res = PRED(p, la | lb)
            elif o in ("BitAnd", "BitOr") and ("p" in (a.k, b.k)) and {a.k, b.k} <= {"p", "c", "o"}:
                pa, pb = topred(a), topred(b)
                res = PRED(("and" if o == "BitAnd" else "or", pa, pb), la | lb)
            elif o == "BitXor" and ("p" in (a.k, b.k)) and "c" in (a.k, b.k):
                p, c = (a, b) if a.k == "p" else (b, a)
                res = V("p", p.lab, pnot(p.a) if c.a else p.a)
            else:
                res = O(la | lb)
        if ov:
            return STR("()", None, {0: res, 1: FALSE})
        return res

    vars = (False, False)
    def counted(self, a, b):
        """the first test of a counting loop over a collection: like loops over iterators, such a loop is assumed to run"""
        if self.zero_iter or not self.rule.nonempty: return False
        if not (a.k == 'c' and self.vars[0] or b.k == 'c' and self.vars[1]): return False
        from facts import in_cycle
        fn, bb = self.stack[-1]
        return in_cycle(self.P.bodies[fn], bb)

    # -------------------------------------------------------------- predicates
    def assume(self, st, p, truth):
        """list of typestates after assuming predicate p has the given truth value; None = leave"""
        k = p[0]
        if k == "not": return self.assume(st, p[1], not truth)
        if k == "const": return [st.ts] if p[1] == truth else []
        if k == "unk": return [st.ts]
        if k in ("and", "or"):
            conj = (k == "and") == truth
            if conj:     # both operands are `truth`
                out = []
                for t in self.assume(st, p[1], truth):
                    s2 = st.fork(); s2.ts = t
                    out += self.assume(s2, p[2], truth)
                return out
            out = list(self.assume(st, p[1], truth))
            for t in self.assume(st, p[1], not truth):
                s2 = st.fork(); s2.ts = t
                out += self.assume(s2, p[2], truth)
            return dedup(out)
        r = self.rule.on_branch(self, st, p, truth)
        if r is None: return [st.ts]
        return r

    # -------------------------------------------------------------- liveness
    def live(self, body):
        L = self._live.get(body.id)
        if L is not None: return L
        n = len(body.blocks)
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        borrowed = set()
        def uses_place(p, i, isdef=False):
            l = p[0]
            if isdef and len(p) == 1:
                dfn[i].add(l) if l not in use[i] else dfn[i].add(l)
                return
            if l not in dfn[i]: use[i].add(l)
            for e in p[1:]:
                if e != "*" and e[0] == "i" and e[1] not in dfn[i]: use[i].add(e[1])
        def uo(o, i):
            if "cp" in o: uses_place(o["cp"], i)
            elif "mv" in o: uses_place(o["mv"], i)
        for i, bb in enumerate(body.blocks):
            for s in bb["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("use", "repeat"): uo(r[1], i)
                    elif r[0] == "cast": uo(r[2], i)
                    elif r[0] == "bin": uo(r[2], i); uo(r[3], i)
                    elif r[0] == "un": uo(r[2], i)
                    elif r[0] == "agg":
                        for x in r[2]: uo(x, i)
                    elif r[0] == "ref":
                        uses_place(r[2], i)
                        if "*" not in r[2][1:]: borrowed.add(r[2][0])
                    elif r[0] == "disc":
                        uses_place(r[1], i)
                    uses_place(s[1], i, True)
                elif s[0] == "sd":
                    uses_place(s[1], i) if isinstance(s[1], list) else None
            t = bb["t"]
            if t[0] == "call":
                uo(t[1], i)
                for x in t[2]: uo(x, i)
                uses_place(t[3], i, True)
            elif t[0] == "switch": uo(t[1], i)
            elif t[0] == "assert": uo(t[1], i)
            elif t[0] == "ret":
                if 0 not in dfn[i]: use[i].add(0)
        from facts import succs
        live = [set(u) for u in use]
        ch = True
        order = list(range(n - 1, -1, -1))
        sc = [succs(b) for b in body.blocks]
        while ch:
            ch = False
            for i in order:
                out = set()
                for s in sc[i]: out |= live[s]
                new = use[i] | (out - dfn[i])
                if new != live[i]:
                    live[i] = new; ch = True
        npred = [0] * n
        for i in range(n):
            if body.blocks[i]["cl"]: continue
            for s in sc[i]: npred[s] += 1
        L = (live, borrowed, npred)
        self._live[body.id] = L
        return L

    # -------------------------------------------------------------- execution
    def call_body(self, fid, args, st):
        """analyse internal function `fid` with argument values; returns [(state, ret)]"""
        body = self.P.bodies[fid]
        depth = len(self.stack)
        if depth > 60 or sum(1 for f, _ in self.stack if f == fid) >= 2:
            L = _E
            for a in args: L |= self.labs(st, a)
            return [(st, O(L))]
        self.funcs[fid] = self.funcs.get(fid, 0) + 1
        fr = st.push()
        for i, a in enumerate(args):
            st.put(fr, i + 1, a)
        outs = self.run(body, fr, st)
        res = []
        for s, r in outs:
            if r.k == "r":
                # references into the dying frame cannot escape; snapshot what does
                if any(t[0] == fr for t in r.a):
                    r = self.deep(s, r)
            s.pop(fr)
            self.rule.on_return(self, s, fid, r)
            res.append((s, r))
        return res

    def run(self, body, fr, st):
        live, borrowed, npred = self.live(body)
        part = {}
        work = [(0, st)]
        outs = {}
        self.stack.append((body.id, 0))
        blocks = body.blocks
        try:
            while work:
                bb, s = work.pop()
                # follow straight-line code
                while True:
                    self.steps += 1
                    if self.steps > self.budget:
                        self.over = True
                        raise Budget(f"analysis budget exceeded in {body.id}")
                    if npred[bb] > 1 or bb == 0:
                        lv = live[bb]
                        for l in s.locals(fr):
                            if isinstance(l, int) and l not in lv and l not in borrowed and l != 0:
                                s.kill(fr, l)
                        key = (bb, s.ts, self.tags(s, fr, lv, borrowed), self.own(s))
                        old = part.get(key)
                        if old is not None:
                            if self.leq(s, old):
                                break
                            s2 = self.join_states(old, s)
                            part[key] = s2.fork()
                            s = s2
                        else:
                            part[key] = s.fork()
                    self.stack[-1] = (body.id, bb)
                    B = blocks[bb]
                    for stt in B["s"]:
                        k = stt[0]
                        if k == "=":
                            val = self.rvalue(s, fr, body, stt[2])
                            self.wr(s, fr, stt[1], val)
                        elif k == "dead":
                            s.kill(fr, stt[1])
                    t = B["t"]
                    k = t[0]
                    if k == "goto": bb = t[1]; continue
                    if k == "drop": bb = t[2]; continue
                    if k == "assert":
                        self.rule.on_assert(self, s, body, fr, t)
                        bb = t[3]; continue
                    if k == "yield":
                        break          # futures are modelled as ready at first poll
                    if k == "ret":
                        r = s.get(fr, 0)
                        if r is None: r = UNIT
                        key = (s.ts, self.tag(r, 0), self.own(s))
                        o = outs.get(key)
                        if o is None: outs[key] = (s, r)
                        else:
                            outs[key] = (self.join_states(o[0], s), self.join(o[1], r))
                        break
                    if k == "unreach": break
                    if k == "switch":
                        nx = self.switch(s, fr, t)
                        if self.rule.forks and len(nx) > 1: nx = self.rule.on_fork(self, s, fr, t, nx)
                        if not nx: break
                        for b2, s2 in nx[1:]:
                            work.append((b2, s2))
                        bb, s = nx[0]
                        continue
                    if k == "call":
                        res = self.do_call(s, fr, body, t)
                        self.stack[-1] = (body.id, bb)
                        if t[4] < 0:
                            for s2, _ in res: self.rule.on_diverge(self, s2, t[1].get("fn", {}).get("p", "?"), None)
                        if t[4] < 0 or not res: break
                        nb = t[4]
                        # merge outcomes with the same typestate / tag
                        m = {}
                        for s2, v in res:
                            key = (s2.ts, self.tag(v, 0), self.own(s2))
                            if key in m:
                                o = m[key]
                                m[key] = (self.join_states(o[0], s2), self.join(o[1], v))
                            else: m[key] = (s2, v)
                        lst = []
                        for s2, v in m.values():
                            self.wr(s2, fr, t[3], v)
                            lst.append(s2)
                        for s2 in lst[1:]: work.append((nb, s2))
                        s = lst[0]; bb = nb
                        continue
                    break
        finally:
            self.stack.pop()
        return list(outs.values())

    def held(self, v):
        """the data (as chosen by the rule) that a value certainly holds: states that differ in it are kept apart"""
        m = self._held
        r = m.get(v)
        if r is None:
            x = {(b, complete(v.lab, b)) for b in {b for b, f in v.lab if "l" not in f and self.rule.keepbase(b)}}
            m[v] = r = frozenset(x)
            for y in [v.a, *[z for _, z in v.f]] + (list(v.a) if isinstance(v.a, tuple) else []):
                if isinstance(y, V) and y.k != "r": x |= self.held(y)
            m[v] = r = frozenset(x)
        return r

    def own(self, s):
        """what the entry's receiver holds"""
        if self.rule.keepbase is None: return None
        v = s.get(0, "self")
        return self.held(v) if v is not None else None

    def tag(self, v, d):
        if self.rule.keepbase is not None and d == 0 and v.k in "slo":
            t = self.tag0(v, d); h = self.held(v)
            return (t, h) if h else t
        return self.tag0(v, d)

    def tag0(self, v, d):
        if v.k == "s":
            if v.b is not None and v.b != "clo":
                x = fget(v, 0)
                return (v.b, self.tag(x, d + 1) if x is not None and d < 2 else None)
            return None
        if v.k == "c" and isinstance(v.a, bool): return v.a
        if v.k == "it": return ("it", v.b, self.tag(v.a[1], d + 1) if isinstance(v.a[1], V) and v.a[1].k == "it" and d < 3 else None)
        if v.k == "l":
            return "E" if v.a is None and not v.f else None
        return None

    def tags(self, s, fr, lv, borrowed):
        out = []
        for l in s.locals(fr):
            if l in lv or l in borrowed:
                t = self.tag(s.get(fr, l), 0)
                if t is not None and t != "E": out.append((l, t))
        out.sort(key=lambda x: str(x))
        return tuple(out)

    def leq(self, s, old):
        for i in range(len(old.fr)):
            a = s.fr[i]; b = old.fr[i]
            if a is b: continue
            for l, v in a.items():
                w = b.get(l)
                if w is None: return False
                if v is w or v == w: continue
                if self.join(w, v) != w: return False
        return True

    def join_states(self, a, b):
        r = a.fork()
        r.ts = a.ts
        for i in range(len(a.fr)):
            x = a.fr[i]; y = b.fr[i]
            if x is y: continue
            n = dict(x)
            for l, v in y.items():
                w = n.get(l)
                n[l] = v if w is None else self.join(w, v)
            r.fr[i] = n; r.own[i] = True
        return r

    def switch(self, s, fr, t):
        v = self.opv(s, fr, t[1])
        targets = t[2]; other = t[3]
        if v.k == "d":
            locs = v.a
            vals = None
            cur = None
            for loc in locs:
                x = self.deep(s, self.load(s, loc))
                cur = x if cur is None else self.join(cur, x)
            if cur is not None and cur.k == "s" and cur.b is not None and cur.b != "clo":
                for val, bb in targets:
                    if int(val) == cur.b: return [(bb, s)]
                return [(other, s)]
            if cur is not None and cur.k == "u": return []
            out = []
            for val, bb in targets:
                s2 = s.fork()
                if len(locs) == 1:
                    old = self.load(s2, locs[0])
                    if old.k in ("o", "s"):
                        self.store(s2, locs[0], V("s", old.lab, old.a, int(val), old.f))
                tss = self.rule.on_variant(self, s2, cur, int(val))
                for ts in ([s2.ts] if tss is None else tss):
                    s3 = s2.fork(); s3.ts = ts
                    out.append((bb, s3))
            out.append((other, s))
            return out
        if v.k == "c":
            for val, bb in targets:
                if int(val) == int(v.a): return [(bb, s)]
            return [(other, s)]
        if v.k == "p":
            out = []
            for val, bb in targets:
                truth = int(val) != 0
                for ts in dedup(self.assume(s, v.a, truth)):
                    s2 = s.fork(); s2.ts = ts
                    out.append((bb, s2))
            truth = not (int(targets[0][0]) != 0)
            for ts in dedup(self.assume(s, v.a, truth)):
                s2 = s.fork(); s2.ts = ts
                out.append((other, s2))
            return out
        # unknown integer/boolean
        out = []
        boolean = len(targets) == 1
        L = self.labs(s, v)
        for val, bb in targets:
            s2 = s.fork()
            tss = self.rule.on_branch(self, s2, ("eqc", L, int(val), self.where()), True)
            for ts in ([s2.ts] if tss is None else tss):
                s3 = s2.fork(); s3.ts = ts
                out.append((bb, s3))
        if boolean:
            tss = self.rule.on_branch(self, s, ("eqc", L, int(targets[0][0]), self.where()), False)
            for ts in ([s.ts] if tss is None else tss):
                s3 = s.fork(); s3.ts = ts
                out.append((other, s3))
        else:
            out.append((other, s))
        return out

    # -------------------------------------------------------------- calls
    def do_call(self, s, fr, body, t):
        self.vis_calls += 1
        fo = t[1]
        args = [self.opv(s, fr, x) for x in t[2]]
        tys = []
        for x in t[2]:
            p = x.get("cp") or x.get("mv")
            if p is not None and len(p) == 1: tys.append(body.locals[p[0]][0])
            else: tys.append("")
        d = t[3]
        self.dest_ty = body.locals[d[0]][0] if len(d) == 1 else ""
        if "fn" in fo:
            return self.call_fn(s, FnRef(fo["fn"]), args, tys, t)
        f = self.opv(s, fr, fo)
        return self.call_value(s, f, args)

    def resolve(self, s, f, args):
        """internal body id for a callee, or None"""
        r = f.raw
        for k in (r.get("rid"), r.get("id")):
            if k and k in self.P.bodies and not (k == r.get("id") and r.get("tr") and r.get("rid") in self.P.bodies):
                if k == r.get("id") and r.get("tr"):
                    # trait item with default body: prefer the receiver's own implementation
                    a = self.recv_adt(s, args)
                    if a:
                        i = self.P.impl_item(r["id"], a)
                        if i: return i if i in self.P.bodies else k
                    return k
                return k
        if r.get("tr"):
            a = self.recv_adt(s, args) or r.get("selfadt")
            if a:
                i = self.P.impl_item(r["id"], a)
                if i and i in self.P.bodies: return i
        return None

    def recv_adt(self, s, args):
        if not args: return None
        v = args[0]
        n = 0
        while v.k == "r" and n < 5:
            t = next(iter(v.a)) if v.a else None
            if t is None: return None
            v = self.load(s, t); n += 1
        if v.k in ("s", "o") and isinstance(v.a, str): return v.a
        return None

    def call_fn(self, s, f, args, tys=(), t=None):
        r = self.rule.on_call(self, s, f, args)
        if r is not None: return r
        m = self.models.lookup(self, f)
        if m is not None:
            r = m(self, s, f, args)
            if r is not None: return r
        k = self.resolve(s, f, args)
        if k is not None and not self.rule.opaque(k):
            return self.call_body(k, args, s)
        return self.external(s, f, args, tys)

    def call_value(self, s, f, args):
        """call a closure / fn value with spread arguments"""
        if f.k == "r": 
            tgt = f
            f = self.deep(s, f)
        if f.k == "fn":
            return self.call_fn(s, f.a, args)
        if f.k == "s" and f.b == "clo" and f.a in self.P.bodies:
            b = self.P.bodies[f.a]
            if b.locals[1][0].startswith("&"):
                key = ("t", f.a)
                s.put_top(key, f)
                selfv = V("r", _E, frozenset([(s.top(), key, ())]))
            else: selfv = f
            n = b.argc - 1
            a = list(args)[:n]
            while len(a) < n: a.append(O())
            return self.call_body(f.a, [selfv] + a, s)
        L = self.labs(s, f)
        for a in args: L |= self.labs(s, a)
        return [(s, O(L))]

    def external(self, s, f, args, tys=()):
        n = f.np
        self.unmodelled[n] = self.unmodelled.get(n, 0) + 1
        L = _E
        for a in args: L |= self.labs(s, a)
        L = frozenset(L)
        states = [s]
        for a in args:
            c = self.deep(s, a) if a.k == "r" else a
            if c.k == "s" and c.b == "clo" and c.a in self.P.bodies:
                nxt = []
                for s1 in states:
                    for s2, v in self.call_value(s1, c, [O(L)] * 4):
                        L = L | self.labs(s2, v)
                        nxt.append(s2)
                states = nxt
        for s1 in states:
            for i, a in enumerate(args):
                if a.k == "r" and (i < len(tys) and tys[i].startswith("&mut") or i >= len(tys)):
                    for loc in a.a:
                        old = self.load(s1, loc)
                        self.store(s1, loc, self.addl(old, L))
        return [(s1, O(L)) for s1 in states]

class Budget(Exception):
    pass

class FnRef:
    __slots__ = ("raw", "np", "name", "id", "_k")
    _cache = {}
    def __new__(cls, raw):
        k = (raw.get("id"), raw.get("rid"), raw.get("p"), str(raw.get("ga")))
        o = cls._cache.get(k)
        if o is None:
            o = object.__new__(cls)
            o.raw = raw; o.np = norm_path(raw.get("p", "")); o.name = o.np.split("::")[-1]; o.id = raw.get("id"); o._k = k
            cls._cache[k] = o
        return o
    def __hash__(self): return hash(self._k)
    def __eq__(self, o): return self is o
    def __repr__(self): return "fn " + self.np

class St:
    """frames of locals (copy on write) + typestate"""
    __slots__ = ("fr", "own", "ts")
    def __init__(self, ts):
        self.fr = [{}]; self.own = [True]; self.ts = ts
    def fork(self):
        n = object.__new__(St)
        n.fr = list(self.fr); n.own = [False] * len(self.fr); n.ts = self.ts
        self.own = [False] * len(self.fr)
        return n
    def push(self):
        self.fr.append({}); self.own.append(True)
        return len(self.fr) - 1
    def pop(self, fr):
        while len(self.fr) > fr:
            self.fr.pop(); self.own.pop()
    def top(self): return len(self.fr) - 1
    def get(self, fr, l):
        return self.fr[fr].get(l) if fr < len(self.fr) else None
    def put(self, fr, l, v):
        if not self.own[fr]:
            self.fr[fr] = dict(self.fr[fr]); self.own[fr] = True
        self.fr[fr][l] = v
    def put_top(self, l, v): self.put(len(self.fr) - 1, l, v)
    def kill(self, fr, l):
        if l in self.fr[fr]:
            if not self.own[fr]:
                self.fr[fr] = dict(self.fr[fr]); self.own[fr] = True
            del self.fr[fr][l]
    def locals(self, fr): return list(self.fr[fr].keys())

def lenonly(L): return all("l" in f for _, f in L)

def empt(o, c, L, w):
    if (o, c) in (("Gt", 0), ("Ge", 1)): return ("not", ("empty", L, _E, w))
    if (o, c) in (("Le", 0), ("Lt", 1)): return ("empty", L, _E, w)
    return None

def pnot(p):
    if p[0] == "not": return p[1]
    if p[0] == "const": return ("const", not p[1])
    return ("not", p)

def topred(v):
    if v.k == "p": return v.a
    if v.k == "c": return ("const", bool(v.a))
    return ("unk",)

def dedup(l):
    out = []
    for x in l:
        if x not in out: out.append(x)
    return out

def shortfn(fid):
    p = fid.split("::")
    p = [x for x in p if not x.startswith("{closure")]
    mod = [x for x in p if not x.startswith("{")]
    return "::".join(mod[-3:]) if len(mod) > 2 else "::".join(mod)

class Rule:
    keepbase = None
    """default hooks"""
    def on_branch(self, I, st, p, truth): return None
    def on_variant(self, I, st, cur, idx): return None
    def on_call(self, I, st, f, args): return None
    def on_assert(self, I, st, body, fr, t): pass
    def on_const(self, I, fv): return None
    def on_str(self, I, s): return None
    def on_def(self, I, o): return None
    def on_cast(self, I, st, kind, v, ty): return None
    def on_binop(self, I, st, op, a, b): return None
    twice = False
    forks = False
    def on_filter(self, I, st, b): pass
    def on_fork(self, I, st, fr, t, outs): return outs
    def on_net(self, I, st, op, site, args): raise NotImplementedError
    def on_clear(self, I, st, ref, old): pass
    def on_push(self, I, st, ref, v): return v
    def on_elem(self, I, st, v): pass
    def on_draw(self, I, st, v): return None
    nonempty = True
    def on_unwrap(self, I, st, f, v): pass
    def on_panicky(self, I, st, f, args): pass
    def on_zip(self, I, st, a, b): pass
    def on_seed(self, I, st, f, v): pass
    def on_diverge(self, I, st, f, args): pass
    def on_return(self, I, st, fid, v): pass
    def opaque(self, fid): return False
    def widen(self, L): return L
    def on_unop(self, I, st, op, a): return None
    def on_slice(self, I, st, v, rng): return None
