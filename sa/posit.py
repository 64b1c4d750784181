"""Positional iteration over lists whose elements are known one by one (arrays, vec![..] literals)."""
from absint import *
from absint import _E, V, COLL, STR, REF
from models import dv, some, NONE, RES, OPT, variants
import models

LIM = 4
def fixed(I, st, v):
    """the elements of a short list known by position"""
    v = dv(I, st, v)
    if v.k == "l" and v.f and v.a is None and not v.lab and len(v.f) <= LIM: return [x for _, x in v.f]
    return None
def fx(xs): return V("s", _E, "fx", len(xs), tuple(enumerate(xs)))
def isfx(v): return isinstance(v, V) and v.k == "s" and v.a == "fx"
def items(v): return [x for _, x in v.f]
def tup(*a): return STR("()", None, dict(enumerate(a)))

def positional(I, st, f, args):
    n, np = f.name, f.np
    if not args: return None
    it = "Iterator" in np or np.startswith(("std::slice", "core::slice", "alloc::slice", "std::vec", "alloc::vec", "std::iter", "core::iter", "itertools"))
    if not it: return None
    a0 = dv(I, st, args[0])
    if n in ("iter", "into_iter", "iter_mut"):
        if isfx(a0): return [(st, a0)]
        xs = fixed(I, st, a0)
        if xs is None: return None
        if n == "iter_mut" or str((f.raw.get("ga") or [""])[0]).startswith("&mut"):
            if args[0].k != "r" or len(args[0].a) != 1: return None
            (fr, l, path), = args[0].a
            x = I.load(st, (fr, l, path))
            while x.k == "r" and len(x.a) == 1: (fr, l, path), = x.a; x = I.load(st, (fr, l, path))
            return [(st, fx([REF((fr, l, path + (("k", i),))) for i in range(len(xs))]))]
        return [(st, fx(xs))]
    if not any(isfx(dv(I, st, a)) for a in args): return None
    if n == "next" and args[0].k == "r" and isfx(a0):
        xs = items(a0)
        mark = getattr(I.rule, "pos", None)      # keeps the rounds of a loop over the list apart
        if mark: mark(I, st, I.site("pos"), len(xs))
        if not xs: return [(st, NONE)]
        for loc in final(I, st, args[0]): I.store(st, loc, fx(xs[1:]))
        return [(st, some(xs[0]))]
    def seq(v):
        v = dv(I, st, v)
        return items(v) if isfx(v) else fixed(I, st, v)
    if n == "zip" and len(args) == 2:
        x, y = seq(args[0]), seq(args[1])
        if x is not None and y is not None: return [(st, fx([tup(p, q) for p, q in zip(x, y)]))]
    if isfx(a0):
        xs = items(a0)
        if n == "enumerate": return [(st, fx([tup(C(i), x) for i, x in enumerate(xs)]))]
        if n == "rev": return [(st, fx(xs[::-1]))]
        if n in ("cloned", "copied", "by_ref", "into_iter"): return [(st, fx([dv(I, st, x) for x in xs]))]
        if n in ("map", "for_each"):
            outs = [(st, [])]
            for x in xs:
                nx = []
                for s, acc in outs:
                    for s2, r in I.call_value(s, args[1], [x]): nx.append((s2, acc + [r]))
                outs = nx
            return [(s, fx(acc) if n == "map" else UNIT) for s, acc in outs]
        if n == "filter" and len(args) == 2:
            keep = []
            for k, x in enumerate(xs):
                s2 = st.fork()
                rs = I.call_value(s2, args[1], [models.tmp(I, s2, ("flt", k), x)])
                if len(rs) != 1 or dv(I, rs[0][0], rs[0][1]).k != "c": keep = None; break
                if dv(I, rs[0][0], rs[0][1]).a: keep.append(x)
            if keep is not None: return [(st, fx(keep))]
        if n == "len" or n == "count": return [(st, C(len(xs)))]
        if n in ("collect", "collect_vec"):
            tgt = str((f.raw.get("ga") or [""])[-1])
            if "Result<" in tgt.split("Vec")[0]:
                outs = [(st, [])]; res = []
                for x in xs:
                    nx = []
                    for s, acc in outs:
                        for s2, i, y in variants(I, s, x, RES):
                            if i == 0: nx.append((s2, acc + [y]))
                            else: res.append((s2, STR(RES, 1, {0: y})))
                    outs = nx
                return res + [(s, STR(RES, 0, {0: COLL(None, _E, dict(enumerate(acc)))})) for s, acc in outs]
            return [(st, COLL(None, _E, dict(enumerate(xs))))]
    # any other consumer sees an ordinary list
    m = I.models.lookup(I, f)
    if m is None: return None
    return m(I, st, f, [COLL(None, _E, dict(enumerate(items(dv(I, st, a))))) if isfx(dv(I, st, a)) else a for a in args])

def final(I, st, v):
    out = set()
    for loc in v.a:
        x = I.load(st, loc)
        out |= final(I, st, x) if x.k == "r" else {loc}
    return out
