"""Models of the standard library / bytes / rand / digest / futures operations the code uses.

Each model: m(I, st, f, args) -> [(state, value)] or None (fall through).
"""
from absint import *
from absint import _E

EXACT = {}
def model(*names):
    def d(fn):
        for n in names: EXACT[n] = fn
        return fn
    return d

def std(p):
    return p.replace("core::", "std::", 1).replace("alloc::", "std::", 1) if p.startswith(("core::", "alloc::")) else p

class Models:
    def lookup(self, I, f):
        np = std(f.np)
        m = EXACT.get(np)
        if m: return m
        parts = np.split("::")
        if len(parts) >= 2:
            m = EXACT.get("*::" + "::".join(parts[-2:]))
            if m: return m
        if "NetworkTrait" in np and parts[-2] == "NetworkTrait":
            return network
        if parts[0] == "tracing" or parts[0] == "tracing_core" or parts[0] == "log":
            return tracing
        return None

# ------------------------------------------------------------------ helpers
def dv(I, s, v): return I.deep(s, v)

def tmp(I, s, key, v):
    k = ("t", key)
    s.put_top(k, v)
    return V("r", _E, frozenset([(s.top(), k, ())]))

def tracing(I, s, f, args):
    return [(s, O())]

NETID = {"get_id", "get_num_parties"}
def network(I, s, f, args):
    n = f.name
    if n == "get_id": return [(s, C(I.party) if I.party is not None else O(frozenset([lab("party-id")])))]
    if n == "get_num_parties": return [(s, C(3))]
    return [(s, V("fut", _E, n, I.site(n), tuple((i, dv(I, s, a) if i else a) for i, a in enumerate(args))))]

def poll_value(I, s, v, loc):
    """run a future; returns [(state, output)]"""
    if v.k == "fut":
        args = [x for _, x in v.f]
        return I.rule.on_net(I, s, v.a, v.b, args)
    if v.k == "s" and v.b == "clo" and v.a in I.P.bodies:
        b = I.P.bodies[v.a]
        if b.locals[1][0].startswith("&"):
            selfv = V("r", _E, frozenset([loc])) if loc else v
        else:
            selfv = v
        return I.call_body(v.a, [selfv, O()], s)
    if v.k == "s" and v.a == RES: return [(s, v)]        # an already known outcome
    return [(s, O(I.labs(s, v)))]

@model("std::future::Future::poll", "*::Future::poll")
def m_poll(I, s, f, args):
    p = args[0]
    loc = None
    v = p
    n = 0
    while v.k == "r" and n < 6:
        loc = next(iter(v.a))
        v = I.load(s, loc); n += 1
    if v.k == "s" and v.b != "clo" and v.f:      # Pin { pointer }
        x = v.f[0][1]
        if x.k == "r":
            loc = next(iter(x.a)); v = I.load(s, loc)
    outs = poll_value(I, s, v, loc)
    return [(a, STR(POLL, 0, {0: b})) for a, b in outs]

@model("std::future::IntoFuture::into_future", "std::pin::Pin::new_unchecked", "std::pin::Pin::new", "std::boxed::Box::pin",
       "std::boxed::Box::new", "std::pin::Pin::as_mut", "std::pin::Pin::get_mut", "std::convert::identity",
       "std::option::Option::as_deref", "std::cell::RefCell::new", "std::sync::Arc::new", "std::rc::Rc::new")
def m_id(I, s, f, args): return [(s, args[0])]

@model("std::future::get_context")
def m_ctx(I, s, f, args): return [(s, O())]

# ---- identity-like: borrow / deref / as_ref keep the reference
@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
       "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut", "*::GenericArray::as_slice", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::slice::as_ref", "std::vec::Vec::as_ref", "*::slice::as_mut_slice", "std::option::Option::as_mut_slice")
def m_ref(I, s, f, args):
    a = args[0]
    if a.k == "r":
        # reference to a reference: peel
        v = I.load(s, next(iter(a.a))) if len(a.a) == 1 else None
        if v is not None and v.k == "r": return [(s, v)]
    return [(s, a)]

# ---- copying: clone / to_owned / into / from
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::convert::Into::into", "*::slice::to_vec", "std::slice::to_vec",
       "std::string::ToString::to_string", "*::BytesMut::freeze", "std::borrow::Cow::into_owned", "std::option::Option::cloned", "std::option::Option::copied",
       "*::slice::into_vec", "std::slice::into_vec", "std::boxed::box_assume_init_into_vec_unsafe", "*::Bytes::copy_from_slice", "std::vec::Vec::into_boxed_slice", "std::mem::ManuallyDrop::new",
       "num_traits::AsPrimitive::as_", "std::iter::FromIterator::from_iter", "std::vec::Vec::into_iter_own")
def m_copy(I, s, f, args):
    v = dv(I, s, args[0])
    if v.k == "it":
        return consume(I, s, v)
    return [(s, v)]

@model("std::convert::From::from")
def m_from(I, s, f, args):
    # conversions implemented by the program are analysed, others copy
    k = I.resolve(s, f, [])
    if k is not None: return None
    return m_copy(I, s, f, args)

@model("std::borrow::ToOwned::clone_into")
def m_clone_into(I, s, f, args):
    v = dv(I, s, args[0])
    for loc in args[1].a if args[1].k == "r" else (): I.store(s, loc, v)
    return [(s, UNIT)]

@model("std::clone::Clone::clone_from")
def m_clone_from(I, s, f, args):
    v = dv(I, s, args[1])
    for loc in args[0].a if args[0].k == "r" else (): I.store(s, loc, v)
    return [(s, UNIT)]

# ---- mem
@model("std::mem::take")
def m_take(I, s, f, args):
    v = dv(I, s, args[0])
    if args[0].k == "r":
        for loc in args[0].a: I.store(s, loc, blank(I, v), weak=len(args[0].a) > 1)
    I.rule_cleared(s, args[0], v)
    return [(s, v)]

def blank(I, v):
    """what a default value leaves behind: a record keeps its fields, each of them empty"""
    if v.k == "s" and v.a in I.expand:
        have = dict(v.f); n = len(I.P.adts[v.a]["variants"][0]["f"]) if v.a in I.P.adts else 0
        return V("s", _E, v.a, v.b, tuple((k, blank(I, have[k]) if k in have else COLL(None)) for k in range(n)))
    return COLL(None)

@model("std::mem::replace")
def m_replace(I, s, f, args):
    v = dv(I, s, args[0])
    if args[0].k == "r":
        for loc in args[0].a: I.store(s, loc, args[1], weak=len(args[0].a) > 1)
    I.rule_cleared(s, args[0], v)
    return [(s, v)]

@model("std::mem::swap")
def m_swap(I, s, f, args):
    a, b = dv(I, s, args[0]), dv(I, s, args[1])
    for r, v in ((args[0], b), (args[1], a)):
        if r.k == "r":
            for loc in r.a: I.store(s, loc, v, weak=len(r.a) > 1)
    I.rule_cleared(s, args[0], a)
    I.rule_cleared(s, args[1], b)
    return [(s, UNIT)]

@model("std::mem::drop", "std::mem::forget")
def m_drop(I, s, f, args): return [(s, UNIT)]

# ---- Result / Option
def variants(I, s, v, adt):
    """[(state, variant idx, payload)] of an Option/Result value (by value)"""
    v = dv(I, s, v)
    if v.k == "s" and v.a == adt and v.b is not None:
        x = fget(v, 0)
        return [(s, v.b, x if x is not None else O(v.lab))]
    L = I.labs(s, v)
    x = O(L)
    if v.k == "s" and v.b in (0, 1):
        p = fget(v, 0)
        return [(s, v.b, p if p is not None else O(v.lab))]
    out = []
    for i in (0, 1):
        s2 = s.fork()
        tss = I.rule.on_variant(I, s2, v, i)
        for ts in ([s2.ts] if tss is None else tss):
            s3 = s2.fork(); s3.ts = ts
            out.append((s3, i, x))
    return out

@model("std::ops::Try::branch")
def m_branch(I, s, f, args):
    v = args[0]
    ty = f.raw.get("self") or ""
    adt = OPT if "Option" in str(ty).split("<")[0] else RES
    if v.k == "s" and v.a in (OPT, RES): adt = v.a
    out = []
    for s2, i, x in variants(I, s, v, adt):
        good = (i == 0) if adt == RES else (i == 1)
        if good: out.append((s2, STR(CF, 0, {0: x})))
        else: out.append((s2, STR(CF, 1, {0: (err(x) if adt == RES else NONE)})))
    return out

@model("std::ops::FromResidual::from_residual")
def m_resid(I, s, f, args):
    v = args[0]
    if v.k == "s" and v.a == OPT: return [(s, NONE)]
    x = fget(v, 0) if v.k == "s" else None
    return [(s, err(x if x is not None else O(I.labs(s, v))))]

@model("std::ops::Try::from_output")
def m_fromout(I, s, f, args): return [(s, ok(args[0]))]

def adt_of(f): return OPT if "::Option::" in f.np else RES

@model("std::result::Result::map_err")
def m_maperr(I, s, f, args):
    out = []
    for s2, i, x in variants(I, s, args[0], RES):
        if i == 0: out.append((s2, ok(x)))
        else:
            for s3, y in I.call_value(s2, args[1], [x]): out.append((s3, err(y)))
    return out

@model("std::result::Result::map", "std::option::Option::map")
def m_map(I, s, f, args):
    adt = adt_of(f); good = 1 if adt == OPT else 0
    out = []
    for s2, i, x in variants(I, s, args[0], adt):
        if i == good:
            for s3, y in I.call_value(s2, args[1], [x]): out.append((s3, STR(adt, good, {0: y})))
        else: out.append((s2, NONE if adt == OPT else err(x)))
    return out

@model("std::result::Result::and_then", "std::option::Option::and_then")
def m_andthen(I, s, f, args):
    adt = adt_of(f); good = 1 if adt == OPT else 0
    out = []
    for s2, i, x in variants(I, s, args[0], adt):
        if i == good: out += I.call_value(s2, args[1], [x])
        else: out.append((s2, NONE if adt == OPT else err(x)))
    return out

@model("std::result::Result::or_else", "std::option::Option::or_else")
def m_orelse(I, s, f, args):
    adt = adt_of(f); good = 1 if adt == OPT else 0
    out = []
    for s2, i, x in variants(I, s, args[0], adt):
        if i == good: out.append((s2, STR(adt, good, {0: x})))
        else: out += I.call_value(s2, args[1], [x] if adt == RES else [])
    return out

@model("std::result::Result::and")
def m_and(I, s, f, args):
    out = []
    for s2, i, x in variants(I, s, args[0], RES):
        out.append((s2, args[1] if i == 0 else err(x)))
    return out

@model("std::option::Option::ok_or", "std::option::Option::ok_or_else")
def m_okor(I, s, f, args):
    out = []
    for s2, i, x in variants(I, s, args[0], OPT):
        if i == 1: out.append((s2, ok(x)))
        elif f.name == "ok_or": out.append((s2, err(args[1])))
        else:
            for s3, y in I.call_value(s2, args[1], []): out.append((s3, err(y)))
    return out

@model("std::result::Result::ok")
def m_ok(I, s, f, args):
    return [(s2, some(x) if i == 0 else NONE) for s2, i, x in variants(I, s, args[0], RES)]

@model("std::result::Result::err")
def m_errv(I, s, f, args):
    return [(s2, some(x) if i == 1 else NONE) for s2, i, x in variants(I, s, args[0], RES)]

@model("std::result::Result::unwrap", "std::result::Result::expect", "std::option::Option::unwrap", "std::option::Option::expect",
       "std::option::Option::unwrap_unchecked")
def m_unwrap(I, s, f, args):
    adt = adt_of(f); good = 1 if adt == OPT else 0
    I.rule.on_unwrap(I, s, f, args[0])
    return [(s2, x) for s2, i, x in variants(I, s, args[0], adt) if i == good]

@model("std::result::Result::unwrap_err", "std::result::Result::expect_err")
def m_unwraperr(I, s, f, args):
    return [(s2, x) for s2, i, x in variants(I, s, args[0], RES) if i == 1]

@model("std::result::Result::unwrap_or", "std::option::Option::unwrap_or", "std::result::Result::unwrap_or_default", "std::option::Option::unwrap_or_default",
       "std::result::Result::unwrap_or_else", "std::option::Option::unwrap_or_else")
def m_unwrapor(I, s, f, args):
    adt = adt_of(f); good = 1 if adt == OPT else 0
    out = []
    for s2, i, x in variants(I, s, args[0], adt):
        if i == good: out.append((s2, x))
        elif f.name == "unwrap_or": out.append((s2, args[1]))
        elif f.name == "unwrap_or_else": out += I.call_value(s2, args[1], [x] if adt == RES else [])
        else: out.append((s2, O()))
    return out

@model("std::result::Result::is_ok", "std::result::Result::is_err", "std::option::Option::is_some", "std::option::Option::is_none")
def m_is(I, s, f, args):
    adt = adt_of(f); want = 1 if f.name in ("is_err", "is_some") else 0
    out = []
    locs = list(args[0].a) if args[0].k == "r" else []
    for s2, i, x in variants(I, s, args[0], adt):
        if len(locs) == 1:
            old = I.load(s2, locs[0])
            if old.k in ("o", "s") and not (old.k == "s" and old.b is not None):
                I.store(s2, locs[0], V("s", old.lab, adt, i, old.f))
        out.append((s2, C(i == want)))
    return out

@model("std::option::Option::as_ref", "std::result::Result::as_ref", "std::option::Option::as_mut", "std::result::Result::as_mut")
def m_optasref(I, s, f, args):
    adt = adt_of(f)
    if args[0].k != "r" or len(args[0].a) != 1:
        return [(s, dv(I, s, args[0]))]
    loc = next(iter(args[0].a))
    out = []
    for s2, i, x in variants(I, s, args[0], adt):
        if adt == OPT and i == 0: out.append((s2, NONE)); continue
        r = V("r", _E, frozenset([(loc[0], loc[1], loc[2] + (("d", i), ("f", 0)))]))
        old = I.load(s2, loc)
        if old.k == "o": I.store(s2, loc, V("s", old.lab, old.a, i))
        out.append((s2, STR(adt, i, {0: r})))
    return out

@model("std::option::Option::take")
def m_opttake(I, s, f, args):
    v = dv(I, s, args[0])
    if args[0].k == "r":
        for loc in args[0].a: I.store(s, loc, NONE, weak=len(args[0].a) > 1)
    return [(s, v)]

# ---- comparisons
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(I, s, f, args):
    a, b = dv(I, s, args[0]), dv(I, s, args[1])
    if a.k == "c" and b.k == "c":
        r = a.a == b.a
        return [(s, C(r if f.name == "eq" else not r))]
    if a.k == "s" and b.k == "s" and a.b is not None and b.b is not None and a.a == b.a and not a.f and not b.f:
        r = a.b == b.b
        return [(s, C(r if f.name == "eq" else not r))]
    la, lb = I.labs(s, a), I.labs(s, b)
    p = ("eq", la, lb, I.where())
    if b.k == "c": p = ("eqc", la, b.a, I.where())
    elif a.k == "c": p = ("eqc", lb, a.a, I.where())
    elif a.k == "p" and b.k == "c": p = a.a if b.a else pnot(a.a)
    return [(s, PRED(p if f.name == "eq" else pnot(p), la | lb))]

@model("num_traits::Zero::is_zero", "num_traits::One::is_one", "*::RingImpl::is_zero", "*::RingElement::is_zero")
def m_zero(I, s, f, args):
    L = I.labs(s, args[0])
    return [(s, PRED(("eq", L, _E, I.where()), L))]

@model("subtle::ConstantTimeEq::ct_eq")
def m_cteq(I, s, f, args):
    la, lb = I.labs(s, args[0]), I.labs(s, args[1])
    return [(s, PRED(("eq", la, lb, I.where()), la | lb))]

@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_ord(I, s, f, args):
    a, b = dv(I, s, args[0]), dv(I, s, args[1])
    if "racing" in str(f.raw.get("rid", "")): return [(s, FALSE)]
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f.name]
    return [(s, I.binop(s, op, a, b))]

# ---- collections
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "*::BytesMut::new", "*::BytesMut::with_capacity", "std::collections::VecDeque::new", "*::Bytes::new",
       "std::string::String::new")
def m_new(I, s, f, args): return [(s, COLL(None))]

@model("std::default::Default::default")
def m_default(I, s, f, args):
    k = I.resolve(s, f, [])
    if k is not None: return None
    return [(s, COLL(None) if "Vec" in str(f.raw.get("self", "")) or "BytesMut" in str(f.raw.get("self", "")) else O())]

@model("std::vec::from_elem")
def m_fromelem(I, s, f, args): return [(s, COLL(args[0]))]

def as_coll(I, s, v):
    if v.k == "l": return v
    if v.k == "it": return COLL(O(I.flat(v)))
    L = I.labs(s, v)
    return COLL(O(L))

@model("std::vec::Vec::push", "std::collections::VecDeque::push_back", "std::vec::Vec::insert")
def m_push(I, s, f, args):
    x = args[-1]
    x = dv(I, s, x) if x.k == "r" and any(t[0] == s.top() for t in x.a) and False else x
    x = I.rule.on_push(I, s, args[0], x)
    if args[0].k == "r":
        for loc in args[0].a:
            c = I.load(s, loc)
            if c.k != "l":
                I.store(s, loc, I.addl(c, I.labs(s, x)) if c.k != "u" else COLL(x)); continue
            e = c.a
            for _, z in c.f: e = z if e is None else I.join(e, z)
            e = x if e is None else I.join(e, x)
            I.store(s, loc, V("l", c.lab, e))
    return [(s, UNIT)]

@model("std::vec::Vec::extend_from_slice", "*::BytesMut::extend_from_slice", "std::iter::Extend::extend", "std::vec::Vec::append", "*::BufMut::put_slice", "*::BytesMut::put",
       "*::BufMut::put", "*::BytesMut::unsplit")
def m_extend(I, s, f, args):
    src = dv(I, s, args[1])
    if src.k == "it":
        outs = consume(I, s, src)
    elif src.k == "s" and src.a and "Range" in str(src.a):
        outs = [(s, COLL(O()))]
    else: outs = [(s, as_coll(I, s, src))]
    res = []
    for s2, c2 in outs:
        c2 = I.rule.on_push(I, s2, args[0], c2)
        if f.name == "append" and args[1].k == "r":
            for loc in args[1].a: I.store(s2, loc, COLL(None), weak=len(args[1].a) > 1)
        e2 = c2.a
        for _, z in c2.f: e2 = z if e2 is None else I.join(e2, z)
        if args[0].k == "r":
            for loc in args[0].a:
                c = I.load(s2, loc)
                if c.k != "l":
                    I.store(s2, loc, I.addl(c, I.labs(s2, c2)) if c.k != "u" else c2); continue
                e = c.a
                for _, z in c.f: e = z if e is None else I.join(e, z)
                if e2 is not None: e = e2 if e is None else I.join(e, e2)
                I.store(s2, loc, V("l", c.lab | c2.lab, e))
        res.append((s2, UNIT))
    return res

@model("std::vec::Vec::clear", "*::BytesMut::clear", "std::collections::VecDeque::clear")
def m_clear(I, s, f, args):
    I.rule_cleared(s, args[0], dv(I, s, args[0]))
    if args[0].k == "r":
        for loc in args[0].a: I.store(s, loc, COLL(None), weak=len(args[0].a) > 1)
    return [(s, UNIT)]

@model("*::BytesMut::split", "std::vec::Vec::drain")
def m_split(I, s, f, args):
    v = dv(I, s, args[0])
    full = f.name == "split" or (len(args) > 1 and "RangeFull" in str(args[1].a))
    if full:
        I.rule_cleared(s, args[0], v)
        if args[0].k == "r":
            for loc in args[0].a: I.store(s, loc, COLL(None), weak=len(args[0].a) > 1)
        r = v
    else:
        r = I.mapl(s, v, lambda L: flag(L, "slice"))
    if f.name == "drain":
        e = as_coll(I, s, r)
        return [(s, IT(I.proj(s, e, ("e",)) if (e.a is not None or e.f) else O(e.lab)))]
    return [(s, r)]

@model("std::vec::Vec::truncate", "*::BytesMut::truncate", "std::vec::Vec::resize", "*::BytesMut::resize")
def m_trunc(I, s, f, args):
    if args[0].k == "r":
        for loc in args[0].a:
            c = I.load(s, loc)
            if f.name == "truncate":
                if len(args) > 1 and args[1].k == "c" and args[1].a == 0: n = COLL(None)
                else: n = I.mapl(s, c, lambda L: flag(L, "take"))
            else:
                n = c if c.k != "l" else V("l", c.lab, I.join(I.proj(s, c, ("e",)), args[2]) if (c.a is not None or c.f) else args[2])
            I.store(s, loc, n, weak=len(args[0].a) > 1)
    return [(s, UNIT)]

@model("std::vec::Vec::reserve", "*::BytesMut::reserve", "std::vec::Vec::shrink_to_fit")
def m_nop(I, s, f, args): return [(s, UNIT)]

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8, "bool": 1}
def size_of_ty(ty):
    if ty in SIZES: return SIZES[ty]
    if ty.startswith("[") and ";" in ty:
        e, n = ty[1:-1].rsplit(";", 1); e = size_of_ty(e.strip())
        return e * int(n) if e is not None and n.strip().isdigit() else None
    return None

@model("std::mem::size_of")
def m_sizeof(I, s, f, args):
    n = size_of_ty((f.raw.get("ga") or [""])[0])
    return [(s, C(n) if n is not None else O())]

@model("std::vec::Vec::len", "*::slice::len", "std::slice::len", "*::BytesMut::len", "*::Bytes::len", "*::Buf::remaining", "std::iter::ExactSizeIterator::len",
       "*::VecShareTrait::len", "std::collections::VecDeque::len", "std::string::String::len", "std::vec::Vec::capacity", "*::str::len", "*::Triples::len", "*::VecShare::len")
def m_len(I, s, f, args):
    v = dv(I, s, args[0])
    if v.k == "l" and v.a is None:
        if not v.f and not v.lab: return [(s, C(0))]
        if v.f: return [(s, C(len(v.f)))]
    return [(s, O(flag(I.labs(s, v), "l")))]

@model("std::vec::Vec::is_empty", "*::slice::is_empty", "std::slice::is_empty", "*::BytesMut::is_empty", "*::Bytes::is_empty", "*::VecShareTrait::is_empty",
       "*::Buf::has_remaining_not")
def m_isempty(I, s, f, args):
    v = dv(I, s, args[0])
    if v.k == "l" and v.a is None and not v.lab:
        return [(s, C(not v.f))]
    L = flag(I.labs(s, v), "l")
    return [(s, PRED(("empty", L, _E, I.where()), L))]

def partial_range(r):
    n = str(r.a) if r.k == "s" else ""
    if n.endswith("RangeFull"): return None
    if n.endswith("RangeTo") or n.endswith("RangeToInclusive"): return "take"
    if n.endswith("RangeFrom"): return "skip"
    if "Range" in n: return "mid"
    return ""

@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, s, f, args):
    a, i = args[0], args[1]
    if a.k == "r":
        # peel reference-to-reference
        if len(a.a) == 1:
            v = I.load(s, next(iter(a.a)))
            if v.k == "r": a = v
    pr = partial_range(i)
    if a.k != "r":
        return [(s, I.proj(s, a, ("e",)))]
    if pr is None: return [(s, a)]
    if pr:
        if f.name == "index_mut": return [(s, a)]
        if I.rule.on_slice(I, s, dv(I, s, a), i) == "whole": return [(s, a)]
        v = I.mapl(s, dv(I, s, a), lambda L: flag(L, pr))
        return [(s, tmp(I, s, ("ix", I.stack[-1]), v))]
    if i.k == "c" and isinstance(i.a, int):
        return [(s, V("r", _E, frozenset((x, y, z + (("k", i.a),)) for x, y, z in a.a)))]
    return [(s, V("r", _E, frozenset((x, y, z + (("e",),)) for x, y, z in a.a)))]

def elem_ref(I, a, k=("e",)):
    return V("r", _E, frozenset((x, y, z + (k,)) for x, y, z in a.a))

@model("*::slice::get", "std::slice::get", "std::vec::Vec::get", "*::slice::get_mut", "std::slice::get_mut")
def m_get(I, s, f, args):
    i = args[1]
    pr = partial_range(i)
    if args[0].k != "r": r = I.proj(s, args[0], ("e",))
    elif pr: r = tmp(I, s, ("g", I.stack[-1]), I.mapl(s, dv(I, s, args[0]), lambda L: flag(L, pr)))
    else: r = elem_ref(I, args[0], ("k", i.a) if i.k == "c" else ("e",))
    return [(s, some(r)), (s.fork(), NONE)]

@model("*::slice::first", "std::slice::first", "*::slice::last", "std::slice::last", "*::slice::last_mut", "std::slice::last_mut", "*::slice::first_mut", "std::slice::first_mut")
def m_first(I, s, f, args):
    k = ("k", 0) if f.name.startswith("first") else ("k", -1)
    if f.name.endswith("_mut"): k = ("e",)
    r = elem_ref(I, args[0], k) if args[0].k == "r" else I.proj(s, args[0], ("e",))
    return [(s, some(r)), (s.fork(), NONE)]

@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_front")
def m_pop(I, s, f, args):
    c = dv(I, s, args[0])
    if c.k == "l" and c.a is None and not c.f and not c.lab: return [(s, NONE)]
    x = I.proj(s, c, ("e",))
    return [(s, some(x)), (s.fork(), NONE)]

@model("*::slice::split_at", "std::slice::split_at", "*::slice::split_at_mut", "std::slice::split_at_mut", "*::slice::chunks", "std::slice::chunks_ref")
def m_splitat(I, s, f, args):
    if f.name == "chunks":
        return [(s, IT(args[0]))]
    return [(s, STR("()", None, {0: args[0], 1: args[0]}))]

@model("std::slice::chunks", "*::slice::chunks_mut", "std::slice::chunks_mut")
def m_chunks(I, s, f, args): return [(s, IT(args[0]))]

@model("std::slice::chunks_exact", "*::slice::chunks_exact", "std::slice::chunks_exact_mut", "std::slice::windows")
def m_chunkse(I, s, f, args):
    v = I.mapl(s, dv(I, s, args[0]), lambda L: flag(L, "exact")) if f.name == "chunks_exact" else None
    if f.name == "windows" and args[0].k == "r" and args[1].k == "c" and isinstance(args[1].a, int) and 0 < args[1].a <= 8:
        xs = short(dv(I, s, args[0])); n = args[1].a
        if xs and len(xs) >= n:
            ws = [tmp(I, s, ("win", I.stack[-1], i), each(xs[i:i + n])) for i in range(len(xs) - n + 1)]
            return [(s, IT(args[0], extra=each(ws)))]
    return [(s, IT(v if v is not None else args[0]))]

@model("std::slice::copy_from_slice", "*::slice::copy_from_slice", "std::slice::clone_from_slice", "*::slice::clone_from_slice")
def m_copyfrom(I, s, f, args):
    I.rule.on_panicky(I, s, f, args)
    v = dv(I, s, args[1])
    if args[0].k == "r":
        for loc in args[0].a:
            I.store(s, loc, I.addl(I.load(s, loc), I.labs(s, v)) if loc[2] else v, weak=len(args[0].a) > 1)
    return [(s, UNIT)]

@model("*::Buf::copy_to_slice")
def m_copyto(I, s, f, args):
    I.rule.on_panicky(I, s, f, args)
    L = I.labs(s, args[0])
    if args[1].k == "r":
        for loc in args[1].a: I.store(s, loc, O(L))
    return [(s, UNIT)]

@model("*::Buf::advance", "*::Buf::get_u8", "*::BytesMut::split_to", "*::Bytes::split_to", "*::Buf::get_u64_le")
def m_bufget(I, s, f, args):
    I.rule.on_panicky(I, s, f, args)
    return [(s, O(I.labs(s, args[0])))]

# ---- iterators
@model("std::slice::iter", "*::slice::iter", "std::vec::Vec::iter", "std::slice::iter_mut", "*::slice::iter_mut")
def m_iter(I, s, f, args):
    a = args[0]
    if a.k == "r":
        # peel
        if len(a.a) == 1:
            v = I.load(s, next(iter(a.a)))
            if v.k == "r": a = v
        c = dv(I, s, a)
        if c.k == "l" and c.a is None and not c.f and not c.lab:
            return [(s, IT(None))]
        return [(s, IT(elem_ref(I, a), extra=each_ref(I, s, a, c)))]
    return [(s, to_it(I, s, a))]

def short(v):
    """the elements of a short literal list, one by one"""
    return [x for _, x in v.f] if v.k == "l" and v.a is None and v.f and not v.lab and len(v.f) <= 8 else None

def each(xs): return COLL(None, _E, dict(enumerate(xs)))

def each_ref(I, s, a, c):
    """references to the elements of a short list"""
    xs = short(c)
    return each([elem_ref(I, a, ("k", k)) for k, _ in c.f]) if xs else None

def pieces(I, s, it):
    """the elements of an iterator over a short list one by one, if they are known"""
    if it.k != "it" or it.b: return None
    kind, e, x = it.a
    if kind == "v" and x is not None: return short(x)
    if kind == "cloned":
        p = pieces(I, s, e)
        return p and [I.deep(s, y) for y in p]
    if kind == "enumerate":
        p = pieces(I, s, e)
        return p and [STR("()", None, {0: C(i), 1: y}) for i, y in enumerate(p)]
    if kind == "zip":
        p, q = pieces(I, s, e), pieces(I, s, x)
        return [STR("()", None, {0: y, 1: z}) for y, z in zip(p, q)] if p and q else None
    return None

def to_it(I, s, v):
    v0 = v
    if v.k == "it": return v
    if v.k == "r":
        c = I.deep(s, v)
        if c.k == "it": return c
        if c.k == "l" or c.k == "o" or c.k == "s":
            if c.k == "l" and c.a is None and not c.f and not c.lab: return IT(None)
            return IT(elem_ref(I, v), extra=each_ref(I, s, v, c))
        return IT(O(I.labs(s, v)))
    if v.k == "l":
        if v.a is None and not v.f:
            return IT(O(v.lab)) if v.lab else IT(None)
        return IT(I.proj(s, v, ("e",)), extra=v if short(v) else None)
    if v.k == "s" and "Range" in str(v.a):
        a, b = fget(v, 0), fget(v, 1)
        if a is not None and b is not None and a.k == "c" and b.k == "c" and a.a >= b.a: return IT(None)
        L = _E
        for x in (a, b):
            if x is not None: L |= I.labs(s, x)
        return IT(O(flag(L, "l")), kind="range")
    if v.k == "s" and v.b == "clo": return IT(O(I.labs(s, v)))
    return IT(O(I.labs(s, v)))

@model("std::iter::IntoIterator::into_iter")
def m_intoiter(I, s, f, args):
    return [(s, to_it(I, s, args[0]))]

@model("std::iter::Iterator::by_ref")
def m_byref(I, s, f, args): return [(s, args[0])]

@model("std::iter::Iterator::zip", "std::iter::zip", "itertools::zip_eq", "*::Itertools::zip_eq")
def m_zip(I, s, f, args):
    a, b = to_it(I, s, args[0]), to_it(I, s, args[1])
    I.rule.on_zip(I, s, args[0], args[1])
    if empty_it(a) or empty_it(b): return [(s, IT(None))]
    return [(s, V("it", _E, ("zip", a, b), False))]

@model("std::iter::Iterator::chain")
def m_chain(I, s, f, args):
    a, b = to_it(I, s, args[0]), to_it(I, s, args[1])
    if empty_it(a): return [(s, b)]
    if empty_it(b): return [(s, a)]
    return [(s, V("it", _E, ("chain", a, b), False))]

@model("std::iter::Iterator::map", "std::iter::Iterator::flat_map", "std::iter::Iterator::filter_map", "std::iter::Iterator::inspect")
def m_itmap(I, s, f, args):
    a = to_it(I, s, args[0])
    if empty_it(a): return [(s, IT(None))]
    return [(s, V("it", _E, (f.name, a, args[1]), False))]

@model("std::iter::Iterator::filter", "std::iter::Iterator::skip_while", "std::iter::Iterator::take_while")
def m_filter(I, s, f, args):
    a = to_it(I, s, args[0])
    if empty_it(a): return [(s, IT(None))]
    return [(s, V("it", _E, ("filter", a, args[1]), False))]

@model("std::array::map", "*::array::map")
def m_arraymap(I, s, f, args):
    a = dv(I, s, args[0])
    xs = short(a)
    if xs is None: return [(s1, COLL(y)) for s0, x in elem(I, s, to_it(I, s, a)) for s1, y in I.call_value(s0, args[1], [x])]
    outs = [(s, [])]
    for x in xs:
        outs = [(s2, acc + [y]) for s1, acc in outs for s2, y in I.call_value(s1, args[1], [x])]
    return [(s1, COLL(None, _E, dict(enumerate(acc)))) for s1, acc in outs]

@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_cloned(I, s, f, args):
    a = to_it(I, s, args[0])
    if empty_it(a): return [(s, a)]
    return [(s, V("it", _E, ("cloned", a, None), False))]

@model("std::iter::Iterator::rev", "std::iter::Iterator::peekable", "std::iter::Iterator::fuse", "std::iter::Iterator::cycle")
def m_itid(I, s, f, args):
    it = to_it(I, s, args[0])
    if f.name in ("rev", "cycle") and it.a[0] == "v" and it.a[2] is not None:
        ps = short(it.a[2])
        it = V("it", it.lab, ("v", it.a[1], each(ps[::-1]) if ps and f.name == "rev" else None), it.b)
    elif f.name in ("rev", "cycle") and pieces(I, s, it): it = start(it)
    return [(s, it)]

@model("*::Itertools::chunks", "*::Itertools::tuple_windows", "*::Itertools::tuples", "std::iter::Iterator::array_chunks")
def m_itchunks(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, it)]
    return [(s1, IT(COLL(I.deep(s1, x)))) for s1, x in elem(I, s, it)]

@model("std::iter::Iterator::enumerate")
def m_enum(I, s, f, args):
    a = to_it(I, s, args[0])
    if empty_it(a): return [(s, a)]
    return [(s, V("it", _E, ("enumerate", a, None), False))]

@model("std::iter::Iterator::take", "std::iter::Iterator::skip", "std::iter::Iterator::step_by")
def m_takeskip(I, s, f, args):
    a = to_it(I, s, args[0])
    if empty_it(a): return [(s, a)]
    return [(s, V("it", _E, (f.name, a, None), False))]

@model("std::iter::Iterator::flatten")
def m_flatten(I, s, f, args):
    a = to_it(I, s, args[0])
    if empty_it(a): return [(s, a)]
    return [(s, V("it", _E, ("flatten", a, None), False))]

def empty_it(a): return a.k == "it" and a.a[0] in ("v", "range") and a.a[1] is None

def elem(I, s, it):
    """abstract element(s) of an iterator: [(state, value)]"""
    if it.k != "it": return [(s, O(I.labs(s, it)))]
    kind, e, x = it.a
    if kind in ("v", "range"):
        if kind == "v" and e is not None:
            I.rule.on_elem(I, s, e)
            r = I.rule.on_draw(I, s, e)
            if r is not None: return r
        return [(s, e if e is not None else O())]
    if kind == "zip":
        out = []
        for s1, a in elem(I, s, e):
            for s2, b in elem(I, s1, x):
                out.append((s2, STR("()", None, {0: a, 1: b})))
        return out
    if kind == "chain":
        out = elem(I, s.fork(), e) + elem(I, s, x)
        return out
    if kind in ("map", "flat_map", "filter_map", "inspect"):
        out = []
        for s1, a in elem(I, s, e):
            if kind == "inspect":
                for s2, b in I.call_value(s1, x, [a]): out.append((s2, a))
                continue
            for s2, b in I.call_value(s1, x, [a]):
                if kind == "flat_map":
                    out += elem(I, s2, to_it(I, s2, b))
                elif kind == "filter_map":
                    I.rule.on_filter(I, s2, b)
                    for s3, i, y in variants(I, s2, b, OPT):
                        if i == 1: out.append((s3, I.mapl(s3, y, lambda L: flag(L, "filter"))))
                else: out.append((s2, b))
        return out
    if kind == "filter":
        out = []
        for s1, a in elem(I, s, e):
            for s2, b in I.call_value(s1, x, [a]):
                b = dv(I, s2, b)
                if b.k == "c" and not b.a: continue      # the predicate rejects every element
                I.rule.on_filter(I, s2, b)
                for ts in (I.assume(s2, b.a, True) if b.k == "p" else [s2.ts]):
                    s3 = s2.fork(); s3.ts = ts
                    out.append((s3, I.mapl(s3, a, lambda L: flag(L, "filter"))))
        return out
    if kind == "cloned":
        return [(s1, I.deep(s1, a)) for s1, a in elem(I, s, e)]
    if kind == "enumerate":
        return [(s1, STR("()", None, {0: O(), 1: a})) for s1, a in elem(I, s, e)]
    if kind in ("take", "skip", "step_by"):
        fl = {"take": "take", "skip": "skip", "step_by": "step"}[kind]
        if is_range(e): return elem(I, s, e)
        return [(s1, I.mapl(s1, a, lambda L: flag(L, fl))) for s1, a in elem(I, s, e)]
    if kind == "flatten":
        out = []
        for s1, a in elem(I, s, e): out += elem(I, s1, to_it(I, s1, a))
        return out
    return [(s, O(I.flat(it)))]

def is_range(it):
    return it.k == "it" and it.a[0] == "range"

def start(it):
    return V("it", it.lab, it.a, True)

@model("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(I, s, f, args):
    p = args[0]
    loc = None; v = p; n = 0
    while v.k == "r" and n < 5:
        loc = next(iter(v.a)); v = I.load(s, loc); n += 1
    if v.k != "it":
        if v.k == "s" and "Range" in str(v.a):
            v = to_it(I, s, v)
        else:
            x = O(I.labs(s, v))
            return [(s, some(x)), (s.fork(), NONE)]
    if empty_it(v): return [(s, NONE)]
    ps = pieces(I, s, v) if loc and n == 1 else None
    if ps:                       # the elements of a short list come one after the other
        x, rest = (ps[-1], ps[:-1]) if f.name == "next_back" else (ps[0], ps[1:])
        e = None
        for y in rest: e = y if e is None else I.join(e, y)
        I.store(s, loc, IT(e, extra=each(rest)) if rest else IT(None))
        r = None
        if v.a[0] == "v":
            I.rule.on_elem(I, s, x)
            r = I.rule.on_draw(I, s, x)
        return [(s1, some(y)) for s1, y in r] if r is not None else [(s, some(x))]
    out = []
    started = v.b
    s0 = s.fork()
    if loc: I.store(s0, loc, start(v))
    for s1, x in elem(I, s0, v):
        out.append((s1, some(x)))
    if started or I.zero_iter or not out: out.append((s, NONE))
    return out

def consume(I, s, it):
    """collect an iterator into a collection"""
    if empty_it(it): return [(s, COLL(None))]
    out = []
    for s1, x in elem(I, s, it):
        x = I.rule.on_push(I, s1, None, x)
        if it.a[0] in ("map", "flat_map") and I.rule.twice:
            for s2, y in elem(I, s1, it):
                y = I.rule.on_push(I, s2, None, y)
                out.append((s2, COLL(I.join(x, y))))
        else:
            out.append((s1, COLL(x)))
    return out or [(s, COLL(None))]

@model("std::iter::Iterator::collect", "*::Itertools::collect_vec")
def m_collect(I, s, f, args):
    it = to_it(I, s, args[0])
    outs = consume(I, s, it)
    ga = f.raw.get("ga") or []
    tgt = str(ga[-1]) if ga else ""
    if "Result<" in tgt.split("Vec")[0]:
        res = []
        for s1, c in outs:
            e = c.a
            if e is None: res.append((s1, ok(c))); continue
            for s2, i, x in variants(I, s1, e, RES):
                res.append((s2, ok(COLL(x)) if i == 0 else err(x)))
        return res
    return outs

@model("std::iter::Iterator::for_each")
def m_foreach(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, UNIT)]
    out = []
    for s1, x in elem(I, s, it):
        for s2, _ in I.call_value(s1, args[1], [x]): 
            if I.rule.twice:
                for s3, y in elem(I, s2, it):
                    for s4, _ in I.call_value(s3, args[1], [y]): out.append((s4, UNIT))
            else: out.append((s2, UNIT))
    return out

@model("std::iter::Iterator::try_for_each")
def m_tryforeach(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, ok(UNIT))]
    out = []
    for s1, x in elem(I, s, it):
        out += I.call_value(s1, args[1], [x])
    return out

@model("std::iter::Iterator::fold", "std::iter::Iterator::try_fold")
def m_fold(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, args[1])]
    out = []
    for s1, x in elem(I, s, it):
        for s2, acc in I.call_value(s1, args[2], [args[1], x]):
            if f.name == "try_fold": out.append((s2, acc)); continue
            for s3, y in elem(I, s2, it):
                for s4, a2 in I.call_value(s3, args[2], [I.join(args[1], acc), y]):
                    out.append((s4, I.join(acc, a2)))
    return out or [(s, ok(args[1]) if f.name == "try_fold" else args[1])]

@model("std::iter::Iterator::reduce")
def m_reduce(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, NONE)]
    out = []
    for s1, x in elem(I, s, it):
        for s2, acc in I.call_value(s1, args[1], [x, x]):
            out.append((s2, some(I.join(x, acc))))
    return out

@model("std::iter::Iterator::all", "std::iter::Iterator::any")
def m_all(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, C(f.name == "all"))]
    ps = pieces(I, s, it)
    if ps:
        outs = [(s.fork(), [])]
        for x in ps:
            outs = [(s2, acc + [dv(I, s2, b)]) for s1, acc in outs for s2, b in I.call_value(s1, args[1], [x])]
        if all(b.k in "cp" for _, acc in outs for b in acc):
            op = "and" if f.name == "all" else "or"; res = []
            for s1, acc in outs:
                p = None
                for b in acc:
                    q = b.a if b.k == "p" else ("const", bool(b.a))
                    p = q if p is None else (op, p, q)
                res.append((s1, PRED(p)))
            return res
    out = []
    for s1, x in elem(I, s, it):
        out += I.call_value(s1, args[1], [x])
    return out

@model("std::iter::Iterator::sum", "std::iter::Iterator::product", "std::iter::Iterator::max", "std::iter::Iterator::min", "std::iter::Iterator::last",
       "std::iter::Iterator::nth", "std::iter::Iterator::count", "std::iter::Iterator::find", "std::iter::Iterator::position")
def m_itred(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, O())]
    out = []
    for s1, x in elem(I, s, it):
        L = I.labs(s1, x)
        if f.name == "count": L = flag(L, "l")
        if f.name == "position":
            for s2, b in I.call_value(s1.fork(), args[1], [x]): I.rule.on_filter(I, s2, b)
            L = _E
        if f.name in ("last", "nth"): L = flag(L, "k-1")
        if f.name in ("last", "nth", "find", "max", "min") and f.name != "count":
            if f.name == "find":
                for s2, b in I.call_value(s1, args[1], [x]):
                    I.rule.on_filter(I, s2, b)
                    out.append((s2, O(flag(L, "filter"))))
                continue
        out.append((s1, O(L)))
    return out

@model("std::iter::Iterator::find_map")
def m_findmap(I, s, f, args):
    it = to_it(I, s, args[0])
    if empty_it(it): return [(s, NONE)]
    out = [(s.fork(), NONE)]
    for s1, x in elem(I, s, V("it", _E, ("filter_map", it, args[1]), False)): out.append((s1, some(x)))
    return out

@model("std::iter::Iterator::unzip")
def m_unzip(I, s, f, args):
    it = to_it(I, s, args[0])
    out = []
    for s1, c in consume(I, s, it):
        e = c.a if c.a is not None else O(c.lab)
        out.append((s1, STR("()", None, {0: COLL(I.proj(s1, e, ("f", 0))), 1: COLL(I.proj(s1, e, ("f", 1)))})))
    return out

@model("std::iter::repeat", "std::iter::once", "std::iter::empty")
def m_repeat(I, s, f, args): return [(s, IT(args[0] if args else None))]

@model("std::iter::repeat_with", "std::iter::from_fn")
def m_repeatwith(I, s, f, args): return [(s, V("it", _E, ("map", IT(O()), args[0]), False))]

# ---- digest
@model("sha2::Digest::new", "*::Digest::new")
def m_dnew(I, s, f, args): return [(s, O())]

@model("sha2::Digest::finalize", "*::Digest::finalize", "*::Digest::finalize_reset", "*::FixedOutput::finalize_fixed")
def m_final(I, s, f, args):
    L = I.labs(s, args[0])
    r = O(flag(L | {lab("digest")}, "h"))
    if f.name == "finalize_reset" and args[0].k == "r":
        for loc in args[0].a: I.store(s, loc, O())
    return [(s, r)]

@model("sha2::Digest::digest", "*::Digest::digest")
def m_digest(I, s, f, args): return [(s, O(flag(I.labs(s, args[0]) | {lab("digest")}, "h")))]

# ---- generators: what a seeded generator yields depends on the seed only through the PRG
@model("*::SeedableRng::from_seed", "*::SeedableRng::seed_from_u64", "*::SeedableRng::from_rng")
def m_fromseed(I, s, f, args):
    v = dv(I, s, args[0])
    I.rule.on_seed(I, s, f, v)
    return [(s, O(flag(I.labs(s, v), "r")))]

# ---- closures
@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_callclo(I, s, f, args):
    fv = args[0]
    tup = args[1]
    a = [x for _, x in tup.f] if tup.k == "s" else [O(I.labs(s, tup))]
    if fv.k == "o" or fv.k == "r" and I.deep(s, fv).k not in ("s", "fn"):
        L = I.labs(s, fv)
        for x in a: L |= I.labs(s, x)
        return [(s, O(L))]
    return I.call_value(s, fv, a)

@model("std::fmt::Arguments::new", "std::fmt::Arguments::from_str", "std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::format")
def m_fmt(I, s, f, args): return [(s, O())]
