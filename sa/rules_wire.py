"""C15: what is serialised for a peer is read back in the same layout."""
import re
import lint, rules_cover, models
from terms import *
from terms import _E, _T, O, V, C, STR, COLL, OPT, dv, ok, err, mk, upd, EXT
from absint import UNIT, flag, RES, Budget, fget
from engine import *
from posit import positional, final, fx as models_fx
from cover import is_ok

def o(t): return O(frozenset([(t, _E)]))
W = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8}
PUT = re.compile(r"^(put|get|try_get)_([ui]\d+)(_le|_ne)?$")
WR = ("add_to_bytes",)
OWN = ("self", "arg:self", "self.0", "arg:self.0")
RD = {"from_bytes_mut": "whole", "from_bytes": "whole", "take_from_bytes_mut": "take"}
ORDER = {"rev"}; PARTIAL = {"take", "skip", "step", "filter", "slice", "mid", "exact", "chunk"}

class Wire(Terms):
    """ext = (comparisons, wire operations in order)"""
    def __init__(self, P, prim): super().__init__(); self.P = P; self.prim = prim; self.bad = {}
    def init(self): return mk(ext=(_E, ()))
    def ops(self, st): return st.ts[EXT][1]
    def op(self, st, *e):
        x = st.ts[EXT]
        if len(x[1]) < 14: st.ts = upd(st.ts, ext=(x[0], x[1] + (e,)))
        return st
    def tyof(self, I, st, v):
        """the type of the place a reference points at"""
        if v.k != "r" or len(v.a) != 1: return ""
        (fr, l, path), = v.a
        if path or not isinstance(l, int): return ""
        for fid, _ in reversed(I.stack):
            b = self.P.bodies.get(fid)
            if b is not None and l < len(b.locals) and b.locals[l][0].startswith("["): return b.locals[l][0]
        return ""
    def peel(self, t):
        m = re.fullmatch(r"(?:arr|cast)\((.*)\)", t)
        return m.group(1) if m else t
    def symbol(self, I, st, f, args):
        n, np = f.name, f.np
        T = lambda i: self.t(I, st, args[i])
        tr = str(f.raw.get("tr") or "")
        m = PUT.match(n)
        if m and "bytes::" in np:
            w = W[m.group(2)]; e = {"_le": "le", "_ne": "ne"}.get(m.group(3), "be")
            if w == 1: e = "byte"
            if m.group(1) == "put": return [(self.op(st, "w", w, e, T(1)), UNIT)]
            r = o(f"rd{sum(1 for x in self.ops(st) if x[0] == 'r')}")
            return [(self.op(st, "r", w, e), r if m.group(1) == "get" else ok(r))]
        if n in ("put_slice", "extend_from_slice", "put", "extend", "write_all") and ("bytes::" in np or "BytesMut" in np) and len(args) == 2:
            t = T(1); k = re.fullmatch(r"(le|be|ne)(\d+)\((.*)\)", t)
            if k: return [(self.op(st, "w", int(k.group(2)), "byte" if k.group(2) == "1" else k.group(1), k.group(3)), UNIT)]
            return [(self.op(st, "w", "?", "bytes", t), UNIT)]
        k = re.fullmatch(r"to_(le|be|ne)_bytes", n)
        if k and len(args) == 1:
            w = W.get(np.split("::")[-2].strip("<>")) or W.get(str((f.raw.get("self") or "")), None) or W.get(np.split("::")[0])
            return [(st, o(f"{k.group(1)}{w or '?'}({T(0)})"))]
        if n in ("copy_to_slice", "try_copy_to_slice") and "bytes::" in np:
            m = re.match(r"\[u8; (\d+)\]", self.tyof(I, st, args[1])); w = int(m.group(1)) if m else "?"
            i = sum(1 for x in self.ops(st) if x[0] == "r")
            self.op(st, "r", w, "raw")
            for loc in args[1].a if args[1].k == "r" else (): I.store(st, loc, o(f"raw{i}"))
            return [(st, UNIT)]
        k = re.fullmatch(r"from_(le|be|ne)_bytes", n)
        if k and len(args) == 1:
            m = re.fullmatch(r"raw(\d+)", T(0))
            if m:
                x = st.ts[EXT]; i = int(m.group(1)); c = -1; ops = []
                for e in x[1]:
                    if e[0] == "r":
                        c += 1
                        if c == i: e = ("r", e[1], "byte" if e[1] == 1 else k.group(1))
                    ops.append(e)
                st.ts = upd(st.ts, ext=(x[0], tuple(ops)))
                return [(st, o(f"rd{i}"))]
        if n in ("remaining", "len") and args and ("bytes::" in np or "BytesMut" in np or self.t(I, st, args[0]).startswith("arg:other")): return [(st, o("rem"))]
        if n in ("has_remaining", "is_empty") and args and ("bytes::" in np or "BytesMut" in np):
            p = ("teq", "#0", "rem")
            return [(st, V("p", I.labs(st, args[0]), p if n == "is_empty" else ("not", p)))]
        if n in ("into", "from") and len(args) == 1: return [(st, o(T(0)))] if dv(I, st, args[0]).k in ("o", "c", "p") else None
        if n in ("try_from", "try_into") and len(args) == 1: return [(st, ok(o(T(0)))), (st.fork(), err(o("convert")))]
        if n == "convert" and len(args) == 1 and not self.prim: return [(st, o(T(0)))]
        if self.prim and ("IntRing2k" in tr or "RingImpl" in tr or "types::" in np) and not (I.resolve(st, f, args) in self.P.bodies and self.deep(f)):
            if n in WR: return [(self.op(st, "w", "elem", self.buf(I, st, args[1]), T(0)), UNIT)]
            if n == "to_bytes": return [(st, o(f"msg({T(0)})"))]
            if n in RD:
                i = sum(1 for x in self.ops(st) if x[0] == "r")
                s = self.op(st, "r", "elem", RD[n])
                return [(s, ok(o("rd"))), (st.fork(), err(o("convert")))]
        if n == "rev" and "Iterator" in np:
            it = models.to_it(I, st, args[0])
            if it.k == "it" and it.a[0] == "v" and it.a[1] is not None:
                return [(st, V("it", it.lab, ("v", I.mapl(st, it.a[1], lambda L: flag(L, "rev")), None), it.b))]
        if n in ("next_back", "pop", "swap_remove", "reverse", "sort", "sort_unstable", "nth_back", "rotate_left", "rotate_right", "swap", "dedup") and args and ("[" in np or "slice" in np or "Vec" in np or "Iterator" in np):
            self.bad.setdefault(n, (f"{I.where()} changes the order or number of elements ({n})", I.chain()))
        return None
    def deep(self, f): return False
    def buf(self, I, st, v): return "buf"
    def on_cast(self, I, st, kind, v, ty):
        if kind == "IntToInt" and v.k == "o": return v
        return super().on_cast(I, st, kind, v, ty)

def exact(conds, w):
    """the comparisons force rem == w"""
    for p, t in conds:
        if p == ("teq",) + tuple(sorted((f"#{w}", "rem"))) and t: return True
    lo = any((p == ("lt", "rem", f"#{w}") and not t) or (p == ("lt", f"#{w - 1}", "rem") and t) for p, t in conds)
    hi = any((p == ("lt", f"#{w}", "rem") and not t) or (p == ("lt", "rem", f"#{w + 1}") and t) for p, t in conds)
    return lo and hi

def atleast(conds, w):
    if exact(conds, w): return True
    if w == 1 and any(p == ("teq", "#0", "rem") and not t for p, t in conds): return True
    return any((p == ("lt", "rem", f"#{w}") and not t) or (p == ("lt", f"#{w - 1}", "rem") and t) for p, t in conds)

def run(P, fid, rule, argv=None, more=()):
    b = P.bodies[fid]
    return run_entry(P, rule, Entry(fid, fid.split("::")[-1], b.implselfadt or "", None), None, budget=300000, argv=argv, expand_more=set(more) | ({b.implselfadt} if b.implselfadt else set()))

def kof(P, i):
    for it in i["items"]:
        if it["n"] == "K":
            c = P.consts.get(it["id"])
            if c and c["v"] is not None:
                try: return int(c["v"])
                except ValueError: return None
    return None

def elems(ctx, P):
    """every implementation of the integer ring trait writes and reads the same bytes"""
    tr = P.trait_named("IntRing2k")
    impls = [i for i in P.impls if i.get("trait") == tr]
    ctx.obligation(len(impls) >= 6, "anchor:IntRing2k", f"only {len(impls)} element types were found")
    dflt = {it["n"]: it["id"] for it in P.traits[tr]["items"]} if tr else {}
    for i in impls:
        ty = str(i["self"]).split("::")[-1]
        have = {it["n"]: it["id"] for it in i["items"] if it["id"] in P.bodies}
        K = kof(P, i)
        if not ctx.obligation(K is not None, f"anchor:K:{ty}", f"{ty}::K is not a constant the analysis can read"): continue
        need = (K + 7) // 8
        if not ctx.obligation(all(n in have for n in ("add_to_bytes", "from_bytes_mut", "from_bytes", "take_from_bytes_mut")), f"anchor:codec:{ty}", f"{ty} does not implement its own codec"): continue
        R = Wire(P, False); I, outs = run(P, have["add_to_bytes"], R, argv={"self": o("arg:self")})
        ctx.funcs |= set(I.funcs)
        forms = {tuple(R.ops(s)) for s, v in outs}
        good = len(forms) == 1 and len(next(iter(forms))) == 1
        w = next(iter(forms))[0] if good else None
        if not ctx.obligation(good and w[0] == "w" and w[1] == need and w[3] in ("arg:self", "arg:self.0", "self", "self.0") or bool(good and w[0] == "w" and w[1] == need and ty == "Bit"), f"write:{ty}",
                              f"{ty}::add_to_bytes writes {sorted(forms)}; expected the value itself in {need} bytes"): continue
        ctx.sample(f"{ty}: writes {w[1]} bytes {w[2]}")
        for n, kind in RD.items():
            R2 = Wire(P, False); I, outs = run(P, have[n], R2, argv={"other": o("arg:other")})
            ctx.funcs |= set(I.funcs); succ = 0
            for s, v in outs:
                v = dv(I, s, v)
                if not is_ok(v): continue
                succ += 1
                ops = tuple(x for x in R2.ops(s)); conds = s.ts[EXT][0]
                ctx.obligation(ops == (("r", w[1], w[2]),), f"width:{ty}:{n}", f"{ty}::{n} reads {ops} where {ty}::add_to_bytes writes {w[1]} bytes ({w[2]})")
                fit = exact(conds, need) if kind == "whole" else atleast(conds, need)
                ctx.obligation(fit, f"size:{ty}:{n}", f"{ty}::{n} can succeed without having {'exactly' if kind == 'whole' else 'at least'} {need} bytes")
                pay = R2.t(I, s, dict(v.f).get(0)) if v.k == "s" and v.f else R2.t(I, s, v)
                ctx.obligation("rd0" in pay and not re.search(r"rd0!", pay) and (ty == "Bit" or pay == "rd0"), f"value:{ty}:{n}", f"{ty}::{n} returns {pay[:80]}, not the value read")
            ctx.obligation(succ > 0, f"reads:{ty}:{n}", f"{ty}::{n} never succeeds")
            ctx.count("readers")
        ctx.count("element_types")
        if "to_bytes" in have: tobytes(ctx, P, have["to_bytes"], ty)
    if dflt.get("to_bytes") in P.bodies: tobytes(ctx, P, dflt["to_bytes"], "IntRing2k")
    else: ctx.obligation(False, "anchor:to_bytes", "the default to_bytes was not found")

def tobytes(ctx, P, fid, ty):
    R = Wire(P, True); I, outs = run(P, fid, R, argv={"self": o("arg:self")})
    ctx.funcs |= set(I.funcs)
    for s, v in outs:
        w = [x for x in R.ops(s)]
        ctx.obligation(len(w) == 1 and w[0][1] == "elem" and w[0][3] in OWN or not w and R.t(I, s, v) in [f"msg({x})" for x in OWN],
                       f"to_bytes:{ty}", f"{ty}::to_bytes writes {w} instead of the value once")

def wrapper(ctx, P):
    """ring elements use the codec of the integer they wrap"""
    tr = P.trait_named("RingImpl")
    for i in [i for i in P.impls if i.get("trait") == tr]:
        ty = str(i["self"]).split("::")[-1]; have = {it["n"]: it["id"] for it in i["items"] if it["id"] in P.bodies}
        own = V("s", frozenset([("arg:self", _E)]), P.bodies[have["add_to_bytes"]].implselfadt) if "add_to_bytes" in have else None
        if not ctx.obligation(own is not None, f"anchor:wrap:{ty}", f"{ty} has no add_to_bytes"): continue
        inner = ("arg:self.0", "self.0")
        R = Wire(P, True); I, outs = run(P, have["add_to_bytes"], R)
        ctx.funcs |= set(I.funcs)
        for s, v in outs:
            w = R.ops(s)
            ctx.obligation(len(w) == 1 and w[0][:2] == ("w", "elem") and w[0][3] in inner, f"wrap:{ty}:add_to_bytes", f"{ty}::add_to_bytes writes {w} instead of the wrapped integer once")
        for n, kind in RD.items():
            if not ctx.obligation(n in have, f"anchor:wrap:{ty}:{n}", f"{ty}::{n} was not found"): continue
            R = Wire(P, True); I, outs = run(P, have[n], R, argv={"other": o("arg:other")})
            ctx.funcs |= set(I.funcs)
            for s, v in outs:
                v = dv(I, s, v)
                if not is_ok(v): continue
                L = {b for b, f in I.labs(s, v)}
                ctx.obligation(R.ops(s) == (("r", "elem", kind),) and L == {"rd"}, f"wrap:{ty}:{n}", f"{ty}::{n} reads {R.ops(s)} and returns {sorted(L)}; expected one wrapped integer read as {kind}")
        if "to_bytes" in have: tobytes(ctx, P, have["to_bytes"], ty)
        ctx.count("wrappers")

ES = [o(f"e{i}") for i in range(3)]
NS = [o(f"n{i}") for i in range(3)]

class Batch(Wire):
    """element-by-element runs of the functions that write or read whole batches"""
    twice = False
    def __init__(self, P, frombytes): super().__init__(P, True); self.frombytes = frombytes; self.keep = {}
    def place(self, I, st, v):
        for _ in range(6):
            if v.k != "r" or len(v.a) != 1: return "buffer"
            (loc,) = v.a; x = I.load(st, loc)
            if x.k != "r":
                fr, l, path = loc
                return f"{fr}/{l}/" + ".".join(str(p[1]) for p in path)
            v = x
        return "buffer"
    def buf(self, I, st, v): return self.place(I, st, v)
    def pos(self, I, st, site, n): pass
    def symbol(self, I, st, f, args):
        n, np = f.name, f.np
        if args and ("Iterator" in np or n == "next"):
            a = dv(I, st, args[0])
            if a.k == "s" and str(a.a).endswith("Range") and len(a.f or ()) == 2:
                lo, hi = dict(a.f).get(0), dict(a.f).get(1)
                if lo.k == "c" and hi.k == "c" and isinstance(lo.a, int) and isinstance(hi.a, int) and 0 <= hi.a - lo.a <= 4:
                    x = models_fx([C(i) for i in range(lo.a, hi.a)])
                    if n == "into_iter": return [(st, x)]
                    if args[0].k == "r":
                        for loc in final(I, st, args[0]): I.store(st, loc, x)
                    else: args = [x] + list(args[1:])
        if I.resolve(st, f, args) in self.frombytes: return [(st, ok(COLL(None, _E, dict(enumerate(NS))))), (st.fork(), err(o("received")))]
        if n in ("remaining", "len") and args and ("bytes::" in np or "BytesMut" in np) and self.frombytes == ():
            return [(st, o(f"rem{self.reads(st)}"))]
        if n in ("has_remaining", "is_empty") and args and ("bytes::" in np or "BytesMut" in np) and self.frombytes == ():
            p = ("teq", "#0", f"rem{self.reads(st)}")
            return [(st, V("p", I.labs(st, args[0]), p if n == "is_empty" else ("not", p)))]
        tr = str(f.raw.get("tr") or "")
        if n in RD and ("IntRing2k" in tr or "RingImpl" in tr or "types::" in np):
            i = self.reads(st); self.op(st, "r", "elem", RD[n])
            return [(st, ok(o(f"rd{i}"))), (st.fork(), err(O()))]
        if n in WR and ("IntRing2k" in tr or "RingImpl" in tr or "types::" in np): return [(self.op(st, "w", "elem", self.buf(I, st, args[1]), self.t(I, st, args[0])), UNIT)]
        if n == "to_bytes" and ("IntRing2k" in tr or "RingImpl" in tr): return [(st, o(f"msg({self.t(I, st, args[0])})"))]
        if n in ("put_slice", "extend_from_slice", "put", "extend", "write_all") and ("bytes::" in np or "BytesMut" in np) and len(args) == 2:
            m = re.fullmatch(r"msg\((.*)\)", self.t(I, st, args[1]))
            if m: return [(self.op(st, "w", "elem", self.place(I, st, args[0]), m.group(1)), UNIT)]
        if n == "push" and len(args) == 2 and args[0].k == "r" and "Vec" in np:
            locs = final(I, st, args[0])
            if len(locs) == 1:
                (loc,) = locs; x = I.load(st, loc)
                if x.k == "l" and x.a is None and not x.lab and len(x.f or ()) < 4:
                    I.store(st, loc, COLL(None, _E, {**dict(x.f or ()), len(x.f or ()): dv(I, st, args[1])}))
                    return [(st, UNIT)]
        p = positional(I, st, f, args)
        if p is not None: return p
        return super().symbol(I, st, f, args)
    def reads(self, st): return sum(1 for x in self.ops(st) if x[0] == "r")

def params(b):
    names = {}
    for v in b.raw["vars"]:
        if len(v[1]) == 1 and 1 <= v[1][0] <= b.argc: names[v[1][0]] = v[0]
    return [(names.get(i + 1, f"a{i}"), b.locals[i + 1][0]) for i in range(b.argc)]

def lists(ctx, P):
    """batches: every function that writes or reads elements in a loop keeps number and order"""
    ctx.count("batch_writers", 0); ctx.count("batch_readers", 0); ctx.count("queue_writers", 0)
    def calls(b, names):
        for blk in b.blocks:
            t = blk["t"]
            if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
                fn = t[1]["fn"]; nm = fn["id"].split("::")[-1]
                if nm in names and ("RingImpl" in str(fn.get("tr")) or "IntRing2k" in str(fn.get("tr")) or "types::" in fn["id"]): yield nm
    roots = {}
    for b in P.bodies.values():
        if "::types::" in b.id: continue
        for nm in calls(b, WR + ("to_bytes",) + tuple(RD)): roots.setdefault(b.id.split("::{closure")[0], set()).add(nm)
    lst = COLL(None, _E, dict(enumerate(ES)))
    readers = [f for f, k in roots.items() if "take_from_bytes_mut" in k]
    for fid in readers: reader(ctx, P, fid)
    for fid, kinds in sorted(roots.items()):
        if not kinds & {*WR, "to_bytes"}: continue
        b = P.bodies.get(fid)
        if b is None or not kinds & set(WR) and not any(ty.startswith(("&[", "std::vec::Vec<", "&std::vec::Vec<")) or "impl " in ty for _, ty in params(b)): continue
        nm = fid.split("::", 1)[1].replace("{impl#1}::", "")
        argv = {}; many = 0
        for a, ty in params(b):
            if ty.startswith(("&[", "std::vec::Vec<", "&std::vec::Vec<")) or "impl " in ty or "Iterator" in ty:
                xs = [o(f"{c}{i}") for i in range(3)] if (c := "efgh"[many]) != "e" else ES
                argv[a] = COLL(None, _E, dict(enumerate(xs))) if ty.startswith(("&", "std::vec")) else models_fx(xs); many += 1
            elif a != "self" and not ty in ("usize",) and not ty.startswith("&"): argv[a] = ES[0]
        if any("CommitOpening" in ty for _, ty in params(b)) or nm.endswith("::coin"):
            ctx.sample(f"{nm}: opening of a commitment, judged by C09"); continue
        R = Batch(P, tuple(readers)); I, outs = run(P, fid, R, argv=argv, more=("x",))
        ctx.funcs |= set(I.funcs); got = 0
        for s, v in outs:
            v = dv(I, s, v)
            if v.k == "s" and v.a == RES and not is_ok(v): continue
            bufs = {}
            for e in R.ops(s):
                if e[0] == "w": bufs.setdefault(e[2], []).append(e[3] if len(e) > 3 else "?")
            allowed = [[f"{c}{i}" for i in range(3)] for c in "efghn"]
            single = [["e0"], ["rd0"]]
            got_ = sorted(bufs.values())
            good = bool(bufs) and all(x != y for x, y in zip(got_, got_[1:])) and all(x in (allowed if many or x[0].startswith("n") else single) for x in bufs.values())
            ctx.obligation(good, f"batch:{nm}", f"{nm} puts {sorted(bufs.values())} into {len(bufs)} buffers for a batch of three; expected every element once, in order")
            got += 1
        ctx.obligation(got > 0, f"writes:{nm}", f"{nm} never finishes")
        ctx.obligation(not R.bad, f"order:{nm}", "; ".join(m for m, _ in R.bad.values()))
        ctx.count("batch_writers" if not b.implselfadt else "queue_writers")

def reader(ctx, P, fid):
    b = P.bodies[fid]; nm = fid.split("::", 1)[1]
    argv = {a: C(3) for a, ty in params(b) if ty == "usize"}
    ctx.obligation(len(argv) == 1, f"anchor:count:{nm}", f"{nm} has no element count")
    R = Batch(P, ()); I, outs = run(P, fid, R, argv=argv)
    ctx.funcs |= set(I.funcs); got = 0
    for s, v in outs:
        v = dv(I, s, v)
        if not is_ok(v): continue
        got += 1
        lst = dv(I, s, dict(v.f)[0]) if v.k == "s" else v
        xs = [R.t(I, s, x) for _, x in lst.f] if lst.k == "l" else None
        ctx.obligation(xs == ["rd0", "rd1", "rd2"], f"list:{nm}", f"{nm} returns {xs} for three elements; expected them in the order they were read")
        ctx.obligation(R.reads(s) == 3, f"number:{nm}", f"{nm} reads {R.reads(s)} elements where three were asked for")
        pre = [p for p, t in s.ts[EXT][0] if t and p[0] == "teq" and "rem0" in p and not any(re.fullmatch(r"#\d+", str(x)) for x in p[1:])]
        ctx.obligation((("teq", "#0", "rem3"), True) in s.ts[EXT][0] or bool(pre), f"leftover:{nm}", f"{nm} accepts a message with bytes left over")
    ctx.obligation(got > 0, f"reads:{nm}", f"{nm} never succeeds")
    ctx.count("batch_readers")

class Pack(Batch):
    """runs with two-bit words: where does every bit of every element end up"""
    def __init__(self, P): super().__init__(P, ("-",)); self.chunk = set()
    def on_def(self, I, x): return C(2) if str(x.get("def", "")).endswith(("RingImpl::K", "IntRing2k::K")) else None
    def symbol(self, I, st, f, args):
        n, np = f.name, f.np
        if n == "chunks" and len(args) == 2:
            xs = fixedl(I, st, args[0]); k = dv(I, st, args[1])
            if xs is not None and k.k == "c" and isinstance(k.a, int) and k.a > 0:
                self.chunk.add(k.a)
                return [(st, models_fx([COLL(None, _E, dict(enumerate(xs[j:j + k.a]))) for j in range(0, len(xs), k.a)]))]
        if n == "from_elem" and len(args) == 2 and dv(I, st, args[1]) == C(2): return [(st, COLL(None, _E, dict(enumerate([dv(I, st, args[0])] * 2))))]
        if n in ("to_vec", "to_owned", "clone", "into_iter", "into", "from", "convert") and len(args) == 1:
            a = dv(I, st, args[0])
            if n not in ("into_iter",) and (a.k in ("o", "c", "p") or n in ("to_vec", "to_owned", "clone") and fixedl(I, st, a) is not None): return [(st, self.bit(I, st, a))]
            if n in ("clone", "to_owned") and a.k == "s": return [(st, a)]
        if n in ("as_", "to_sharetype", "from_sharetype", "to_verificationtype") and len(args) == 1: return [(st, dv(I, st, args[0]))]
        if n in ("zero", "default") and not args and "PhantomData" not in np and not np.startswith(("std::", "core::")): return [(st, o("#0"))]
        if n == "to_bits" and len(args) == 1 and dv(I, st, args[0]).k == "o": return [(st, COLL(None, _E, {k: o(node("and", node("shr", self.t(I, st, args[0]), f"#{k}"), "#1")) for k in range(2)}))]
        if n == "one" and not args: return [(st, C(1))]
        if n in ("bitor", "bitxor", "bitor_assign", "bitxor_assign") and len(args) == 2 and all(dv(I, st, a).k in ("o", "c", "p") for a in args):
            r = self.v(cup(self.t(I, st, args[0]), self.t(I, st, args[1])))
            if not n.endswith("assign"): return [(st, r)]
            for loc in final(I, st, args[0]): I.store(st, loc, r)
            return [(st, UNIT)]
        if n in ("get_bit",) and len(args) == 2: return [(st, o(node("and", node("shr", self.t(I, st, args[0]), self.t(I, st, args[1])), "#1")))]
        return super().symbol(I, st, f, args)
    def bit(self, I, st, v):
        """a comparison of one bit with one is that bit"""
        if v.k == "p":
            p = v.a; neg = False
            while p[0] == "not": p = p[1]; neg = not neg
            if p[0] == "eqc" and p[2] in (0, 1) and len(p[1]) == 1:
                (b, fl), = p[1]
                return o(b if (p[2] == 1) != neg and not fl else f"!{b}")
            if p[0] == "teq":
                for a, b in ((p[1], p[2]), (p[2], p[1])):
                    if a in ("#0", "#1"): return o(b if (a == "#1") != neg else f"!{b}")
        return v
    def t(self, I, st, v):
        v = dv(I, st, v)
        while v.k == "s" and v.b != "clo" and v.f and len(v.f) == 1: v = dv(I, st, v.f[0][1])
        return super().t(I, st, self.bit(I, st, v) if v.k == "p" else v)

def fixedl(I, st, v):
    from posit import fixed, isfx, items
    v = dv(I, st, v)
    return items(v) if isfx(v) else fixed(I, st, v)

def cup(*ts):
    """the union of single bits put at their places: {(source, bit of the source, place)} as a term"""
    parts = []
    for t in ts:
        x = _T.get(t)
        parts += x[1] if x and x[0] == "cup" else [t] if t != "#0" else []
    return raw("cup", *sorted(parts)) if len(parts) > 1 else parts[0] if parts else "#0"

def bits(t):
    """{(source, bit, place)}; None if a part is something else"""
    x = _T.get(t); out = []
    for p in (x[1] if x and x[0] == "cup" else [t] if t != "#0" else []):
        place = 0; y = _T.get(p)
        while y and y[0] == "shl":
            k = num(y[1][1])
            if k is None: return None
            place += k; p = y[1][0]; y = _T.get(p)
        bit = None
        if y and y[0] == "and" and "#1" in y[1] and len(y[1]) == 2:
            bit = 0; p = [q for q in y[1] if q != "#1"][0]; y = _T.get(p)
            while y and y[0] == "shr":
                k = num(y[1][1])
                if k is None: return None
                bit += k; p = y[1][0]; y = _T.get(p)
        out.append((p, bit, place))
    return sorted(out, key=str)

def shares(P, adt, n):
    fs = [f for f in P.adts[adt]["variants"][0]["f"] if "Phantom" not in f[1]]
    return COLL(None, _E, {j: STR(adt, None, {i: o(f"e{j}.{f[0]}") for i, f in enumerate(fs)}) for j in range(n)}), [f[0] for f in fs]

def words(I, st, R, v):
    """[[bits of every component] per word] of a list of words"""
    xs = fixedl(I, st, v)
    if xs is None: return None
    out = []
    for x in xs:
        x = dv(I, st, x)
        if x.k == "s" and x.f: out.append([bits(R.t(I, st, y)) for _, y in x.f if not (dv(I, st, y).k == "s" and "Phantom" in str(dv(I, st, y).a))])
        else: out.append([bits(R.t(I, st, x))])
    return out

def judge(ctx, P, key, fid, want, argv, get=lambda v: v, adt=None, chunk=None):
    R = Pack(P); I, outs = run(P, fid, R, argv=argv, more=(adt,) if adt else ())
    ctx.funcs |= set(I.funcs)
    ctx.obligation(bool(outs), f"runs:{key}", f"{key} never finishes")
    for s, v in outs:
        got = get(I, s, R, v)
        ctx.obligation(got == want, f"layout:{key}", f"{key} puts bits at {str(got)[:220]}; expected {str(want)[:220]} (source, its bit, place)")
    ctx.obligation(not R.bad, f"order:{key}", "; ".join(m for m, _ in R.bad.values()))
    if chunk: ctx.obligation(R.chunk == {chunk}, f"chunk:{key}", f"{key} splits into words of {sorted(R.chunk)} bits, the word has {chunk}")
    ctx.count("bit_layouts")

def packs(ctx, P):
    """bits gathered into words: every bit exactly once, at its own place, component by component"""
    adts = [a for a in P.adts if a.endswith("::Share")]
    of = lambda b: next((a for a in adts for _, ty in params(b) if re.search(r"\b" + re.escape(a.split("::", 1)[1]) + "<", ty)), None)
    n = 0
    for fid, b in sorted(P.bodies.items()):
        ps = [p for p in params(b) if p[0] != "self"]; ret = b.locals[0][0]
        if "{closure" in fid or len(ps) != 1: continue
        key = fid.split("::", 1)[1].replace("{impl#1}::", ""); a = of(b)
        isbits = a and re.fullmatch(r"std::vec::Vec<[\w:]*Share<types::bit::Bit>>", ps[0][1])
        if isbits and re.fullmatch(r"std::vec::Vec<[\w:]*Share<\w+>>", ret):
            el, cs = shares(P, a, 3)
            want = [[[(f"e{j}.{c}", None, k) for k, j in enumerate(g)] for c in cs] for g in ((0, 1), (2,))]
            judge(ctx, P, key, fid, want, {ps[0][0]: el}, lambda I, s, R, v: words(I, s, R, v), a); n += 1
        if fid.endswith("utils::transpose_shared_input"):
            el, cs = shares(P, a, 3)
            want = [[[(f"e{j}.{c}", k, j) for j in range(3)] for c in cs] for k in range(2)]
            judge(ctx, P, key, fid, want, {ps[0][0]: el}, lambda I, s, R, v: words(I, s, R, v), a)
        if fid.endswith("utils::transpose_pack_u128"):
            el, cs = shares(P, a, 3)
            want = [[[[(f"e{j}.{c}", k, j) for j in range(3)] for c in cs]] for k in range(2)]
            judge(ctx, P, key, fid, want, {ps[0][0]: el}, lambda I, s, R, v: [words(I, s, R, x) for x in fixedl(I, s, v) or ()], a, 128)
    ctx.obligation(n >= 4, "floor:pack", f"only {n} functions that pack shared bits were found, 4 expected")
    tr = P.trait_named("RingImpl")
    for i in [i for i in P.impls if i.get("trait") == tr]:
        have = {it["n"]: it["id"] for it in i["items"] if it["id"] in P.bodies}
        adt = next(iter(P.bodies[x].implselfadt for x in have.values()))
        nm = adt.split("::")[-1]
        if ctx.obligation("to_bits" in have and "from_bits" in have, f"anchor:bits:{nm}", f"{nm} has no conversion to and from bits"):
            me = STR(adt, None, {0: o("e0")})
            judge(ctx, P, f"{nm}::to_bits", have["to_bits"], [[[("e0", k, 0)]] for k in range(2)], {"*self": me}, lambda I, s, R, v: words(I, s, R, v), adt)
            for m in (1, 2, 3):
                bl = COLL(None, _E, {j: STR(adt, None, {0: o(f"b{j}")}) for j in range(m)})
                pn = params(P.bodies[have["from_bits"]])[0][0]
                def get(I, s, R, v, m=m):
                    v = dv(I, s, v)
                    if not is_ok(v): return "refused"
                    return words(I, s, R, COLL(None, _E, {0: dict(v.f)[0]}))
                want = "refused" if m != 2 else [[[("b0", None, 0), ("b1", None, 1)]]]
                judge(ctx, P, f"{nm}::from_bits", have["from_bits"], want, {pn: bl}, get, adt)
    for fid, b in P.bodies.items():
        if fid.endswith("::to_bits") and b.implselfadt in adts:
            fs = [f for f in P.adts[b.implselfadt]["variants"][0]["f"] if "Phantom" not in f[1]]
            me = STR(b.implselfadt, None, {i: o(f"e0.{f[0]}") for i, f in enumerate(fs)})
            judge(ctx, P, fid.split("::", 1)[1].replace("{impl#1}::", ""), fid, [[[(f"e0.{f[0]}", k, 0)] for f in fs] for k in range(2)], {"*self": me}, lambda I, s, R, v: words(I, s, R, v), b.implselfadt)

def c15(ctx):
    P = ctx.prog()
    rules_cover._P = P
    elems(ctx, P); wrapper(ctx, P); lists(ctx, P); packs(ctx, P)
    for k, n in (("element_types", 6), ("readers", 18), ("wrappers", 1), ("batch_readers", 1), ("batch_writers", 2), ("queue_writers", 9), ("bit_layouts", 11)):
        ctx.obligation(ctx.cov.get(k, 0) >= n, f"floor:{k}", f"only {ctx.cov.get(k, 0)} {k} were analysed, {n} expected")
