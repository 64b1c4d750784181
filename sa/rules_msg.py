"""C12: what a peer sends is length-checked before it is taken apart, and never makes the receiver panic."""
import lint, rules_cover
from rules_cover import *
from absint import _E, V, O, PRED, C
from models import RES, OPT, dv, partial_range
import re

WIDTH = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16}
GET = re.compile(r"^get_[uif](8|16|32|64|128)(_le|_be|_ne)?$")
EQ, GE = "eq", "ge"

PFX = ("recv:", "deser:")       # what counts as peer data; a decoder analysed by itself takes its argument as such

def raws(L):
    """bases of peer bytes of which this value is the whole (no part, no length)"""
    return {b for b, f in L if b.startswith(PFX) and not f & {"l", "s", "r", "x"}}

def whole(L):
    """bases whose entire content (possibly hashed) this value is"""
    if len(L) != 1 and any(f != frozenset("h") for _, f in L): return set()     # computed from it, together with other data
    return {b for b, f in L if b.startswith(PFX) and f <= frozenset("h")}

def lens(L):
    """bases of peer data of which this value is the length"""
    return {b for b, f in L if b.startswith(PFX) and f == frozenset("l")}

def tainted(L): return {b for b, f in L if b.startswith(PFX)}

# ext: (pending bases, {(base, EQ|GE)}, {(base, minimal length)}, the peer data the last branch looked at)
class Msg(Cover):
    nonempty = False
    def __init__(self):
        super().__init__(); self.viol = {}; self.ops = set(); self.checks = set(); self.seen = set(); self.decoded = set()
    def init(self): return mk(ext=(_E, _E, _E, None))
    def on_send(self, I, st, ts, peers, L, site): return ts
    def received(self, ts, nb):
        pe, ck, mn, last = ts[EXT]
        self.seen |= nb
        return upd(ts, ext=(pe | nb, frozenset(x for x in ck if x[0] not in nb), frozenset(x for x in mn if x[0] not in nb), None))
    def bad(self, I, kind, what):
        self.viol.setdefault((kind, I.where().split(" ")[0], what), I.chain())
    def learn(self, ts, b, how, n=None):
        pe, ck, mn, last = ts[EXT]
        ck = ck | {(b, GE)} | ({(b, EQ)} if how == EQ else _E)
        if how == EQ: pe = pe - {b}
        if n is not None:
            old = max([k for x, k in mn if x == b], default=0)
            if n > old: mn = frozenset(x for x in mn if x[0] != b) | {(b, n)}
        return upd(ts, ext=(pe, ck, mn, last))
    def on_branch(self, I, st, p, truth):
        ts = st.ts; k = p[0]
        labs = p[1] | (p[2] if isinstance(p[2], frozenset) else _E)
        t = tainted(labs)
        if not t: return [upd(ts, ext=ts[EXT][:3] + (None,))] if ts[EXT][3] else None
        a = lens(p[1]); b = lens(p[2]) if isinstance(p[2], frozenset) else set()
        content = whole(p[1]) | (whole(p[2]) if isinstance(p[2], frozenset) else set())
        self.checks.add(I.where())
        if k == "eq" and truth:
            for x in a | b | content: ts = self.learn(ts, x, EQ)
        elif k == "eqc" and truth:
            for x in a: ts = self.learn(ts, x, EQ, p[2] if isinstance(p[2], int) else None)
        elif k == "empty":
            for x in a:
                if truth: ts = self.learn(ts, x, EQ)
                else: ts = self.learn(ts, x, GE, 1) if x.startswith("arg:") else ts
        elif k == "ord":
            op, ca, cb = p[3], p[4], p[5]
            for x, o, c in [(x, op, cb) for x in a] + [(x, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], ca) for x in b]:
                # o: relation of the length to the other side
                if not truth: o = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[o]
                if o in ("Ge", "Gt"): ts = self.learn(ts, x, GE, c + (o == "Gt") if isinstance(c, int) else None)
        return [upd(ts, ext=ts[EXT][:3] + ((k, frozenset(t)),))]
    def on_variant(self, I, st, cur, idx):
        if cur is None: return None
        t = tainted(I.labs(st, cur))
        return [upd(st.ts, ext=st.ts[EXT][:3] + (("variant", frozenset(t)) if t else None,))]
    def on_diverge(self, I, st, what, args):
        last = st.ts[EXT][3]
        if last: self.bad(I, "panic", f"{what.split('::')[-1]} after a test of peer data")
    def on_assert(self, I, st, body, fr, t):
        if t[4] == "overflow": return
        # drawn indices (flag r) and lengths of collections built here are bounded by what this party knows
        L = I.labs(st, I.opv(st, fr, t[1]))
        x = {b for b, f in L if b.startswith(PFX) and "r" not in f and (f == frozenset("l") and not self.known(st, b, GE) or "l" not in f)}
        if t[4] == "bounds" and x: self.bad(I, "index", "index or length taken from peer data")
        if t[4] == "div0" and x: self.bad(I, "div", "division by a number taken from peer data")
    def known(self, st, b, how): return (b, how) in st.ts[EXT][1]
    def need(self, I, st, v, how, what):
        """taking apart the raw bytes v"""
        v = dv(I, st, v)
        if v.k == "l": return
        for b in raws(I.labs(st, v)) if v.k == "o" else ():
            self.ops.add((I.where(), what))
            if not self.known(st, b, how):
                self.bad(I, "unchecked", f"{what} on a message whose length was not compared with the expected one" if how == EQ else f"{what} on a message whose length was not checked")
    def on_unwrap(self, I, st, f, v):
        x = dv(I, st, v)
        L = I.labs(st, x)
        if x.k == "s" and x.b is not None:
            if any(b == "decode" for b, _ in L): self.bad(I, "unwrap", f"{f.name} of a decoded peer message")
            return
        if tainted(L):
            self.ops.add((I.where(), "unwrap")); self.bad(I, "unwrap", f"{f.name} of a result computed from peer data")
    def on_call(self, I, st, f, args):
        n = f.name
        if n in ("from_bytes_mut", "from_bytes", "take_from_bytes_mut") and args and I.resolve(st, f, args) is None or \
           n in ("from_bytes_mut", "from_bytes", "take_from_bytes_mut") and self.opaque(f.raw.get("rid") or f.np):
            L = I.labs(st, args[0]); a = st; b = st.fork()
            last = st.ts[EXT][3]
            for x in raws(L):
                self.decoded.add(I.where())
                if n != "take_from_bytes_mut": a.ts = self.learn(a.ts, x, EQ)
                elif last and last[0] == "empty" and x in last[1] and not self.known(st, x, EQ):
                    self.bad(I, "count", "as many elements are decoded as the peer sent")
            return [(a, ok(O(frozenset((x, fl | {"s"}) for x, fl in L)))), (b, err(O(frozenset([lab("decode")]))))]
        if n in ("deserialize", "deserialize_from") and args and "bincode" in f.np:
            L = I.labs(st, args[0]); a = st; b = st.fork()
            for x in raws(L): a.ts = self.learn(a.ts, x, EQ)
            k = f"deser:{I.site()}"
            ty = (f.raw.get("ga") or [""])[-1].split("<")[0]
            ad = next((x for x in rules_cover._P.adts.values() if x["p"] == ty and len(x["variants"]) == 1), None)
            pe, ck, mn, last = a.ts[EXT]
            ck = frozenset(x for x in ck if not x[0].startswith(k))
            self.decoded.add(I.where())
            if ad is None: v = O(frozenset([(k, _E)])); new = {k}
            else:
                # every vector in the decoded structure has its own length
                new = set(); fs = []
                for i, fd in enumerate(ad["variants"][0]["f"]):
                    vec = "Vec<" in fd[1] or "Bytes" in fd[1]
                    if vec: new.add(f"{k}.{fd[0]}"); self.recv_desc[f"{k}.{fd[0]}"] = (fd[0], I.chain())
                    fs.append((i, O(frozenset([(f"{k}.{fd[0]}", _E if vec else frozenset("s"))]))))
                v = V("s", _E, ad["id"], None, tuple(fs))
            self.seen |= new
            a.ts = upd(a.ts, ext=(pe | new, ck, mn, last))
            return [(a, ok(v)), (b, err(O(frozenset([lab("decode")]))))]
        if n in ("len", "remaining", "is_empty") and args:
            v = dv(I, st, args[0])
            if v.k == "l" or tainted(I.labs(st, v)) and not raws(I.labs(st, v)): return [(st, O())] if n != "is_empty" else [(st, PRED(("unk",)))]
        if "VecShareTrait" in f.np and "Result<" in I.dest_ty and I.resolve(st, f, args) is None:
            # local operations on two vectors fail for different lengths only
            L = frozenset().union(*[I.labs(st, a) for a in args])
            return [(st, ok(O(L))), (st.fork(), err(O(frozenset([lab("length")]))))]
        if not args: return None
        if GET.match(n):
            w = WIDTH[GET.match(n).group(1)]
            v = dv(I, st, args[0])
            for b in raws(I.labs(st, v)):
                self.ops.add((I.where(), n))
                mn = max([k for x, k in st.ts[EXT][2] if x == b], default=0)
                if mn < w: self.bad(I, "short", f"{n} reads {w} bytes of a message known to have only {mn}")
                else: st.ts = upd(st.ts, ext=(st.ts[EXT][0], st.ts[EXT][1], frozenset(x for x in st.ts[EXT][2] if x[0] != b) | {(b, mn - w)}, st.ts[EXT][3]))
            return None
        if n in ("copy_to_slice", "split_to", "split_off", "advance", "get_uint", "get_int"):
            self.need(I, st, args[0], GE, n)
        elif n in ("copy_from_slice", "clone_from_slice") and len(args) > 1:
            self.need(I, st, args[1], EQ, n)
        elif n in ("index", "index_mut") and len(args) > 1:
            if partial_range(args[1]) is None and args[1].k == "s": pass      # full range
            else: self.need(I, st, args[0], GE, "indexing")
        elif n in ("split_at", "chunks", "remove", "swap_remove", "insert", "drain", "truncate_exact", "try_into") and n in ("split_at", "remove", "swap_remove", "drain"):
            self.need(I, st, args[0], GE, n)
        return None

def msg_work(item):
    eng, en, party = item
    r = Msg()
    try: I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET)
    except Budget as e: return dict(eng=eng, name=en.name, over=str(e))
    pend = set()
    for s, v in outs:
        if is_ok(v): pend |= s.ts[EXT][0]
    return dict(eng=eng, name=en.name, over=None, viol=r.viol, ops=r.ops, checks=r.checks, seen=r.seen, pend=pend, desc=r.recv_desc, decoded=r.decoded, funcs=set(I.funcs), nouts=len(outs))

class Decode(Msg):
    """a decoder by itself: its argument is what a peer sent"""
    def opaque(self, fid): return False
    def init(self): return mk(ext=(frozenset(["arg:bytes"]), _E, _E, None))

def decoder(ctx, P, b, nm):
    global PFX
    names = {v[1][0]: v[0] for v in b.raw["vars"] if len(v[1]) == 1}
    arg = f"arg:{names.get(1, 'a0')}" if nm != "next" else "self"
    r = Decode(); r.init = lambda: mk(ext=(frozenset([arg]), _E, _E, None))
    who = (b.implselfadt or str(b.raw.get("implself") or "")).split("::")[-1]
    name = f"{who}::{nm}" if who else nm
    old = PFX; PFX = (arg,)
    try: I, outs = run_entry(P, r, Entry(b.id, nm, b.implselfadt or "", None), 0, budget=BUDGET)
    except Budget as e:
        ctx.violation(f"budget:{name}", f"{name}: state budget exceeded ({e})"); return
    finally: PFX = old
    ctx.funcs |= {shortfn(x) for x in I.funcs}
    ctx.count("decoder_reads", len(r.ops))
    for (k, w, what), chain in r.viol.items(): ctx.violation(f"{k}:{name}:{what}", f"{name}: {what}", chain)
    if nm == "next": return
    if nm != "take_from_bytes_mut":
        ok_ = any(is_ok(v) for _, v in outs)
        ctx.obligation(ok_ and not any(arg in s.ts[EXT][0] for s, v in outs if is_ok(v)), f"exact:{name}", f"{name} can succeed on a message whose length was not compared with the expected one")
    else: ctx.obligation(bool(outs), f"returns:{name}", f"{name} never returns")

def c12(ctx):
    rules_cover._P = P = ctx.prog()
    items = []
    for e in engines(P):
        for en in entries(P, e):
            for p in (0, 1, 2): items.append((e, en, p))
    items.sort(key=lambda x: -len(P.bodies[x[1].fid].blocks) - (1000 if x[1].name == "verify" else 0))
    ops = set(); msgs = set(); dec = set(); seenv = set()
    for r in lint.pmap(msg_work, items):
        name = ent(r)
        if r["over"]: ctx.violation(f"budget:{name}", f"{name}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= {shortfn(x) for x in r["funcs"]}; ctx.count("entry_runs"); ctx.count("paths", r["nouts"])
        ops |= r["ops"]; dec |= r["decoded"]
        for (k, w, what), chain in r["viol"].items():
            if (k, w, what) in seenv: continue
            seenv.add((k, w, what))
            ctx.violation(f"{k}:{w}:{what}", f"{w}: {what} (reached from {name})", chain)
        for b in r["seen"]:
            nm = base_name(b, r["desc"])
            msgs.add(nm)
            ctx.obligation(b not in r["pend"], f"length:{name}:{nm}", f"{name} can succeed although the length of the message {nm} was never compared with an expected one", where_of(r, b))
    ctx.count("panicking_operations_on_peer_data", len(ops)); ctx.count("messages", len(msgs)); ctx.count("decoding_sites", len(dec))
    for w, o in sorted(ops)[:8]: ctx.sample(f"{w}: {o}")
    # the decoders themselves
    n = 0
    for b in P.bodies.values():
        nm = b.id.split("::")[-1]
        if nm == "next" and b.implselfadt in P.adts and any("Bytes" in f[1] for f in P.adts[b.implselfadt]["variants"][0]["f"]):
            # an iterator over the bytes of a message
            decoder(ctx, P, b, nm); continue
        if nm not in ("from_bytes_mut", "from_bytes", "take_from_bytes_mut", "bytes_to_seed") or "Bytes" not in b.locals[1][0]: continue
        n += 1
        decoder(ctx, P, b, nm)
    ctx.count("decoders", n)
    ctx.obligation(n >= 19, "vacuous:decoders", f"only {n} decoders of peer data found")
    ctx.obligation(len(ops) >= 10 and len(dec) >= 6 and len(msgs) >= 20, "vacuous:messages", f"only {len(ops)} operations, {len(dec)} decoding sites and {len(msgs)} messages seen")
    ctx.assume.append("after the length of a message has been compared with the expected one, the byte ranges taken from it are assumed to lie within that length (wrong ranges fail in every honest run)")
