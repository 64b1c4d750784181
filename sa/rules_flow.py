"""C17: which messages are exchanged does not depend on secret data."""
import re
import lint, rules_cover
from rules_cover import sh
from cover import *
from absint import _E
from models import dv
import facts

INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "bool"}
SIZING = {"take": 1, "skip": 1, "step_by": 1, "truncate": 1, "resize": 1, "split_off": 1, "split_to": 1, "split_at": 1, "chunks": 1, "chunks_exact": 1, "windows": 1,
          "repeat_n": 1, "from_elem": 1, "advance": 1, "nth": 1, "drain": 1, "index": 1, "index_mut": 1, "copy_within": 1, "set_len": 1, "repeat": 1}
SELECT = ("retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key", "partition", "take_while", "skip_while", "map_while", "chunk_by", "group_by", "split", "unique", "extract_if")

class Flow(Cover):
    """ext = {(branch, side)} for the branches on secret data that were passed"""
    forks = True
    def __init__(self, public):
        super().__init__(); self.public = public; self.sites = {}; self.size = {}; self.peers = {}; self.nsend = 0; self.nb = 0
    def init(self): return mk(ext=_E)
    def secret(self, L):
        """labels of secrets: private data of shares, masks, keys and received shares; lengths, sizes and joint coins are public"""
        joint = any(b.startswith("recv:") and "r" in f for b, f in L)
        return frozenset(b for b, f in L if "l" not in f and b.startswith(("arg:", "self.", "recv:", "mpc:")) and b not in self.public
                         and not (joint and "r" in f))
    def sized(self, I, st, f, v, what):
        S = self.secret(I.labs(st, v))
        if S: self.size.setdefault((I.where(), what), (S, I.chain()))
    def on_call(self, I, st, f, args):
        n = f.name
        if n in SIZING and len(args) > SIZING[n] and not ("alloc::" in f.np and n == "index" and False):
            a = dv(I, st, args[SIZING[n]])
            if n not in ("index", "index_mut", "drain") or (a.k == "s" and "Range" in str(a.a)):
                if not (n == "take" and "mem::" in f.np) and not (n == "repeat" and "iter" in f.np): self.sized(I, st, f, a, n)
        if args and args[0].k == "s" and "Range" in str(args[0].a) and n in ("into_iter", "map", "for_each", "rev", "zip", "enumerate"): self.sized(I, st, f, args[0], "loop bound")
        if n in SELECT and args and not (n == "split" and "Bytes" in f.np) and n != "unique":
            self.sized(I, st, f, args[0], n) if n in ("retain", "retain_mut", "dedup", "dedup_by", "dedup_by_key", "partition", "map_while", "chunk_by", "extract_if") else None
        if "MpcTrait" in f.np and I.resolve(st, f, args) is None: return self.primitive(I, st, f, args)
        return None
    def primitive(self, I, st, f, args):
        """an operation of an engine that is a parameter: openings are public, everything else is shared"""
        ret = I.P.traits.get(f.raw.get("tr"), {})
        r = O(_E) if f.name.startswith("open") else O(frozenset([lab("mpc:" + f.name)]))
        self.nsend += 1
        if f.name in ("add", "sub", "add_const", "sub_const", "mul_const", "share", "get_id"): return [(st, r)]
        return [(st, ok(r)), (st.fork(), err(O(frozenset([lab("ioerr")]))))]
    def on_filter(self, I, st, b):
        S = self.secret(I.labs(st, b))
        if S: self.size.setdefault((I.where(), "filter"), (S, I.chain()))
    def on_net(self, I, st, op, site, args):
        self.nsend += 1
        for a in args[1:2]:
            if "id" not in op and op in ("send", "receive"):
                S = self.secret(I.labs(st, a))
                if S and a.k != "c": self.peers.setdefault(I.where(), (S, I.chain()))
        return super().on_net(I, st, op, site, args)
    def on_fork(self, I, st, fr, t, outs):
        v = I.opv(st, fr, t[1])
        if v.k == "d":
            L = _E
            for loc in v.a: L |= I.deep(st, I.load(st, loc)).lab
        else: L = I.labs(st, v)
        self.nb += 1
        S = self.secret(L)
        if not S: return outs
        b = tuple(I.stack)
        self.sites.setdefault(b, (I.where(), S, I.chain()))
        for bb, s2 in outs: s2.ts = upd(s2.ts, ext=s2.ts[EXT] | {(b, bb)})
        return outs

def public_of(P, fid, eng):
    """labels that are public by their type: integers and masks among the arguments, integers among the engine's fields"""
    out = set()
    b = P.bodies[fid]
    for v in b.raw["vars"]:
        if len(v[1]) == 1 and 1 <= v[1][0] <= b.argc:
            ty = b.locals[v[1][0]][0].lstrip("&").replace("mut ", "")
            if ty in INTS or "IrisCodeArray" in ty or ty in ("std::vec::Vec<usize>", "[usize]"): out.add("arg:" + v[0])
    def walk(adt, path, d):
        a = P.adts.get(adt)
        if not a or d > 4 or len(a["variants"]) != 1: return
        for f in a["variants"][0]["f"]:
            if f[1] in INTS or "PhantomData" in f[1]: out.add(f"{path}.{f[0]}")
            if f[2]: walk(f[2], f"{path}.{f[0]}", d + 1)
    if eng: walk(eng, "self", 0)
    return frozenset(out)

def work(item):
    fid, name, eng, party, public = item
    P = rules_cover._P
    r = Flow(public)
    try: I, outs = run_entry(P, r, Entry(fid, name, eng, None), party, budget=3000000)
    except Budget as e: return dict(item=item, over=str(e))
    sides = {}; oks = 0
    for s, v in outs:
        if not is_ok(v): continue
        oks += 1
        for b, bb in s.ts[EXT]: sides.setdefault(b, set()).add(bb)
    bad = [r.sites[b] for b, x in sides.items() if len(x) > 1]
    good = [r.sites[b][:2] for b in r.sites if len(sides.get(b, ())) <= 1]
    return dict(item=item, over=None, bad=bad, good=good, size=r.size, peers=r.peers, funcs=set(I.funcs), oks=oks, nsend=r.nsend, nb=r.nb)

def short(S): return sorted({re.sub(r"#.*", "", x) for x in S})[:3]

def c17(ctx):
    rules_cover._P = P = ctx.prog("iris_mpc")
    E = [e for e in engines(P) if engines(P)[e]["malicious"] or engines(P)[e]["semi"]]
    ctx.obligation(len(E) >= 4, "anchor:engines", f"expected four networked engines, found {sorted(E)}")
    items = []
    for e in E:
        for en in entries(P, e):
            if en.name in ("share", "print_connection_stats"): continue
            for p in (0, 1, 2): items.append((en.fid, en.name, e, p, public_of(P, en.fid, e)))
    iris = [b for b in P.bodies.values() if "::iris::" in b.id and "closure" not in b.id and b.raw.get("implselfadt", b.implselfadt) and b.implselfadt not in E]
    iris = [b for b in iris if any(b.locals[i + 1][0].startswith("&mut ") for i in range(b.argc))]
    for b in iris: items.append((b.id, b.name, b.implselfadt, None, public_of(P, b.id, b.implselfadt)))
    ctx.obligation(len(iris) >= 4, "anchor:queries", "the operations of the query layer were not found")
    items.sort(key=lambda x: -len(P.bodies[x[0]].blocks) - (1000 if x[1] == "verify" else 0))
    ns = 0
    for r in lint.pmap(work, items):
        fid, name, eng, party, _ = r["item"]; nm = f"{sh(eng)}::{name}"
        if r["over"]:
            ctx.violation(f"budget:{nm}", f"{nm}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("success_states", r["oks"]); ctx.count("branches_visited", r["nb"]); ns += r["nsend"]
        for w, S, chain in r["bad"]:
            ctx.violation(f"branch:{w}", f"{nm}: {w} branches on secret data ({short(S)}) and can succeed on both sides", chain)
        for w, S in r["good"]:
            ctx.obligation(True, f"branch:{w}", ""); ctx.sample(f"{w}: branch on {short(S)} succeeds on one side only")
        for (w, what), (S, chain) in r["size"].items():
            ctx.violation(f"size:{w}:{what}", f"{nm}: {w} derives a number of elements ({what}) from secret data ({short(S)})", chain)
        for w, (S, chain) in r["peers"].items():
            ctx.violation(f"peer:{w}", f"{nm}: {w} chooses the peer of a message from secret data ({short(S)})", chain)
        if not (r["bad"] or r["size"] or r["peers"]): ctx.obligation(True, f"entry:{nm}", "")
    ctx.count("network_or_engine_calls", ns)
    ctx.obligation(ns > 200, "vacuous:sends", f"only {ns} exchanges of messages were analysed")
    ctx.assume.append("public: lengths, integers passed as parameters or kept as fields (sizes, ids), iris masks, jointly tossed coins, opened values; secret: all other parameters, fields and received data")
    ctx.assume.append("operations of the element types (types::, dzkp polynomials) take no part in the message pattern: the width of a serialised element is C15")
