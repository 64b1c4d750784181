"""C14: vectors of different lengths are refused before anything is sent."""
import lint, rules_cover
from rules_cover import *
from absint import _E, V, O
from models import RES
import re

VEC = re.compile(r"^&?(mut )?(std::vec::Vec<|\[|.*VecShare\b|.*::VecShare<)")
def vec_type(ty):
    ty = ty.lstrip("&").replace("mut ", "", 1) if ty.startswith("&mut ") else ty.lstrip("&")
    if ty.startswith("std::vec::Vec<"): return ty[len("std::vec::Vec<"):-1]
    if ty.startswith("[") and ";" not in ty: return ty[1:-1]
    if re.search(r"VecShare(<.*>)?$", ty): return "share"
    return None

def argv_for(P, fid):
    """{argument: value} and {argument: nested?} for the vector arguments of a function"""
    b = P.bodies[fid]; names = {}
    for v in b.raw["vars"]:
        if len(v[1]) == 1 and 1 <= v[1][0] <= b.argc: names[v[1][0]] = v[0]
    argv = {}; nested = {}
    for i in range(b.argc):
        nm = names.get(i + 1, f"a{i}"); ty = b.locals[i + 1][0]
        el = vec_type(ty)
        if el is None: continue
        inner = vec_type(el) is not None
        nested[nm] = inner
        L = lambda x: frozenset([(f"arg:{nm}{x}", _E)])
        def val(el, x): return O(L(x)) if el in (None, "share") else COLL(val(vec_type(el), x + ".*"), L(x))
        argv[nm] = val(el, "")
    return argv, nested

def lens(L):
    """the single argument (level) whose length this is; elements also carry the labels of their collection"""
    s = {b for b, f in L if b.startswith("arg:")}        # generators that filled further elements do not matter
    if not s or any(f != frozenset("l") for b, f in L) or any(b.startswith("recv:") for b, f in L): return None
    m = max(s, key=len)
    return m if all(m == x or m.startswith(x + ".*") for x in s) else None

class Len(Cover):
    def __init__(self, need, levels=None):
        super().__init__(); self.need = need; self.levels = levels; self.early = {}; self.late = {}; self.panics = {}; self.nets = set(); self.seen = set()
    def init(self): return mk(ext=(_E, _E))
    def on_branch(self, I, st, p, truth):
        if p[0] == "eq": a, b = lens(p[1]), lens(p[2])
        elif p[0] == "eqc": a, b = lens(p[1]), f"#{p[2]}"
        else: return None
        if a is None or b is None or a == b: return None
        if self.levels is not None:
            # a vector built element by element from an argument has that argument's length
            while a not in self.levels and a.endswith(".*"): a = a[:-2]
            while b[0] != "#" and b not in self.levels and b.endswith(".*"): b = b[:-2]
            if a == b or any(x[0] != "#" and x not in self.levels for x in (a, b)): return None
        if p[0] == "eqc" and not (isinstance(p[2], int) and p[2] > 1): return None
        k = frozenset((a, b)); self.seen.add(k)
        ok_, bad = st.ts[EXT]
        if truth: return [upd(st.ts, ext=(ok_ | {k}, bad))]
        if linked(k, ok_): return []
        return [upd(st.ts, ext=(ok_, bad | {k}))]
    def event(self, I, st, what):
        self.nets.add(I.where())
        ok_, bad = st.ts[EXT]
        for k in bad: self.late.setdefault((k, what), I.chain())
        for k in self.need:
            if not linked(k, ok_): self.early.setdefault(k, (what, I.chain()))
    def on_net(self, I, st, op, site, args):
        self.event(I, st, I.where())
        return super().on_net(I, st, op, site, args)
    def on_send(self, I, st, ts, peers, L, site): return ts
    def received(self, ts, nb): return ts
    def on_call(self, I, st, f, args):
        if f.name in ("len", "is_empty") and args:
            v = args[0]; n = 0
            while v.k == "r" and len(v.a) == 1 and n < 5: v = I.load(st, next(iter(v.a))); n += 1
            if v.k == "l" and v.lab and any(b.startswith("arg:") for b, _ in v.lab):
                L = frozenset((b, x | {"l"}) for b, x in v.lab)
                return [(st, O(L))] if f.name == "len" else [(st, PRED(("empty", L, _E, I.where()), L))]
        if f.name in ("chunks", "chunks_exact", "chunks_mut", "windows") and args:
            return [(st, IT(COLL(O(_E), _E)))]                  # the length of a part says nothing about the whole
        if "MpcTrait" in f.np and "std::future::Future" in I.dest_ty and I.models.lookup(I, f) is None:
            k = I.resolve(st, f, args)
            if k is None: self.event(I, st, f"{f.name} in {I.where()}")
        return None
    def on_diverge(self, I, st, what, args):
        for k in st.ts[EXT][1]: self.panics.setdefault((k, what), I.chain())

def linked(k, pairs):
    """are the two lengths connected by passed comparisons?"""
    a, b = tuple(k)
    seen = {a}; todo = [a]
    while todo:
        x = todo.pop()
        for p in pairs:
            if x in p:
                for y in p - {x}:
                    if y not in seen: seen.add(y); todo.append(y)
    return b in seen

# operations whose vector arguments do not simply all have the same length
SPECIAL = {
    "masked_dot_many": lambda n, c: [("arg:b", "arg:masks"), ("arg:a", c), ("arg:b.*", c)],
    "compare_iris_many": lambda n, c: [("arg:b", "arg:mask_b")],
    "iris_in_db": lambda n, c: [("arg:db", "arg:mask_db")],
    "compare_threshold_many": lambda n, c: [("arg:hwds", "arg:mask_lens")],
    "masked_hamming_distance_many": lambda n, c: [],
}

def levels(fid):
    argv, nested = argv_for(rules_cover._P, fid)
    return {f"arg:{a}" for a in nested} | {f"arg:{a}.*" for a in nested if nested[a]}

def required(name, nested, code_size):
    if name in SPECIAL: return [frozenset(x) for x in SPECIAL[name](nested, f"#{code_size}")]
    v = sorted(nested)
    out = [frozenset((f"arg:{v[0]}", f"arg:{x}")) for x in v[1:]]
    nn = [x for x in v if nested[x]]
    out += [frozenset((f"arg:{nn[0]}.*", f"arg:{x}.*")) for x in nn[1:]]
    return out

def len_work(item):
    eng, en, party, need, argv = item
    r = Len(need, levels(en.fid))
    try: I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET, argv=argv)
    except Budget as e: return dict(eng=eng, name=en.name, fid=en.fid, trait=en.trait, party=party, over=str(e), funcs=set())
    okbad = set(); miss = set()
    for s, v in outs:
        if is_ok(v):
            okbad |= s.ts[EXT][1]
            miss |= {k for k in need if not linked(k, s.ts[EXT][0])}
    return dict(eng=eng, name=en.name, fid=en.fid, trait=en.trait, party=party, over=None, need=need, early=r.early, late=r.late, panics=r.panics, okbad=okbad, miss=miss,
                nets=r.nets, seen=r.seen, funcs=set(I.funcs), nouts=len(outs), nok=sum(is_ok(v) for _, v in outs))


def pretty(k): return " and ".join(sorted(x.replace("arg:", "").replace(".*", "[i]").replace("#", "size ") for x in k))

def c14(ctx):
    rules_cover._P = P = ctx.prog()
    size = code_size(P)
    ctx.obligation(size is not None, "anchor:code-size", "IRIS_CODE_SIZE is not a constant the analysis can read")
    items = []
    for e in engines(P):
        for en in entries(P, e):
            argv, nested = argv_for(P, en.fid)
            if len(argv) < 2: continue
            b = P.bodies[en.fid]
            if not (b.is_async or "Future" in b.locals[0][0]): continue          # local helpers exchange nothing
            for p in (0, 1, 2): items.append((e, en, p, required(en.name, nested, size), argv))
    iris = []
    for b in P.bodies.values():
        if b.implselfadt and b.implselfadt.endswith("IrisProtocol") and "{closure" not in b.id.split("::")[-1]:
            argv, nested = argv_for(P, b.id); nm = b.id.split("::")[-1]
            if len(argv) >= 2 and nm in SPECIAL: items.append((None, Entry(b.id, nm, b.implselfadt, None), None, required(nm, nested, size), argv)); iris.append(nm)
    ctx.obligation("iris_in_db" in iris, "anchor:iris_in_db", "the database query function was not found")
    n = 0
    for r in lint.pmap(len_work, items):
        name = ent(r) if r["eng"] else "IrisProtocol::" + r["name"]
        if r["over"]:
            ctx.violation(f"budget:{name}", f"{name}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", r["nouts"]); n += len(r["need"])
        ctx.count("length_comparisons", len(r["seen"])); ctx.count("network_events", len(r["nets"]))
        for k in r["need"]:
            w = r["early"].get(k)
            ctx.obligation(w is None, f"unchecked:{name}:{pretty(k)}", f"{name}: {w and w[0]} exchanges messages before the lengths of {pretty(k)} have been compared", w[1] if w else [])
            if w is None: ctx.obligation(k not in r["miss"], f"unchecked:{name}:{pretty(k)}", f"{name} can succeed without comparing the lengths of {pretty(k)}")
        for (k, w), chain in r["late"].items():
            ctx.obligation(False, f"late:{name}:{pretty(k)}", f"{name}: {w} exchanges messages although the lengths of {pretty(k)} differ", chain)
        for (k, w), chain in r["panics"].items():
            ctx.obligation(False, f"panic:{name}:{pretty(k)}", f"{name} panics ({w}) when the lengths of {pretty(k)} differ", chain)
        for k in r["okbad"]:
            ctx.obligation(False, f"accepted:{name}:{pretty(k)}", f"{name} can succeed although the lengths of {pretty(k)} differ")
        ctx.sample(f"{name}: {[pretty(k) for k in r['need']]}")
    ctx.count("length_requirements", n)
    ctx.obligation(n >= 100, "vacuous:requirements", f"only {n} length requirements found")
    ctx.assume.append("vectors built by an operation from its arguments have the lengths the building loop gives them; only the arguments' own lengths are tracked")

def code_size(P):
    v = {c["v"] for k, c in P.consts.items() if k.startswith("plain_reference::") and k.endswith("::IRIS_CODE_SIZE") and c["v"]}
    return int(next(iter(v))) if len(v) == 1 else None
