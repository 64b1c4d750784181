"""C13: failures of fallible steps reach the caller."""
import lint, rules_cover
from rules_cover import *
from facts import calls, callee, norm_path, operands_of_rvalue, places_of_operand
from absint import _E
from models import RES, OPT, POLL

# the receiver of a reply is gone: nobody is left to be told
IGNORED = ("oneshot::Sender::send",)
RESULT = "std::result::Result<"

def is_err(v): return v.k == "s" and v.a == RES and v.b == 1

def first_arg(ty):
    """first generic argument of `Path<A, B>`"""
    i = ty.index("<") + 1; d = 0
    for j in range(i, len(ty)):
        c = ty[j]
        if c in "<([": d += 1
        elif c in ")]" or c == ">" and ty[j - 1] != "-":
            if d == 0: return ty[i:j]
            d -= 1
        elif c == "," and d == 0: return ty[i:j]
    return ty[i:-1]

def shapes(ty, v, d=0):
    if ty.startswith(RESULT) and d < 3:
        return [(ok(x), f) for x, f in shapes(first_arg(ty).strip(), v, d + 1)] + [(err(v), True)]
    if ty.startswith("std::option::Option<" + RESULT) and d < 3:
        return [(some(x), f) for x, f in shapes(first_arg(ty).strip(), v, d + 1)] + [(NONE, False)]
    return [(v, False)]

class Fail(Cover):
    """ext = failures observed on this path"""
    def __init__(self):
        super().__init__(); self.steps = set(); self.chains = {}; self.unwraps = {}
    def init(self): return mk(ext=_E)
    def note(self, I, s, what):
        k = f"{what}@{I.where()}"
        self.chains.setdefault(k, I.chain())
        s.ts = upd(s.ts, ext=s.ts[EXT] | {k})
    def netres(self, I, st, okv, ts):
        out = super().netres(I, st, okv, ts)
        self.steps.add(("network", I.where()))
        self.note(I, out[1][0], "network")
        return out
    def spread(self, I, outs, ty, what, wrap, base=None):
        """all the shapes a value of type `ty` can have; every contained Err is a failure"""
        res = []
        for s, v in outs:
            b0 = s.ts[EXT] if base is None else base
            for x, failed in shapes(ty, v):
                b = s.fork(); b.ts = upd(b.ts, ext=b0)
                if failed:
                    b.ts = upd(b.ts, ext=s.ts[EXT])
                    self.note(I, b, what)
                res.append((b, wrap(x)))
        return res
    def on_call(self, I, st, f, args):
        ty = I.dest_ty
        if f.np.endswith(IGNORED) and len(args) > 1 and is_err(args[1]): st.ts = upd(st.ts, ext=_E)   # failure reported in the reply
        if RESULT not in ty or f.np.endswith(IGNORED): return None
        if f.name == "poll" and ty.startswith("std::task::Poll<"):
            m = I.models.lookup(I, f)
            if m is None: return None
            outs = m(I, st, f, args)
            inner = ty[len("std::task::Poll<"):]
            if outs is None or not inner.startswith((RESULT, "std::option::Option<" + RESULT)): return outs
            res = []
            for s, v in outs:
                x = fget(v, 0)
                if x is not None and x.k == "o":
                    self.steps.add(("await", I.where()))
                    res += self.spread(I, [(s, O(x.lab))], inner, "await", lambda r: STR(POLL, 0, {0: r}))
                else: res.append((s, v))
            return res
        if not ty.startswith(RESULT) or I.models.lookup(I, f) is not None: return None
        k = I.resolve(st, f, args)
        if k is not None and not self.opaque(k): return None
        a = args[0] if args else None
        if a is not None and a.k == "s" and a.a == RES and a.b in (0, 1):        # adapters such as context(): the variant is kept
            if a.b == 1: return [(st, a)]
            return [(s, ok(v)) for s, v in I.external(st, f, args)]
        self.steps.add((f.np, I.where()))
        base = st.ts[EXT]            # a closure's failure is part of the outcome of the call it is passed to
        return self.spread(I, I.external(st, f, args), ty, f.name, lambda r: r, base)
    def on_return(self, I, st, fid, v):
        if len(I.stack) > 1 and is_err(v): self.note(I, st, ("async " if "{closure" in fid else "") + shortfn(fid))
    def on_unwrap(self, I, st, f, v):
        if "Result" not in f.np: return
        if not (is_err(v) or v.k == "o"): return
        bad = {k for k in st.ts[EXT] if k.startswith(("network@", "await@", "async "))}
        if bad: self.unwraps[I.where()] = (sorted(bad)[:2], I.chain())

def fail_work(item):
    eng, en, party, adt = item
    r = Fail()
    try:
        if adt: en = Entry(en.fid, en.name, adt, en.trait)
        I, outs = run_entry(rules_cover._P, r, en, party, budget=BUDGET)
    except Budget as e:
        return dict(eng=eng, name=en.name, fid=en.fid, trait=en.trait, party=party, over=str(e), funcs=set())
    lost = set()
    for s, v in outs:
        if v.k == "s" and v.a == RES and v.b == 0 or v.k not in ("s",):
            lost |= s.ts[EXT] if is_ok(v) else _E
    return dict(eng=eng, name=en.name, fid=en.fid, trait=en.trait, party=party, over=None, lost=lost, chains=r.chains, unwraps=r.unwraps, steps=r.steps, funcs=set(I.funcs), nouts=len(outs))

def ret_type(P, b):
    for c in P.children.get(b.id, []):
        cb = P.bodies[c]
        if b.is_async or "impl std::future::Future" in b.locals[0][0] or "Pin<" in b.locals[0][0]:
            return cb.locals[0][0]
    return b.locals[0][0]


def uses_of(b):
    u = {}
    def pl(p, k, i): u.setdefault(p[0], []).append((k, i))
    for i, bb in enumerate(b.blocks):
        if bb["cl"]: continue
        for s in bb["s"]:
            if s[0] != "=": continue
            r = s[2]
            for o in operands_of_rvalue(r):
                for p in places_of_operand(o): pl(p, "op", s)
            if r[0] in ("ref", "addr", "disc", "discr", "len", "cfd", "rawptr"):
                for x in r[1:]:
                    if isinstance(x, list): pl(x, r[0], s)
        t = bb["t"]
        if t[0] == "call":
            for o in t[2]:
                for p in places_of_operand(o): pl(p, "arg", t)
        elif t[0] == "switch":
            for p in places_of_operand(t[1]): pl(p, "sw", t)
        elif t[0] == "yield":
            for x in t[1:]:
                if isinstance(x, dict):
                    for p in places_of_operand(x): pl(p, "y", t)
    return u

DROPPERS = ("std::mem::drop", "std::mem::forget", "std::result::Result::ok", "std::result::Result::err", "std::result::Result::is_ok", "std::result::Result::is_err",
            "std::result::Result::unwrap_or", "std::result::Result::unwrap_or_default", "std::result::Result::unwrap_or_else")
def outcome(ty): return ty.startswith(RESULT) or "oneshot::Receiver<" in ty and RESULT in ty and not ty.startswith("&")

def kind(ty): return "" if ty.startswith(RESULT) else "-reply"

def discards(b):
    """calls whose outcome (a Result, or the receiver of a reply) is only dropped; follows plain moves"""
    u = uses_of(b); n = 0; bad = []
    def dropped(l, d=0):
        for k, x in u.get(l, []):
            if k == "op" and x[0] == "=" and len(x[1]) == 1 and x[1][0] != 0 and x[2][0] == "use" and d < 5:
                if not dropped(x[1][0], d + 1): return False
            elif k == "arg":
                f = callee(x)
                if not f or norm_path(f["p"]) not in DROPPERS[:2]: return False
            else: return False
        return True
    for i, t in calls(b):
        f = callee(t)
        if not f or len(t[3]) != 1 or t[3][0] == 0: continue
        if outcome(b.locals[t[3][0]][0]):
            n += 1
            np = norm_path(f["p"])
            if np.endswith(IGNORED) or np in DROPPERS[:2]: continue
            if dropped(t[3][0]): bad.append((np + kind(b.locals[t[3][0]][0]), str(t[5])))
    # results of awaited futures: moved out of Poll::Ready into a local
    for bb in b.blocks:
        if bb["cl"]: continue
        for s in bb["s"]:
            if s[0] == "=" and len(s[1]) == 1 and s[1][0] != 0 and outcome(b.locals[s[1][0]][0]) and s[2][0] == "use":
                src = [p for o in operands_of_rvalue(s[2]) for p in places_of_operand(o)]
                if src and len(src[0]) > 1 and b.locals[src[0][0]][0].startswith("std::task::Poll<"):
                    n += 1
                    if dropped(s[1][0]): bad.append(("await" + kind(b.locals[s[1][0]][0]), str(s[3]) if len(s) > 3 else ""))
    return n, bad

def c13(ctx):
    rules_cover._P = P = ctx.prog()
    E = engines(P)
    items = [(e, en, p, None) for e in E for en in entries(P, e) for p in (0, 1, 2)]
    rs = lint.pmap(fail_work, items)
    seen = set()
    for r in rs: seen |= r["funcs"]
    more = []
    for b in P.bodies.values():
        if "{closure" in b.id.split("::")[-1] or b.id in seen or "::tests::" in b.id: continue
        if RESULT in ret_type(P, b): more.append((None, Entry(b.id, b.id.split("::")[-1], None, None), None, b.implselfadt))
    rs += lint.pmap(fail_work, more)
    ctx.obligation(len(E) >= 4 and len(items) > 300, "anchor:entries", f"only {len(items)} engine entry points found")
    nsteps = 0
    for r in rs:
        name = ent(r) if r["eng"] else shortfn(r["fid"])
        if r["over"]:
            ctx.violation(f"budget:{name}", f"{name}: state budget exceeded ({r['over']})"); continue
        ctx.funcs |= r["funcs"]; ctx.count("entry_runs"); ctx.count("paths", r["nouts"]); nsteps += len(r["steps"])
        for k in sorted(r["lost"]) or [None]:
            ctx.obligation(k is None, f"swallowed:{name}:{(k or '').split('@')[0]}", f"{name} can return success although {k} failed", r["chains"].get(k, []))
        for w, (l, chain) in r["unwraps"].items():
            ctx.obligation(False, f"panic-on-failure:{w}", f"{name}: {w} panics instead of returning the failure of {l}", chain)
    nb = 0
    for b in P.bodies.values():
        if "::tests::" in b.id: continue
        n, bad = discards(b); nb += n
        ctx.obl += n; ctx.dis += n - len(bad)
        for np, at in bad:
            k = f"discarded:{shortfn(b.id)}:{np.split('::')[-1]}"
            ctx.violation(k, f"{shortfn(b.id)} drops the outcome of {np}", [at])
    ctx.count("fallible_steps", nsteps); ctx.count("results_tracked", nb)
    ctx.obligation(nsteps > 500 and nb > 300, "vacuous:steps", f"only {nsteps} fallible steps and {nb} results analysed")
    ctx.assume.append("a reply whose receiver has gone away concerns nobody (oneshot::Sender::send)")

if __name__ == "__main__":
    ctx = lint.Ctx("C13", "quick"); c13(ctx)
    for k, (m, t) in ctx.findings.items(): print(k, "|", m, t[:3])
    print(ctx.obl, ctx.dis, ctx.cov)
