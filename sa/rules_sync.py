"""C24/C25: correlated generators stay in step, and the three parties' message patterns fit together.

Every operation is interpreted once per party (and per role argument); each abstract run yields the automaton of the
communication and generator events of that party on its success paths (one position per call site in its calling
context).  Projections of two parties' automata on a shared channel or generator must accept the same words, and the
three automata must be able to run to completion together through every position."""
import re
from collections import deque
import lint, rules_cover
from terms import _E, O, V, C, STR, COLL, dv, ok, err
from cover import Cover, is_ok, mk, upd, EXT, OBS, self_fields
from posit import positional
from engine import *
from absint import *

START, END = "start", "end"
PASS = {"deref", "deref_mut", "borrow", "borrow_mut", "as_mut", "as_ref", "by_ref", "drop", "clone", "to_owned"}
DRAW = {"gen", "gen_range", "gen_bool", "fill", "fill_bytes", "try_fill_bytes", "next_u32", "next_u64", "sample", "sample_iter", "random", "try_fill"}

class Sync(Cover):
    twice = True
    def __init__(self, P, keys=()):
        super().__init__(); self.P = P; self.keys = frozenset(keys); self.edges = {}; self.ev = {}; self.news = []; self.envs = {}; self.sent_by = {}; self.unknown = []
    def init(self): return mk(ext=START)
    def step(self, I, st, kind, *lab):
        p = (kind, I.site("/".join(map(str, (kind,) + lab[:1])))) + tuple(sorted(st.ts[OBS]))
        self.ev.setdefault(p, (kind,) + lab)
        self.edges.setdefault(st.ts[EXT], set()).add(p)
        st.ts = upd(st.ts, ext=p)
        return st
    # ---- generic arguments along the call chain
    def root(self, fid): return fid.split("::{closure")[0]
    def env(self, I, depth=None):
        fid = self.root(I.stack[-1][0]); key = (fid, tuple(self.root(x[0]) for x in I.stack[:-1]))
        while key[1] and key[1][-1] == fid: key = (fid, key[1][:-1])
        return self.envs.get(key, {})
    def ty(self, I, s):
        e = self.env(I); top = len({self.root(x[0]) for x in I.stack}) == 1
        def one(m):
            w = m.group(0)
            if w in e: return e[w]
            return w if top or len(w) > 2 else "?"       # parameter of a function whose instantiation is not known here
        return re.sub(r"(?<![:\w])[A-Z][A-Za-z0-9]*\b(?!::|\w)", one, s)
    def remember(self, I, f):
        b = self.P.bodies.get(f.id) if f.id else None
        if b is None: return
        g = b.raw.get("gen") or []; gl = f.raw.get("gl") or []
        g = [x if isinstance(x, str) else x[0] for x in g]
        if not g or len(g) != len(gl): return
        key = (f.id, tuple(self.root(x[0]) for x in I.stack))
        while key[1] and key[1][-1] == f.id: key = (f.id, key[1][:-1])
        new = {k: self.ty(I, v) for k, v in zip(g, gl)}
        if "async" in b.raw and b.raw["async"]:
            old = self.envs.get(key)
            if old is not None and old != new: new = {k: v if old.get(k) == v else "?" for k, v in new.items()}
        self.envs[key] = new
    # ---- events
    def pos(self, I, st, site, n):
        """rounds of a loop over a list written out element by element are told apart"""
        keep = frozenset(e for e in st.ts[OBS] if e[0] != site)
        st.ts = upd(st.ts, obs=keep | {(site, n)} if n else keep)
    def gens(self, I, st, a): return {b for b, f in I.labs(st, a) if b in self.keys}
    def on_call(self, I, st, f, args):
        n, np = f.name, f.np
        self.remember(I, f)
        if n == "from_seed" and len(args) == 1: return [(st, O(I.labs(st, args[0])))]
        r = positional(I, st, f, args)
        if r is not None: return r
        G = sorted({g for a in args for g in self.gens(I, st, a)})
        if n in DRAW and args:
            t = f.raw.get("ga") or [""]
            for g in G: self.step(I, st, "draw", g, n + "<" + self.ty(I, t[-1] if len(t) > 1 else "") + ">")
            if n in ("gen", "next_u32", "next_u64", "sample", "gen_range", "gen_bool", "random"): return [(st, O(frozenset([(("draw:" if G else "seed:") + I.site("seed"), _E)])))]
            return None
        if G and (f.id not in self.P.bodies or self.opaque(f.id)) and I.resolve(st, f, args) is None and n not in PASS and not I.models.lookup(I, f):
            for g in G: self.step(I, st, "draw", g, n)
        return None
    def on_net(self, I, st, op, site, args):
        if op.startswith(("send", "receive")) and self.peer(I, op, args) == "peer": self.unknown.append((op, I.chain()))
        if op.startswith("send"):
            p = self.peer(I, op, args)
            for b, fl in I.labs(st, args[-1]):
                if b.startswith("seed:"): self.sent_by.setdefault(b, set()).add(p)
            a = self.step(I, st, "send", p)
            return [(a, ok(UNIT)), self.fail(st)]
        if op.startswith("receive"):
            p = self.peer(I, op, args); b = f"recv:{p}:{site}"
            return [(self.step(I, st, "recv", p), ok(O(frozenset([lab(b)])))), self.fail(st)]
        if op == "broadcast":
            for b, fl in I.labs(st, args[-1]):
                if b.startswith("seed:"): self.sent_by.setdefault(b, set()).update(("next", "prev"))
            s = st
            for p in ("next", "prev"): s = self.step(I, s, "send", p)
            for p in ("next", "prev"): s = self.step(I, s, "recv", p)
            fixed = {k: I.deep(s, args[-1]) if k == I.party else O(frozenset([lab(f"recv:{ {1: 'next', 2: 'prev'}[(k - I.party) % 3]}:{site}")])) for k in range(3)}
            return [(s, ok(COLL(None, _E, fixed))), self.fail(st)]
        return [(st, ok(UNIT)), self.fail(st)]
    def fail(self, st):
        b = st.fork(); b.ts = mk(ext="failed")
        return (b, err(O(frozenset([lab("ioerr")]))))
    def on_branch(self, I, st, p, truth): return None
    def on_diverge(self, I, st, what, args): pass

def trim(edges):
    """positions on a way from START to END"""
    def reach(s, e):
        seen = {s}; q = [s]
        while q:
            for y in e.get(q.pop(), ()):
                if y not in seen: seen.add(y); q.append(y)
        return seen
    back = {}
    for x, ys in edges.items():
        for y in ys: back.setdefault(y, set()).add(x)
    live = reach(START, edges) & reach(END, back)
    return {x: {y for y in ys if y in live} for x, ys in edges.items() if x in live}

def project(auto, ev, want):
    """automaton over the events for which want(event) gives a letter"""
    eps = lambda p: p in (START,) or (p != END and want(ev[p]) is None)
    def closure(S):
        out = set(); q = list(S); seen = set(q)
        while q:
            for y in auto.get(q.pop(), ()):
                if y == END: out.add(END)
                elif eps(y):
                    if y not in seen: seen.add(y); q.append(y)
                else: out.add(y)
        return frozenset(out)
    return closure, lambda p: want(ev[p])

def differ(A, B):
    """a shortest word accepted by exactly one of the two projections (None when they agree)"""
    (ca, la), (cb, lb) = A, B
    s = (ca({START}), cb({START})); seen = {s}; q = deque([(s, ())])
    while q:
        (x, y), w = q.popleft()
        if (END in x) != (END in y): return w, END in x
        L = {la(p) for p in x if p != END} | {lb(p) for p in y if p != END}
        for l in sorted(L):
            n = (ca({p for p in x if p != END and la(p) == l}) if x else x, cb({p for p in y if p != END and lb(p) == l}))
            if not n[0] and not n[1]: continue
            if n not in seen:
                seen.add(n); q.append((n, w + (l,)))
                if len(seen) > 20000: return (("too many states",), True)
    return None

def joint(autos, evs, limit=400000, cap=3):
    """positions of the three automata that some run to completion of all three together passes"""
    peer = lambda i, p: (i + 1) % 3 if p == "next" else (i + 2) % 3
    # events without effect on the others are dropped first
    small = []
    for i in range(3):
        cl, _ = project(autos[i], evs[i], lambda e: e if e[0] in ("send", "recv") else None)
        pos = {p for ys in autos[i].values() for p in ys if p != END and evs[i][p][0] in ("send", "recv")} | {START}
        small.append({p: cl({p}) for p in pos})
    start = ((START,) * 3, (0,) * 9)
    pred = {start: []}; q = deque([start]); done = []
    while q:
        s = q.popleft(); pos, buf = s
        if all(p == END for p in pos):
            if not any(buf): done.append(s)
            continue
        # sends and ends first (they can never be blocked); otherwise every possible receive
        nxt = []
        for i in range(3):
            if pos[i] == END: continue
            mine = []; free = True
            for y in small[i][pos[i]]:
                if y == END: mine.append((pos[:i] + (END,) + pos[i+1:], buf)); continue
                k, p = evs[i][y][:2]; j = peer(i, p); c = 3 * i + j if k == "send" else 3 * j + i
                if k == "send":
                    if buf[c] < cap: mine.append((pos[:i] + (y,) + pos[i+1:], buf[:c] + (buf[c] + 1,) + buf[c+1:]))
                    else: free = False
                else:
                    free = False
                    if buf[c]: mine.append((pos[:i] + (y,) + pos[i+1:], buf[:c] + (buf[c] - 1,) + buf[c+1:]))
            if free and mine: nxt = mine; break
            nxt += mine
        for n in nxt:
            if n not in pred:
                pred[n] = [s]; q.append(n)
                if len(pred) > limit: return None, len(pred)
            else: pred[n].append(s)
    ok = set(done); q = deque(done)
    while q:
        for p in pred[q.popleft()]:
            if p not in ok: ok.add(p); q.append(p)
    cov = [set(), set(), set()]
    for pos, _ in ok:
        for i in range(3): cov[i].add(pos[i])
    return [set(small[i]) - cov[i] for i in range(3)], len(pred)

def party_run(P, en, party, keys, argv=None):
    R = Sync(P, keys)
    I, outs = run_entry(P, R, en, party, budget=3000000, argv=argv)
    good = [(s, v) for s, v in outs if is_ok(dv(I, s, v)) and s.ts[EXT] != "failed"]
    for s, v in good: R.edges.setdefault(s.ts[EXT], set()).add(END)
    R.good = good; R.I = I
    R.auto = trim(R.edges)
    return R

def keys_of(P, en, party):
    """{generator: peers it is shared with} after set-up"""
    R = party_run(P, en, party, ())
    out = {}
    for s, v in R.good:
        for path, L in self_fields(R.I, s).items():
            if "prf" not in path.lower() and "rng" not in path.lower(): continue
            B = {b for b, f in L if b.startswith(("seed:", "recv:"))}
            if not B: continue
            peers = {b.split(":")[1] for b in B if b.startswith("recv:")}
            for b in B:
                if b.startswith("seed:"): peers |= R.sent_by.get(b, set())
            out.setdefault(path, set()).add(frozenset(peers))
    return out, R

def usize_args(P, en):
    b = P.bodies[en.fid]; names = {v[1][0]: v[0] for v in b.raw["vars"] if len(v[1]) == 1}
    return [names.get(i + 1) for i in range(b.argc) if b.locals[i + 1][0] == "usize" and names.get(i + 1)]

def job(a):
    eng, i, keys, role = a
    P = rules_cover._P
    en = entries(P, eng)[i]
    argv = {n: C(role) for n in usize_args(P, en)} if role is not None else None
    Rs = []
    for party in range(3):
        try: Rs.append(party_run(P, en, party, keys, argv))
        except Budget as e: return {"err": str(e)}
    res = {"n": [len(R.auto) for R in Rs], "funcs": set().union(*[R.I.funcs for R in Rs]), "ok": [len(R.good) for R in Rs], "chan": [], "gen": [], "stuck": [], "unknown": [u for R in Rs for u in R.unknown][:3]}
    def show(w): return " ".join("/".join(x) if isinstance(x, tuple) else str(x) for x in w)[-300:]
    cnt = 0
    for i in range(3):
        for p, q, j in (("next", "prev", (i + 1) % 3), ("prev", "next", (i + 2) % 3)):
            d = differ(project(Rs[i].auto, Rs[i].ev, lambda e: "message" if e[:2] == ("send", p) else None),
                       project(Rs[j].auto, Rs[j].ev, lambda e: "message" if e[:2] == ("recv", q) else None)); cnt += 1
            if d: res["chan"].append((i, j, len(d[0]), d[1]))
    res["pairs"] = cnt
    res["events"] = sum(1 for R in Rs for x in R.auto if x != START)
    # generators
    def typed(f):
        return all("?" not in e[2] for R in Rs for x in R.auto if x != START for e in [R.ev[x]] if e[0] == "draw" and e[1] in f)
    for grp in (role_pairs(keys) if keys else []):
        (i, f), rest = grp[0], grp[1:]
        for j, g in rest:
            t = typed((f, g))
            L = lambda e, k: (e[2] if t else e[2].split("<")[0]) if e[0] == "draw" and e[1] == k else None
            d = differ(project(Rs[i].auto, Rs[i].ev, lambda e: L(e, f)), project(Rs[j].auto, Rs[j].ev, lambda e: L(e, g)))
            res["gen"].append(((i, f), (j, g), d and (show(d[0]), d[1])))
    res["draws"] = sum(1 for R in Rs for x in R.auto if x != START and R.ev[x][0] == "draw")
    for cap in (3, 6, 12):
        r, n = joint([R.auto for R in Rs], [R.ev for R in Rs], cap=cap)
        if r is None: res["stuck"] = None; break
        res["stuck"] = [(i, str(Rs[i].ev[p][:2]) if p != START else START, re.sub(r"#\d+$", "", p[1].split(">")[-1]) if p != START else START) for i in range(3) for p in r[i]]
        if not res["stuck"]: break
    res["joint"] = n
    return res

def role_pairs(keys):
    """groups of (party, generator) that hold the same key"""
    return keys.groups
class Keys(frozenset): pass

def setup(ctx, P, eng, quiet=False):
    """which generators are shared between whom, from the set-up"""
    en = next((e for e in entries(P, eng) if e.name == "preprocess"), None)
    short = eng.split("::")[-1]
    if en is None: return None
    K = []
    for party in range(3):
        k, R = keys_of(P, en, party); K.append(k)
        ctx.funcs |= set(R.I.funcs)
    groups = []; seen = set()
    for i in range(3):
        for f, peers in sorted(K[i].items()):
            if not ctx.obligation(len(peers) == 1 and next(iter(peers)), f"setup:{short}:{f}", f"{eng}: party {i} does not agree on the key of {f} with a fixed set of peers ({sorted(map(sorted, peers))})"): continue
            ps = next(iter(peers))
            if (i, f) in seen: continue
            g = [(i, f)]
            for p in sorted(ps):
                j = (i + (1 if p == "next" else 2)) % 3
                back = frozenset({1: "next", 2: "prev"}[(x - j) % 3] for x in {i} | {(i + (1 if q == "next" else 2)) % 3 for q in ps} if x != j)
                m = [h for h, pp in K[j].items() if pp == {back}]
                if ctx.obligation(len(m) == 1, f"partner:{short}:{i}:{f}:{p}", f"{eng}: {f} of party {i} is keyed together with party {j}, which has {len(m)} generators ({m}) keyed with the same parties"): g.append((j, m[0]))
            seen |= set(g); groups.append(g)
    ks = Keys({f for k in K for f in k}); ks.groups = groups
    return ks

def run_all(ctx, P):
    out = []
    for eng in sorted(engines(P)):
        ks = setup(ctx, P, eng)
        if not ks and eng.endswith("::Plain"): continue      # the reference engine talks to nobody
        if ks is None or not ctx.obligation(len(ks) >= 2, f"anchor:keys:{eng.split('::')[-1]}", f"no correlated generators were found for {eng}"): continue
        E = entries(P, eng); jobs = []
        for i, en in enumerate(E):
            roles = [0, 1, 2] if usize_args(P, en) else [None]
            for r in roles: jobs.append((eng, i, ks, r))
        out.append((eng, E, ks, jobs))
    flat = [j for _, _, _, J in out for j in J]
    res = lint.pmap(job, flat)
    for (eng, i, ks, r), x in zip(flat, res):
        yield eng.split("::")[-1], entries(P, eng)[i], r, ks, x

def prep(ctx):
    rules_cover._P = P = ctx.prog()
    ctx.obligation(sum(not e.endswith("::Plain") for e in engines(P)) >= 4, "anchor:engines", f"only {len(engines(P))} protocol engines were found")
    return P

def c24(ctx):
    P = prep(ctx); tot = 0; eq = 0
    for eng, en, role, ks, r in run_all(ctx, P):
        nm = f"{eng}::{en.name}" + (f"({role})" if role is not None else "")
        if not ctx.obligation("err" not in r, f"budget:{nm}", f"{nm}: {r.get('err')}"): continue
        ctx.funcs |= r["funcs"]; tot += r["draws"]
        for (i, f), (j, g), d in r["gen"]:
            eq += 1
            ctx.obligation(d is None, f"outofstep:{eng}::{en.name}:{f}:{i}{j}", f"{nm}: party {i} draws from {f} where party {j} does not draw from {g} the same way" +
                           (f": only party {i if d[1] else j} can draw [{d[0]}]" if d else ""))
        if r["draws"]: ctx.sample(f"{nm}: {r['draws']} draw positions, {len(r['gen'])} generator pairs in step")
    ctx.count("generator_pairs_compared", eq); ctx.count("draw_positions", tot)
    ctx.obligation(tot >= 300 and eq >= 300, "vacuous", f"only {tot} draws and {eq} generator pairs were analysed")
    ctx.assume += ["branches and loop bounds decided by public data (lengths, thresholds) are decided alike by all parties"]

def c25(ctx):
    P = prep(ctx); ev = 0; pr = 0; js = 0
    for eng, en, role, ks, r in run_all(ctx, P):
        nm = f"{eng}::{en.name}" + (f"({role})" if role is not None else "")
        if not ctx.obligation("err" not in r, f"budget:{nm}", f"{nm}: {r.get('err')}"): continue
        ctx.funcs |= r["funcs"]; ev += r["events"]; pr += r["pairs"]; js += r["joint"]
        ctx.obligation(not r["unknown"], f"peer:{eng}::{en.name}", f"{nm}: a message goes to or comes from a party that is not determined ({r['unknown'][:1]})")
        okn = r["ok"]
        ctx.obligation(all(okn) or not any(okn), f"asymmetric:{eng}::{en.name}", f"{nm}: only some parties can succeed ({okn})")
        for i, j, n, s in r["chan"]:
            ctx.obligation(False, f"mismatch:{eng}::{en.name}:{i}{j}", f"{nm}: party {i if s else j} can {'send' if s else 'wait for'} {n} messages from party {i} to party {j}, party {j if s else i} never {'receives' if s else 'sends'} exactly that many")
        ctx.obl += r["pairs"] - len(r["chan"]); ctx.dis += r["pairs"] - len(r["chan"])
        if r["stuck"] is None: ctx.obligation(False, f"states:{nm}", f"{nm}: too many joint states")
        else:
            for i, e, w in r["stuck"]: ctx.obligation(False, f"deadlock:{eng}::{en.name}:{w}", f"{nm}: no run of the three parties that passes {e} in {w} at party {i} can complete")
            ctx.obligation(True)
        if r["events"]: ctx.sample(f"{nm}: {r['n']} positions per party, {r['joint']} joint states")
    ctx.count("message_positions", ev); ctx.count("channel_pairs_compared", pr); ctx.count("joint_states", js)
    ctx.obligation(ev >= 800 and pr >= 600, "vacuous", f"only {ev} events and {pr} channels were analysed")
    ctx.assume += ["branches and loop bounds decided by public data (lengths, thresholds) are decided alike by all parties", "joint runs: at most 12 messages in flight per channel; one position counts as covered when some choice of the public data completes through it"]
