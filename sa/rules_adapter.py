"""C30: the production network sends to and receives from the party that is meant.

`new` of every NetworkTrait implementation that is built from a NetworkConfig is interpreted for each own id, with the
channel map as a source of one labelled channel per peer; the resulting object is then the receiver of every method of
the trait, and each outcome (the messages submitted to or taken from each labelled channel, in order, and the returned
value) is compared with what the method promises."""
import lint, re
from terms import _E, O, V, C, STR, COLL, dv, ok, err
from posit import positional, fx, final
from engine import *
from absint import *
from models import some, NONE

CFG = "NetworkConfig"
def o1(b): return O(frozenset([lab(b)]))

class Adapter(Rule):
    def __init__(self, P, n=3, me=0): self.P = P; self.n = n; self.me = me; self.calls = 0; self.odd = []
    def init(self): return (frozenset(), ())                # (rounds of loops, events)
    def ev(self, st, *e):
        s = st.fork(); m, t = st.ts
        s.ts = (m, t + (e,)) if len(t) < 16 else (m, t); return s
    def pos(self, I, st, site, n):
        m, t = st.ts; keep = frozenset(e for e in m if e[0] != site)
        st.ts = (keep | {(site, n)} if n else keep, t)
    def fut(self, I, name, *a): return V("fut", _E, name, I.site(name), tuple(enumerate(a)))
    def chan(self, I, st, v):
        ks = {b for b, f in I.labs(st, v) if b.startswith("chan:")}
        return next(iter(ks)) if len(ks) == 1 else "chan:?"
    def range(self, v):
        """the numbers of a short range of constants"""
        if v.k != "s" or not str(v.a).endswith(("Range", "RangeInclusive")): return None
        x, y = fget(v, 0), fget(v, 1)
        if x is None or y is None or x.k != "c" or y.k != "c" or not 0 <= y.a - x.a <= 6: return None
        return fx([C(i) for i in range(x.a, y.a + (1 if str(v.a).endswith("RangeInclusive") else 0))])
    def lost(self, st): s = st.fork(); m, t = st.ts; s.ts = (m | {("lost", 1)}, t); return s
    def on_binop(self, I, st, op, a, b):
        """a counter of a loop keeps its rounds apart"""
        if op.startswith("Add") and a.k == "c" and b.k == "c" and not isinstance(a.a, bool) and 0 <= a.a + b.a <= 8: self.pos(I, st, I.site("add"), a.a + b.a)
        return None
    def on_cast(self, I, st, kind, v, ty):
        """an enum without fields as a number"""
        if v.k != "d": return None
        xs = {self.number(I.deep(st, I.load(st, loc))) for loc in v.a}
        return C(xs.pop()) if len(xs) == 1 and None not in xs else None
    def number(self, v):
        if v.k != "s" or not isinstance(v.b, int) or v.f or v.a not in self.P.adts: return None
        vs = self.P.adts[v.a]["variants"]
        d = vs[v.b].get("d") if v.b < len(vs) else None
        return int(d) if d is not None else None
    def convert(self, I, st, f, args):
        """From/TryFrom between local types, also when reached through Into/TryInto"""
        v = dv(I, st, args[0]); to = I.dest_ty or ""
        src = v.a if v.k == "s" and isinstance(v.b, int) and v.a in self.P.adts else None
        tr = "From" if f.name in ("into", "from") else "TryFrom"
        for i in self.P.impls:
            if i.get("trait", "") and i["trait"].endswith("::" + tr):
                for it in i["items"]:
                    b = self.P.bodies.get(it["id"])
                    if b is None or it["n"] not in ("from", "try_from"): continue
                    a, r = b.locals[1], b.locals[0]
                    if src and a[1] == src and r[0] in to and f.name in ("into", "from"): return I.call_body(it["id"], [v], st)
                    if f.name == "try_into" and v.k == "c" and a[0] == "usize" and i["self"].split("::")[-1] in to: return I.call_body(it["id"], [v], st)
        return None
    def on_call(self, I, st, f, args):
        n, np = f.name, f.np
        if n in ("into", "from", "try_into") and len(args) == 1 and I.resolve(st, f, args) is None:
            r = self.convert(I, st, f, args)
            if r is not None: return r
        elif n in ("into", "from", "try_from", "try_into") and I.resolve(st, f, args) in self.P.bodies and dv(I, st, args[0]).k in "cs":
            return I.call_body(I.resolve(st, f, args), args, st)
        if "NetworkTrait" in np:
            k = I.resolve(st, f, args)
            if k is None:
                self.odd.append(f"{I.where()} calls {n} of an unknown network"); return [(st, O())]
            return I.call_body(k, args, st)
        if "MpcNetworkHandler" in np:
            if n == "establish": return [(st, self.fut(I, "establish"))]
            if n.startswith("get_") and "channels" in n: return [(st, self.fut(I, "channels"))]
            if n == "shutdown": return [(st, self.fut(I, "shutdown"))]
            if not f.id in self.P.bodies: return None
        if "ChannelHandle" in np:
            if n == "manage": return [(st, o1(self.chan(I, st, args[0])))]
            a = [dv(I, st, x) for x in args]
            if n in ("send", "recv"): return [(st, self.fut(I, "ch" + n, *a))]
            if n in ("blocking_send", "blocking_recv"): return self.on_net(I, st, "ch" + n[9:], None, a)
        if n in ("remove", "remove_entry", "get", "get_mut", "entry") and args and any(b == "channels" for b, _ in I.labs(st, args[0])):
            k = dv(I, st, args[1])
            if n != "remove" or k.k != "c" or isinstance(k.a, bool):
                self.odd.append(f"{I.where()} takes a channel whose owner is not determined"); return [(st, O())]
            if k.a == self.me or k.a >= self.n or ("took", k.a) in st.ts[1]: return [(st, NONE)]
            return [(self.ev(st, "took", k.a), some(o1(f"chan:{k.a}"))), (st.fork(), NONE)]
        if n == "len" and args and any(b == "parties" for b, _ in I.labs(st, args[0])): return [(st, C(self.n))]
        if n == "is_empty" and args and any(b == "parties" for b, _ in I.labs(st, args[0])): return [(st, C(self.n == 0))]
        if args and "iter" in np.lower():
            rg = self.range(dv(I, st, args[0]))
            if rg is not None and args[0].k == "r" and n == "next":
                for loc in final(I, st, args[0]): I.store(st, loc, rg)
            elif rg is not None:
                if n == "into_iter": return [(st, rg)]
                return positional(I, st, f, [rg] + list(args[1:]))
        if n == "from_elem" and len(args) == 2 and dv(I, st, args[1]).k == "c" and 0 < dv(I, st, args[1]).a <= 4:
            return [(st, COLL(None, _E, {i: dv(I, st, args[0]) for i in range(dv(I, st, args[1]).a)}))]
        if n == "push" and np.endswith("Vec::push") and args[0].k == "r":
            L = list(final(I, st, args[0]))
            if len(L) == 1:
                c = I.load(st, L[0])
                if c.k == "l" and c.a is None and not c.lab and [i for i, _ in c.f] == list(range(len(c.f))) and len(c.f) < 8:
                    I.store(st, L[0], COLL(None, _E, {**dict(c.f), len(c.f): dv(I, st, args[1])}))
                    return [(st, UNIT)]
        return positional(I, st, f, args)
    def on_net(self, I, st, op, site, args):
        if op == "establish": return [(st, ok(o1("handler"))), (st.fork(), err(o1("neterr")))]
        if op == "channels": return [(st, ok(o1("channels"))), (st.fork(), err(o1("neterr")))]
        if op == "shutdown": return [(self.ev(st, "shutdown"), UNIT)]
        if op == "chsend":
            self.calls += 1
            k = self.chan(I, st, args[0]).split(":")[1]
            L = I.labs(st, args[1])
            d = "data" if complete(L, "arg:data") and bases(L) == {"arg:data"} else "other"
            return [(self.ev(st, "send", k, d), self.fut(I, "sent"))]
        if op == "chrecv":
            self.calls += 1
            k = self.chan(I, st, args[0]).split(":")[1]
            m = sum(1 for e in st.ts[1] if e[:2] == ("recv", k))
            return [(self.ev(st, "recv", k), self.fut(I, "got", C(f"msg:{k}:{m}")))]
        if op == "sent": return [(st, ok(ok(UNIT))), (st.fork(), ok(err(o1("ioerr")))), (st.fork(), err(o1("gone")))]
        if op == "got": return [(st, ok(ok(o1(args[0].a)))), (self.lost(st), ok(err(o1("ioerr")))), (self.lost(st), err(o1("gone")))]
        return [(st, O())]

def run(P, fid, eng, R, party, argv):
    try: I, outs = run_entry(P, R, Entry(fid, fid.split("::")[-1], eng, "NetworkTrait"), party, budget=60000, argv=argv)
    except Budget as e:
        R.odd.append(str(e)); return type("X", (), {"funcs": {}}), []
    return I, [(s, dv(I, s, v), [e for e in s.ts[1] if e[0] != "took"]) for s, v in outs]

def good(v): return v.k == "s" and v.a == RES and v.b == 0
def bad(v): return v.k == "s" and v.a == RES and v.b == 1
def val(v): return fget(v, 0)

def config(P, my_id):
    a = next((x for x in P.adts if x.endswith("::" + CFG) and "File" not in x), None)
    if a is None: return None
    fs = [f[0] for f in P.adts[a]["variants"][0]["f"]]
    if "my_id" not in fs or "parties" not in fs: return None
    return STR(a, None, {i: C(my_id) if n == "my_id" else o1(n) for i, n in enumerate(fs)})

def c30(ctx):
    P = ctx.prog(); t = P.trait_named("NetworkTrait"); ncalls = 0; seen = 0; outs_n = 0
    for im in P.impls:
        if im.get("trait") != t or not im["selfadt"]: continue
        eng = im["selfadt"]; nm = eng.split("::")[-1]
        cons = [(it["id"]) for j in P.impls if j.get("selfadt") == eng and not j.get("trait") for it in j["items"]
                if it["id"] in P.bodies and any(CFG in str(P.bodies[it["id"]].locals[k + 1][0]) for k in range(P.bodies[it["id"]].argc))]
        if not cons: continue                        # test doubles are not built from a configuration
        seen += 1
        b = P.bodies[cons[0]]
        arg = next((v[0] for v in b.raw["vars"] if len(v[1]) == 1 and 1 <= v[1][0] <= b.argc and CFG in str(b.locals[v[1][0]][0])), None)
        have = {it["n"]: it["id"] for it in im["items"] if it["id"] in P.bodies}
        def odd(R, what):
            for x in sorted(set(R.odd)): ctx.obligation(False, f"undetermined:{nm}:{what}", f"{nm}::{what}: {x}")
        if not ctx.obligation(arg and config(P, 0) is not None, f"anchor:config:{nm}", f"{nm} is not built from a network configuration with my_id and parties"): continue
        # set-up refuses what is not a configuration of three parties
        for me, n in ((0, 2), (0, 1), (2, 4), (1, 5), (3, 3), (4, 3), (7, 3), (3, 4)):
            R = Adapter(P, n, me)
            I, outs = run(P, cons[0], eng, R, None, {arg: config(P, me)}); ctx.funcs |= set(I.funcs); outs_n += len(outs)
            ctx.obligation(outs and all(bad(v) for s, v, e in outs), f"setup:{nm}:{'parties' if me < 3 else 'id'}", f"{nm}::new accepts own id {me} among {n} parties")
        for me in range(3):
            R = Adapter(P, 3, me)
            I, outs = run(P, cons[0], eng, R, None, {arg: config(P, me)}); ctx.funcs |= set(I.funcs); odd(R, "new")
            S = {val(v) for s, v, e in outs if good(v)}
            ctx.obligation(S, f"setup:{nm}:refused", f"{nm}::new never succeeds for party {me}")
            ctx.obligation(all(good(v) or bad(v) for s, v, e in outs), f"setup:{nm}:unclear", f"{nm}::new of party {me} returns something undetermined")
            nx, pv = (me + 1) % 3, (me + 2) % 3
            plan = [("get_id", None, {}, ("const", me)), ("get_num_parties", None, {}, ("const", 3)), ("send_next_id", None, {}, ("send", nx)), ("send_prev_id", None, {}, ("send", pv)),
                    ("receive_next_id", None, {}, ("recv", nx)), ("receive_prev_id", None, {}, ("recv", pv)), ("broadcast", None, {}, ("bcast",)), ("shutdown", None, {}, ("shutdown",))]
            for j in (0, 1, 2, 3, 4, 7):
                w = ("none",) if j not in (nx, pv) else None
                plan += [("send", j, {}, w or ("send", j)), ("receive", j, {}, w or ("recv", j))]
            for m, j, _, want in plan:
                fid = have.get(m)
                if not ctx.obligation(fid, f"anchor:{nm}::{m}", f"{nm} has no method {m}"): continue
                bm = P.bodies[fid]; names = {v[1][0]: v[0] for v in bm.raw["vars"] if len(v[1]) == 1}
                for net in S:
                    R = Adapter(P, 3, me)
                    argv = {"*self": net}
                    for k in range(2, bm.argc + 1):
                        ty = bm.locals[k][0]
                        argv[names.get(k, f"a{k - 1}")] = C(j) if ty == "usize" else o1("arg:data")
                    I, outs = run(P, fid, eng, R, me, argv)
                    ctx.funcs |= set(I.funcs); ncalls += R.calls; outs_n += len(outs); odd(R, m)
                    call = f"{m}({j})" if j is not None else m
                    key = f"{nm}::{m}" + ("" if j is None or want[0] != "none" else ":invalid")
                    def bad_if(c, what, tag): ctx.obligation(not c, f"{tag}:{key}", f"{nm}::{call} of party {me} {what}")
                    bad_if(not outs, "never returns", "noreturn")
                    if want[0] == "const":
                        for s, v, e in outs: bad_if(v.k != "c" or v.a != want[1] or e, f"returns {v!r}"[:120], "value")
                        continue
                    ctx.sample(f"{nm}::{call} of party {me}: {len(outs)} outcomes")
                    if want[0] == "none":
                        for s, v, e in outs:
                            bad_if(e, f"passes a message although the id is not that of a peer ({e[:1]})", "stray"); bad_if(not bad(v), "succeeds although the id is not that of a peer", "accepts")
                        continue
                    if want[0] == "shutdown":
                        for s, v, e in outs: bad_if(good(v) and ("shutdown",) not in e, "returns without shutting the connections down", "shutdown")
                        continue
                    bad_if(not any(good(v) for s, v, e in outs), "never succeeds", "fails")
                    for s, v, e in outs:
                        bad_if(good(v) and ("lost", 1) in s.ts[0], "succeeds although a reception failed", "lost")
                        bad_if(not good(v) and not bad(v), f"returns {v!r}"[:120], "unclear")
                        if want[0] == "send":
                            full = [("send", str(want[1]), "data")]
                            bad_if(e not in ([], full), f"does {e[:2]} instead of sending the data to party {want[1]}", "target")
                            bad_if(good(v) and e != full, "reports success without sending the data", "unsent")
                        elif want[0] == "recv":
                            full = [("recv", str(want[1]))]
                            bad_if(e not in ([], full), f"does {e[:2]} instead of receiving from party {want[1]}", "target")
                            if good(v):
                                L = I.labs(s, val(v)); msg = f"msg:{want[1]}:0"
                                bad_if(not complete(L, msg) or bases(L) != {msg}, f"succeeds with {sorted(bases(L))} instead of the message of party {want[1]}", "message")
                        else:
                            snd = [x for x in e if x[0] == "send"]; rcv = [x for x in e if x[0] == "recv"]
                            bad_if(len(set(snd)) != len(snd) or not set(snd) <= {("send", str(k), "data") for k in (nx, pv)}, f"sends {snd}", "target")
                            bad_if(len(set(rcv)) != len(rcv) or not set(rcv) <= {("recv", str(k)) for k in (nx, pv)}, f"receives {rcv}", "source")
                            bad_if(rcv and (len(snd) < 2 or e[:2] != snd), "waits for a message before both of its own are sent", "order")
                            if good(v):
                                bad_if(len(snd) != 2 or len(rcv) != 2, f"succeeds after {len(snd)} sends and {len(rcv)} receives", "incomplete")
                                l = val(v)
                                el = dict(l.f) if l is not None and l.k == "l" and l.a is None else {}
                                bad_if(sorted(el) != [0, 1, 2], "returns a list that is not one message per party", "slots")
                                for k, x in el.items():
                                    b0 = "arg:data" if k == me else f"msg:{k}:0"; L = I.labs(s, x)
                                    bad_if(not complete(L, b0) or bases(L) != {b0}, f"returns {sorted(bases(L))} as the message of party {k}", "slot")
    ctx.count("outcomes_compared", outs_n); ctx.count("channel_operations", ncalls); ctx.count("networks", seen)
    ctx.obligation(seen >= 1 and ncalls >= 24 and outs_n >= 60, "vacuous", f"only {seen} networks, {ncalls} channel operations and {outs_n} outcomes were analysed")
    ctx.assume += ["a managed channel handed out under a peer's id delivers to that peer, in order (C19, C20)"]
