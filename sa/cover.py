"""Coverage rule: what is received is checked or registered before success is reported."""
from absint import *
from absint import _E
from engine import *

OPAQUE = ("::types::", "dzkp::polynomial", "dzkp::gf2p64", "irreducible_polys")

def strip(labels):
    """labels as recorded for a comparison: hashing does not matter, lengths do not count"""
    return frozenset((b, frozenset(x for x in f if x not in "hr")) for b, f in labels if "l" not in f)

# typestate: received bases, compared labels, mismatch sites, sent (peer, label), empty-known bases, observations
def mk(rcv=_E, cmp=_E, bad=_E, sent=_E, emp=_E, obs=_E, ext=None): return (rcv, cmp, bad, sent, emp, obs, ext)
RCV, CMP, BAD, SENT, EMP, OBS, EXT = range(7)

def upd(ts, **kw):
    d = dict(rcv=ts[0], cmp=ts[1], bad=ts[2], sent=ts[3], emp=ts[4], obs=ts[5], ext=ts[6])
    d.update(kw)
    return mk(**d)

class Cover(Rule):
    def __init__(self):
        self.recv_desc = {}
        self.cmp_sites = set(); self.net_sites = set()
        self.diverge = {}
        self.weak = set()
        self.track_sent = True
    def opaque(self, fid): return any(x in fid for x in OPAQUE)
    def init(self): return mk()
    def netres(self, I, st, okv, ts):
        a = st; b = st.fork()
        a.ts = ts
        return [(a, ok(okv)), (b, err(O(frozenset([lab("ioerr")]))))]
    def peer(self, I, op, args):
        if op.endswith("next_id"): return "next"
        if op.endswith("prev_id"): return "prev"
        if len(args) > 1 and args[1].k == "c" and I.party is not None:
            return {0: "self", 1: "next", 2: "prev"}[(args[1].a - I.party) % 3]
        return "peer"
    def received(self, ts, nb):
        """a new message arrives at these sites: an earlier one of the same site must not count for it"""
        cmp_ = frozenset(l for l in ts[CMP] if l[0] not in nb)
        sent = frozenset((p, l) for p, l in ts[SENT] if l[0] not in nb)
        return upd(ts, rcv=ts[RCV] | nb, cmp=cmp_, sent=sent)
    def on_net(self, I, st, op, site, args):
        ts = st.ts
        self.net_sites.add(site)
        if op.startswith("send"):
            L = I.labs(st, args[-1])
            p = self.peer(I, op, args)
            ts = self.on_send(I, st, ts, (p,), L, site)
            return self.netres(I, st, UNIT, ts)
        if op.startswith("receive"):
            p = self.peer(I, op, args)
            b = f"recv:{p}:{site}"
            self.recv_desc[b] = (p, I.chain())
            return self.netres(I, st, O(frozenset([lab(b)])), self.received(ts, {b}))
        if op == "broadcast":
            d = args[-1]
            L = I.labs(st, d)
            ts = self.on_send(I, st, ts, ("next", "prev"), L, site)
            fixed = {}; nb = set()
            for k in range(3):
                if k == I.party: fixed[k] = I.deep(st, d); continue
                p = {1: "next", 2: "prev"}[(k - (I.party or 0)) % 3] if I.party is not None else f"p{k}"
                b = f"recv:{p}:{site}"
                self.recv_desc[b] = (p, I.chain())
                nb.add(b); fixed[k] = O(frozenset([lab(b)]))
            return self.netres(I, st, COLL(None, _E, fixed), self.received(ts, nb))
        return self.netres(I, st, UNIT, ts)
    def on_send(self, I, st, ts, peers, L, site):
        return upd(ts, sent=ts[SENT] | frozenset((p, l) for p in peers for l in L if l[0].startswith(("recv:", "self."))))
    def on_branch(self, I, st, p, truth):
        if p[0] == "empty" and truth:
            return [upd(st.ts, emp=st.ts[EMP] | bases(p[1], True))]
        if p[0] != "eq": return None
        # tests of generator output alone (rejection sampling) compare nothing
        if not any(b.startswith("recv:") and "r" not in f and "l" not in f for b, f in p[1] | p[2]): return None
        A, B = strip(p[1]), strip(p[2])
        self.cmp_sites.add(p[3])
        if truth:
            # a peer's data is no check on itself: unless hashes are involved (digests, commitments), a comparison
            # counts only when it brings together data from two peers or registered earlier
            peers = {b.split(":")[1] for b, f in A | B if b.startswith("recv:")}
            if len(peers) == 1 and not any("h" in f for _, f in p[1] | p[2]):
                self.weak.add(p[3])
                return None
            return [upd(st.ts, cmp=st.ts[CMP] | A | B)]
        return [upd(st.ts, bad=st.ts[BAD] | {p[3]})]
    def on_diverge(self, I, st, what, args):
        if st.ts[BAD]:
            self.diverge.setdefault((what, tuple(sorted(st.ts[BAD]))), I.chain())

def self_fields(I, s):
    """{access path: labels} of the engine's persistent state"""
    out = {}
    def walk(v, path):
        if v.k == "s" and v.f and v.a in I.expand:
            for k, x in v.f:
                fd = I.field_of(v.a, k)
                walk(x, path + "." + (fd[0] if fd else str(k)))
            return
        out[path] = I.labs(s, v)
    v = s.get(0, "self")
    if v is not None: walk(v, "self")
    return out

def is_ok(v):
    """can this return value be a success? (definite errors are not)"""
    return not (v.k == "s" and v.a == RES and v.b == 1)
