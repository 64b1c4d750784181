"""C20: network set-up: configuration checks, trust roots, registration of connections, channels, shutdown."""
import lint, rules_cover, models
from terms import *
from terms import _E, O, V, C, STR, COLL, dv, ok, err, mk, upd, EXT
from models import to_it, elem, variants, some, NONE
from absint import IT, UNIT, fget, flag, PRED, OPT, RES, Budget
from engine import *
from cover import is_ok

TUP = lambda *a: STR("()", None, dict(enumerate(a)))
def o(t): return O(frozenset([(t, _E)]))
MAPS = ("std::collections::BTreeMap", "std::collections::HashMap", "std::collections::btree_map::BTreeMap", "std::collections::hash_map::HashMap",
        "std::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap")
SETS = tuple(m.replace("Map", "Set").replace("map", "set") for m in MAPS)
def short(np): return "::".join(np.split("::")[-2:])

class Net(Terms):
    """ext = (comparisons of the path, events)"""
    def __init__(self):
        super().__init__(); self.bad = {}; self.n = {}; self.eps = set(); self.loops = set()
    def init(self): return mk(ext=(_E, _E))
    def say(self, I, k, msg): self.bad.setdefault(k, (msg, I.chain()))
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def ev(self, st, *e):
        x = st.ts[EXT]; st.ts = upd(st.ts, ext=(x[0], x[1] | {e})); return st
    def evs(self, st): return st.ts[EXT][1]
    def conds(self, st): return st.ts[EXT][0]
    # ---------------------------------------------------------------- facts about the configuration
    def on_filter(self, I, st, b):
        if b.k != "c": self.ev(st, "filtered", self.site(I))
    def site(self, I): return tuple(I.stack)
    def on_draw(self, I, st, e):
        """an element drawn from a list of parties is either our own entry or that of another party"""
        L = I.labs(st, e)
        if I.deep(st, e).k == "l": return None
        if not any(b == "party.id" and not fl & {"own", "oth"} for b, fl in L): return None
        out = []
        for who, s in (("own", st.fork()), ("oth", st)):
            C_, E = s.ts[EXT]
            # what is known of an earlier element does not concern this one
            C_ = frozenset((q, tr) for q, tr in C_ if not any(x.split("!")[0].startswith("party.") for x in q[1:] if isinstance(x, str)))
            E = frozenset(x for x in E if x[0] != "at") | {("drew", self.site(I), who), ("at", self.site(I), who)}
            s.ts = upd(s.ts, ext=(C_, E))
            out.append((s, I.mapl(s, I.deep(s, e), lambda L: frozenset((b, fl | {who}) for b, fl in L))))
        return out
    def generic(self, I, st, v):
        """elements put into a collection are told apart again when they are drawn from it"""
        return I.mapl(st, v, lambda L: frozenset((b, fl - {"own", "oth"}) for b, fl in L))
    def on_push(self, I, st, ref, v): return self.generic(I, st, v)
    def t(self, I, st, v):
        r = super().t(I, st, v)
        r = r.replace("!filteroth", "!oth").replace("!filterown", "!own") if "party." in r else r
        if r == "party.id!own": return "my_id"
        return r.replace("!oth", "").replace("!own", "").replace("!filter", "") if "party." in r else r
    def compare(self, I, st, o_, a, b):
        if o_ in ("Eq", "Ne"):
            for x, y in ((a, b), (b, a)):
                if self.t(I, st, x) == "my_id":
                    L = {(q, "own" in fl or q == "my_id", "oth" in fl) for q, fl in I.labs(st, y)}
                    if L in ({("party.id", True, False)}, {("my_id", True, False)}): return C(o_ == "Eq")
                    if L == {("party.id", False, True)}: return C(o_ == "Ne")
        return super().compare(I, st, o_, a, b)
    def exists(self, st, p, truth):
        """an element with this property exists / does not exist"""
        if p[0] == "not" : p, neg = p[1], True
        else: neg = False
        if p[0] == "teq":
            if truth and not neg: self.ev(st, "exists", p)
            if not truth and not neg: self.ev(st, "none", p)
        return st
    def own(self, st):
        if any(e[0] == "drew" and e[2] == "own" for e in self.evs(st)): return True
        if any(q[0] == "teq" and set(q[1:]) == {"keys:party.id", "my_id"} and tr for q, tr in self.conds(st)): return True
        return any(e[0] == "exists" and {x.split("!")[0] for x in e[1][1:]} == {"my_id", "party.id"} and not any("!" in x and x.split("!")[1] not in ("sorted", "uniq", "sorteduniq") for x in e[1][1:]) for e in self.evs(st))
    def uniq(self, st):
        for q, tr in self.conds(st):
            if q[0] == "teq" and tr and set(q[1:]) == {"len(party.id)", "len(uniq)"}: return True
            if q[0] == "lt" and not tr and q[1:] == ("len(uniq)", "len(party.id)"): return True
        E = self.evs(st)
        if any(e[0] == "none" and all(x.startswith("party.id!") and "sorted" in x for x in e[1][1:]) and e[1][1] != e[1][2] for e in E): return True
        return ("fresh", "party.id") in E and ("dupe", "party.id") not in E
    def io(self, I, st, what):
        self.hit("io")
        if not self.own(st): self.say(I, "unchecked:own-id", f"{I.where()}: {what} is reached on a path on which my_id was not found in the list of parties")
        if not self.uniq(st): self.say(I, "unchecked:unique", f"{I.where()}: {what} is reached on a path on which the ids of the parties were not found to be distinct")
    # ---------------------------------------------------------------- calls
    def preds(self, I, st, it, fn):
        for s1, x in elem(I, st, it):
            for s2, b in I.call_value(s1, fn, [x]): yield s2, x, dv(I, s2, b)
    def symbol(self, I, st, f, args):
        n, np = f.name, f.np
        two = short(np)
        T = lambda i: self.t(I, st, args[i])
        base = np.rsplit("::", 1)[0]
        if n in ("with_context", "context", "wrap_err", "wrap_err_with") and args: return [(st, args[0])]
        # ---- searches
        if n in ("find", "any", "all", "position") and "Iterator" in np and len(args) == 2:
            it = to_it(I, st, args[0]); out = []
            for s, x, b in self.preds(I, st, it, args[1]):
                hit = lambda: C(True) if n in ("any",) else C(False) if n == "all" else some(I.mapl(s, I.deep(s, x), lambda L: L if any("own" in fl for b_, fl in L) else flag(L, "found")) if n == "find" else O(frozenset([("idx", frozenset({"own"} if any("own" in fl for b_, fl in I.labs(s, x)) else ()))])))
                miss = lambda: C(n == "all") if n in ("any", "all") else NONE
                want = n != "all"
                if b.k == "c":
                    out.append((s, hit() if bool(b.a) == want else miss())); continue
                if b.k != "p":
                    out += [(s.fork(), hit()), (s.fork(), miss())]; continue
                a, c = s.fork(), s.fork()
                p = b.a if want else (b.a[1] if b.a[0] == "not" else ("not", b.a))
                out += [(self.exists(a, p, True), hit()), (self.exists(c, p, False), miss())]
            return out
        if n == "contains" and len(args) == 2 and dv(I, st, args[0]).k == "l":
            e = dv(I, st, args[0]).a
            if e is not None:
                p = ("teq",) + tuple(sorted((self.t(I, st, e), T(1))))
                a, c = st.fork(), st
                return [(self.exists(a, p, True), C(True)), (self.exists(c, p, False), C(False))]
        # ---- collections of ids
        if n in ("sort", "sort_unstable") and args[0].k == "r":
            for loc in args[0].a: I.store(st, loc, I.mapl(st, I.load(st, loc), lambda L: flag(L, "sorted")))
            return [(st, UNIT)]
        if n == "dedup" and args[0].k == "r":
            for loc in args[0].a:
                I.store(st, loc, I.mapl(st, I.load(st, loc), lambda L: flag(L, "uniq") if all("sorted" in fl for b, fl in L) else flag(L, "dedup")))
            return [(st, UNIT)]
        if n in ("retain", "truncate", "clear", "pop", "remove", "swap_remove", "drain") and args and args[0].k == "r":
            for loc in args[0].a:
                v = I.load(st, loc)
                if v.k == "l": I.store(st, loc, I.mapl(st, v, lambda L: flag(L, "slice")))
        if n == "windows" and args:
            v = dv(I, st, args[0])
            if v.k == "l" and v.a is not None:
                e = v.a
                return [(st, IT(COLL(None, _E, {0: e, 1: I.mapl(st, e, lambda L: flag(L, "succ"))})))]
        if n == "len" and args:
            v = dv(I, st, args[0])
            L = I.labs(st, v) if v.k == "l" else _E
            ids = {(b, fl) for b, fl in L if b == "party.id"}
            if ids and len(ids) == 1:
                fl = next(iter(ids))[1]
                if not fl & {"take", "skip", "filter", "slice", "dedup", "step", "mid"}: return [(st, o("len(uniq)" if "uniq" in fl else "len(party.id)"))]
            if ids: return [(st, o("len(some)"))]
        if n in ("collect", "from_iter") and args:
            ga = " ".join(str(x) for x in (f.raw.get("ga") or [])[-1:]) + " " + str(I.dest_ty or "")
            m = I.models.lookup(I, f)
            if m is not None and ("HashSet<" in ga or "BTreeSet<" in ga or "HashMap<" in ga or "BTreeMap<" in ga):
                out = []
                for s, v in m(I, st, f, args):
                    def key(c):
                        if c.k != "l" or c.a is None: return c
                        if "Set<" in ga: return I.mapl(s, c, lambda L: flag(L, "uniq"))
                        e = c.a
                        return COLL(TUP(I.mapl(s, I.proj(s, e, ("f", 0)), lambda L: flag(L, "uniq")), I.proj(s, e, ("f", 1))))
                    out.append((s, ok(key(v.f[0][1])) if v.k == "s" and v.a == RES and v.b == 0 else v if v.k == "s" else key(v)))
                return out
        # ---- maps and sets
        ismap, isset = base in MAPS or two.startswith(("BTreeMap::", "HashMap::")), base in SETS or two.startswith(("BTreeSet::", "HashSet::"))
        if ismap or isset:
            if n in ("new", "with_capacity", "default"): return [(st, COLL(None))]
            v = dv(I, st, args[0]) if args else None
            if n in ("iter", "iter_mut", "into_iter") and v is not None and v.k == "l": return [(st, IT(v.a))]
            if n == "insert" and isset:
                t = T(1); a, c = st.fork(), st
                if {b for b, fl in I.labs(st, args[1])} == {"party.id"}: t = "party.id"
                return [(self.ev(a, "fresh", t), C(True)), (self.ev(c, "dupe", t), C(False))]
            if n == "insert" and ismap and args[0].k == "r":
                return self.insert(I, st, args)
            if n in ("into_values", "values", "values_mut", "into_keys", "keys") and v is not None and v.k == "l":
                k = 0 if "key" in n else 1
                return [(st, IT(None if v.a is None else I.proj(st, v.a, ("f", k))))]
            if n == "contains_key" and v is not None and v.k == "l":
                kt = "" if v.a is None else self.t(I, st, I.proj(st, v.a, ("f", 0)))
                return [(st, PRED(("teq", "keys:" + kt.split("!")[0], T(1)), I.labs(st, args[1])))]
            if n in ("get", "get_mut") and v is not None and v.k == "l" and v.a is not None:
                kt = self.t(I, st, I.proj(st, v.a, ("f", 0))).split("!")[0]
                a, c = st.fork(), st
                out = []
                for s, tr in ((a, True), (c, False)):
                    for ts in self.atom(I, s, ("teq", "keys:" + kt, T(1)), tr) or []:
                        s2 = s.fork(); s2.ts = ts
                        x = I.proj(s2, v.a, ("f", 1))
                        if T(1) == "my_id" and kt == "party.id": x = I.mapl(s2, I.deep(s2, x), lambda L: flag(L, "own"))
                        out.append((s2, some(x) if tr else NONE))
                return out
        if n in ("index", "get") and len(args) == 2:
            v = dv(I, st, args[0])
            if v.k == "l" and I.labs(st, args[1]) == {("idx", frozenset({"own"}))}:
                x = I.mapl(st, I.proj(st, v, ("e",)), lambda L: flag(L, "own"))
                return [(st, x if n == "index" else some(x))]
        if n == "index" and args and "Index" in np:
            v = dv(I, st, args[0])
            if v.k == "l" and v.a is not None and v.a.k == "s" and v.a.a == "()" and len(v.a.f) == 2:
                mine = T(1) == "my_id" and self.t(I, st, I.proj(st, v.a, ("f", 0))).split("!")[0] == "party.id"
                return [(st, I.mapl(st, I.proj(st, v.a, ("f", 1)), lambda L: flag(L, "own") if mine else L))]
        # ---- files and certificates
        if two in ("fs::read", "File::open", "fs::read_to_string") or n == "read" and "::fs" in np: return [(st, ok(o(f"file({T(0)})"))), (st.fork(), err(o("ioerr")))]
        if "RootCertStore" in np:
            if n == "empty": return [(st, COLL(None))]
            if n in ("len", "is_empty", "clone", "roots"): return None
            self.hit("roots")
            L = {b + "".join(sorted(fl - {"own", "oth"})) for b, fl in I.labs(st, args[1])} if len(args) > 1 else {"?"}
            if n not in ("add", "add_parsable_certificates") or L != {"file(party.cert_path)"}:
                self.say(I, f"roots:{n}", f"{I.where()}: the trust store receives {sorted(L)} through {n}; only the certificates of the configured parties may be trusted")
            if args[0].k == "r":
                for loc in args[0].a: I.store(st, loc, COLL(o("roots")))
            return [(st, ok(UNIT)), (st.fork(), err(o("tlserr")))]
        if "rustls" in np or "quinn" in np or "crypto" in np:
            if n in ("dangerous", "with_custom_certificate_verifier", "set_certificate_verifier", "with_native_roots", "with_webpki_verifier"):
                self.say(I, f"verifier:{n}", f"{I.where()} replaces the verification of server certificates ({n})")
            if n == "with_root_certificates": return [(st, O(frozenset((b if b == "roots" else "foreign:" + b, fl) for b, fl in I.labs(st, args[-1]))))]
            if n in ("set_default_client_config",) and args[0].k == "r":
                for loc in args[0].a: I.store(st, loc, I.addl(I.load(st, loc), I.labs(st, args[1])))
                return [(st, UNIT)]
            if two in ("Endpoint::client", "Endpoint::server", "Endpoint::new"):
                self.io(I, st, two); s = f"ep:{n}"; self.eps.add(s)
                if n == "server": self.listen(I, st, args)
                return [(self.ev(st.fork(), "ep", s), ok(o(s))), (st, err(o("ioerr")))]
            if two in ("Endpoint::connect_with", "Endpoint::connect"):
                self.io(I, st, two); self.hit("dials"); self.here(st)
                cfg = args[1] if n == "connect_with" else args[0]
                L = frozenset(b for b, fl in I.labs(st, cfg) if b == "roots" or b.startswith("foreign:"))
                if L != {"roots"}: self.say(I, "dial:config", f"{I.where()} connects with a client configuration whose trust roots are {sorted(L) or 'not the configured certificates'}")
                addr, name = self.t(I, st, args[-2]), self.t(I, st, args[-1])
                if addr != "party.public_addr": self.say(I, "dial:addr", f"{I.where()} connects to {addr}, not to the public address of the party")
                if name != "party.dns_name": self.say(I, "dial:name", f"{I.where()} expects a certificate for {name}, not for the name configured for the party")
                return [(st, ok(o("dial(party)"))), (st.fork(), err(o("connerr")))]
            if two == "Endpoint::accept": self.io(I, st, two); self.hit("accepts"); self.here(st); return [(st, o("acc"))]
            if two.startswith("Connection::") and n in ("open_uni", "accept_uni"): return [(st, o(f"uni({T(0)})"))]
            if two.startswith("Connection::") and n in ("open_bi", "accept_bi"):
                c = T(0); return [(st, V("fut", _E, "bi", c, ((0, o(c)),)))]
            if two == "Connection::close": self.hit("closes"); return [(self.ev(st, "close", T(0)), UNIT)]
            if two == "Endpoint::close":
                return [(self.ev(self.ev(st, "epclose", T(0)), "close", "conn"), UNIT)]
            if two == "Endpoint::wait_idle": return [(st, V("fut", _E, "idle", T(0), ()))]
            if two == "Connection::stable_id" or n in ("local_addr", "remote_address", "stats"): return [(st, O())]
        if n == "read_u32" or n == "read_u32_le": return [(st, o(f"peerid({T(0)})"))]
        if n in ("write_u32", "write_u32_le"): return [(self.ev(st, "wrote", T(0), T(1)), O())]
        return None
    def on_net(self, I, st, op, site, args):
        if op == "bi":
            c = self.t(I, st, args[0])
            return [(st, ok(TUP(o(f"bi.s({c})"), o(f"bi.r({c})")))), (st.fork(), err(o("ioerr")))]
        if op == "idle":
            self.hit("waits")
            if ("close", "conn") not in self.evs(st): self.say(I, "shutdown:order", f"{I.where()} waits for an endpoint before its connections are closed")
            return [(self.ev(st, "idle", site), UNIT)]
        return super().on_net(I, st, op, site, args)
    def mine(self, st, fl):
        """a part of the entry of a party is taken from our own entry"""
        if "own" in fl: return True
        return not fl - {"k0"} and any(q[0] == "teq" and set(q[1:]) == {"my_id", "party.id"} and tr for q, tr in self.conds(st))
    def listen(self, I, st, args):
        self.hit("listens")
        A = I.labs(st, args[-1])
        if not A or not all(b == "party.bind_addr" and self.mine(st, fl) for b, fl in A):
            self.say(I, "listen:addr", f"{I.where()} listens on {self.t(I, st, args[-1])}, which is not known to be the bind address of our own entry")
        L = I.labs(st, args[0])
        if not any(b == "file(party.cert_path)" for b, fl in L) or not all(b == "file(key_path)" or b == "file(party.cert_path)" and self.mine(st, fl) for b, fl in L):
            self.say(I, "listen:cert", f"{I.where()} presents {sorted(b + ''.join(sorted(fl)) for b, fl in L)}, which is not known to be our own key and certificate")
    def here(self, st): self.loops |= {e[1] for e in self.evs(st) if e[0] == "at"}
    def insert(self, I, st, args):
        key, val = dv(I, st, args[1]), dv(I, st, args[2])
        k = self.t(I, st, key); L = {b for b, fl in I.labs(st, val)}
        if any(b.startswith(("dial(", "acc")) for b in L) or k.startswith("peerid"): self.registration(I, st, k, L)
        elif any(b.startswith("bi.") for b in L): self.channel(I, st, k, L)
        v = dv(I, st, args[0])
        e = self.generic(I, st, TUP(key, val))
        for loc in args[0].a:
            x = I.load(st, loc)
            if x.k == "l": I.store(st, loc, V("l", x.lab, e if x.a is None else I.join(x.a, e), None, ()))
        a, c = st, st.fork()
        known = any(p[0] == "teq" and p[1].startswith("keys:") and p[2] == k and not tr for p, tr in self.conds(st)) and v.a is None
        self.ev(a, "inserted", k)
        r = [(a, NONE)]
        if not known: r.append((self.ev(self.ev(c, "inserted", k), "displaced", k), some(o("old"))))
        return r
    def registration(self, I, st, k, L):
        self.hit("registrations"); C_ = self.conds(st)
        conn = {b for b in L if b.startswith(("dial(", "acc"))}
        if len(conn) != 1: return self.say(I, "register:conn", f"{I.where()} registers {sorted(L)} under {k}")
        conn = next(iter(conn))
        if conn == "dial(party)":
            if k != "party.id": self.say(I, "register:id", f"{I.where()} registers the connection made to a party under {k} instead of the id of that party")
            if not any(e[0] == "wrote" and e[1] == f"uni({conn})" and e[2] == "my_id" for e in self.evs(st)):
                self.say(I, "register:announce", f"{I.where()} registers a connection on which our own id was not announced")
        else:
            if k != f"peerid(uni({conn}))": return self.say(I, "register:id", f"{I.where()} registers an accepted connection under {k} instead of the id its peer announced")
            mem = lambda q, tr: tr and q[0] == "teq" and k in q[1:] and any(x in q[1:] for x in ("keys:party.id", "party.id"))
            if not any(mem(q, tr) for q, tr in C_) and not any(e[0] == "exists" and k in e[1][1:] and any(x.split("!")[0] == "party.id" for x in e[1][1:]) for e in self.evs(st)):
                self.say(I, "register:unknown", f"{I.where()} registers an accepted connection under an announced id without having checked that a party with this id is configured")
            notown = any(q == ("lt", "my_id", k) and tr or q[0] == "teq" and set(q[1:]) == {"my_id", k} and not tr for q, tr in C_)
            if not notown and any(tr and q[0] == "teq" and set(q[1:]) == {k, "party.id"} for q, tr in C_): notown = any(q[0] == "teq" and set(q[1:]) == {"my_id", "party.id"} and not tr or q == ("lt", "my_id", "party.id") and tr for q, tr in C_)
            if not notown: self.say(I, "register:self", f"{I.where()} registers an accepted connection under an announced id that may be our own")
    def channel(self, I, st, k, L):
        self.hit("channels")
        if k != "conn.id": self.say(I, "channel:id", f"{I.where()} hands out a channel under {k} instead of the id of its connection")
        S = {b for b in L if b.startswith("bi.")}
        if S != {"bi.s(conn)", "bi.r(conn)"}: self.say(I, "channel:streams", f"{I.where()} builds the channel of a connection from {sorted(S)}")
        if not any(tr and q[0] == "teq" and set(q[1:]) == {"conn.id", "peerid(bi.r(conn))"} for q, tr in self.conds(st)):
            self.say(I, "channel:unconfirmed", f"{I.where()} hands out a channel whose peer has not confirmed the id of the connection")
        if not any(e[0] == "wrote" and e[1] == "bi.s(conn)" and e[2] == "my_id" for e in self.evs(st)):
            self.say(I, "channel:announce", f"{I.where()} hands out a channel on which our own id was not announced")

def struct(P, adt, vals):
    return STR(adt, None, {i: vals.get(f[0], o(f"{f[0]}")) for i, f in enumerate(P.adts[adt]["variants"][0]["f"])})

def c20(ctx):
    rules_cover._P = P = ctx.prog()
    pick = lambda n: next((a for a in P.adts if a.startswith("mpc_net::") and a.endswith("::" + n)), None)
    PARTY, CONF, HAND = pick("NetworkParty"), pick("NetworkConfig"), pick("MpcNetworkHandler")
    if not ctx.obligation(bool(PARTY and CONF and HAND), "anchor:types", "NetworkParty, NetworkConfig or MpcNetworkHandler was not found"): return
    fields = lambda a: [f[0] for f in P.adts[a]["variants"][0]["f"]]
    for a, want in ((PARTY, ("id", "dns_name", "public_addr", "cert_path")), (CONF, ("parties", "my_id")), (HAND, ("connections", "endpoints", "my_id"))):
        if not ctx.obligation(all(w in fields(a) for w in want), f"anchor:{sh(a)}", f"{a} has no field {want}"): return
    party = STR(PARTY, None, {i: o("party." + n) for i, n in enumerate(fields(PARTY))})
    conf = struct(P, CONF, {"parties": COLL(party), "my_id": o("my_id")})
    hand = struct(P, HAND, {"connections": COLL(TUP(o("conn.id"), o("conn"))), "endpoints": COLL(o("endpoint")), "my_id": o("my_id")})
    ix = {n: i for i, n in enumerate(fields(HAND))}
    pubs = {b.name: b for b in P.bodies.values() if b.implselfadt in (HAND, CONF) and "{closure" not in b.id and "#promoted" not in b.id and "__CALLSITE" not in b.id}
    def go(name, argv):
        b = pubs.get(name)
        if not ctx.obligation(b is not None, f"anchor:{name}", f"{name} was not found"): return None
        R = Net()
        try: I, outs = run_entry(P, R, Entry(b.id, name, b.implselfadt, None), expand_more=(), argv=argv, budget=3000000)
        except Budget as e:
            ctx.obligation(False, f"budget:{name}", f"{name}: {e}"); return None
        ctx.funcs |= set(I.funcs); ctx.count("runs"); ctx.count("exits", len(outs))
        for k, (m, t) in R.bad.items(): ctx.obligation(False, f"{name}:{k}", m, t)
        for k, n in R.n.items(): ctx.count(f"{name}_{k}", n); ctx.obl += n; ctx.dis += n
        return I, R, [(s, dv(I, s, v)) for s, v in outs]
    # ---- the configuration check on its own
    r = go("check_config", {"*self": conf})
    if r:
        I, R, outs = r; good = [s for s, v in outs if is_ok(v)]
        ctx.obligation(good and len(good) < len(outs), "check_config:vacuous", "check_config does not both accept and reject")
        for s in good:
            ctx.obligation(R.own(s), "check_config:own-id", "check_config accepts a configuration without having found my_id in the list of parties")
            ctx.obligation(R.uniq(s), "check_config:unique", "check_config accepts a configuration without having found the ids of the parties to be distinct")
    # ---- establishing
    r = go("establish", {"config": conf})
    if r:
        I, R, outs = r
        ctx.obligation(all(R.n.get(k) for k in ("io", "roots", "dials", "accepts", "listens", "registrations")), "establish:vacuous", f"establish: only {R.n} seen")
        nok = 0
        for s, v in outs:
            if not is_ok(v): continue
            nok += 1; E = R.evs(s); H = dv(I, s, v.f[0][1]) if v.k == "s" and v.f else v
            ctx.obligation(not any(e[0] == "displaced" for e in E), "establish:displaced", "establish can succeed although a connection replaced another one under the same id")
            other = any(e[0] == "drew" and e[1] in R.loops and e[2] == "oth" for e in E)
            ctx.obligation(not other or any(e[0] == "inserted" for e in E), "establish:missing", "establish can succeed without having registered a connection for another party")
            ctx.obligation(not any(e[0] == "filtered" and e[1] in R.loops for e in E), "establish:filtered", "establish leaves out parties by a condition other than being ourselves")
            fld = lambda n: I.labs(s, fget(H, ix[n]) or O())
            got = {b for b, fl in fld("endpoints") if not (fl - {"k0"})}
            need = {e[1] for e in E if e[0] == "ep"}
            ctx.obligation(need <= got, "establish:endpoints", f"the handler does not keep the endpoints {sorted(need - got)} it must wait for at shutdown")
            cs = {b for b, fl in fld("connections")}
            for k in {e[1] for e in E if e[0] == "inserted"}: ctx.obligation(k in cs, "establish:kept", f"the connection registered under {k} is not part of the handler")
            ctx.obligation(R.t(I, s, fget(H, ix["my_id"]) or O()) == "my_id", "establish:my_id", "the handler does not carry our own id")
        ctx.obligation(nok > 0, "establish:success", "establish has no success exit"); ctx.count("establish_success_exits", nok)
    # ---- channels
    r = go("get_custom_channels", {"*self": hand})
    if r:
        I, R, outs = r
        ctx.obligation(R.n.get("channels", 0) >= 1, "channels:vacuous", "no channel is handed out")
        for s, v in outs:
            if not is_ok(v): continue
            E = R.evs(s)
            ctx.obligation(not any(e[0] == "displaced" for e in E), "channels:displaced", "a channel replaced another one under the same id")
            ctx.obligation(any(e == ("inserted", "conn.id") for e in E), "channels:missing", "a connection can end up without a channel although the call succeeds")
    for n in ("get_byte_channels", "get_serde_bincode_channels"):
        r = go(n, {"*self": hand})
        if r:
            I, R, outs = r
            for s, v in outs:
                if is_ok(v): ctx.obligation(any(e == ("inserted", "conn.id") for e in R.evs(s)), f"{n}:missing", f"{n} can succeed without a channel for a connection")
    # ---- shutdown
    r = go("shutdown", {"*self": hand})
    if r:
        I, R, outs = r
        for s, v in outs:
            E = R.evs(s)
            ctx.obligation(("close", "conn") in E, "shutdown:close", f"shutdown does not close every connection (closed: {sorted(e[1] for e in E if e[0] == 'close')})")
            ctx.obligation(("idle", "endpoint") in E, "shutdown:wait", f"shutdown does not wait for every endpoint (waited for: {sorted(e[1] for e in E if e[0] == 'idle')})")
    ctx.assume += ["rustls and quinn verify the server certificate against the trust roots of the client configuration and the name given to connect",
                   "the server side does not authenticate clients by certificate (with_no_client_auth): an accepted peer is identified by the id it announces, as designed"]

def sh(a): return a.split("::")[-1]
