"""C21: the database generators write atomically, every column with the data it is named after."""
import json, re
import lint, rules_cover, models
from terms import *
from terms import _E, O, V, C, STR, COLL, dv, ok, err, mk, upd, EXT
from absint import UNIT, fget, flag, RES, Budget
from engine import *
from posit import positional
from rules_len import code_size
from cover import is_ok

def o(t): return O(frozenset([(t, _E)]))
INSERT = re.compile(r"^\s*INSERT\s+INTO\s+(\w+)\s*\(([^)]*)\)\s*VALUES\s*\(([^)]*)\)\s*;?\s*$", re.I)
CREATE = re.compile(r"^\s*CREATE\s+TABLE\b", re.I)
PART = {"take", "skip", "step", "filter", "slice", "mid", "exact"}

class Db(Terms):
    """ext = (comparisons, events)"""
    def __init__(self, P, iris, inline):
        super().__init__(); self.P = P; self.bad = {}; self.n = {}; self.iris = iris; self.inline = inline; self.inserts = []; self.size = code_size(P)
    def init(self): return mk(ext=(_E, _E))
    def atom(self, I, st, p, truth): return None
    def say(self, I, k, msg): self.bad.setdefault(k, (msg, I.chain()))
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def evs(self, st): return st.ts[EXT][1]
    def ev(self, st, *e):
        x = st.ts[EXT]; st.ts = upd(st.ts, ext=(x[0], x[1] | {e})); return st
    def on_str(self, I, s):
        if s.startswith('"') and s.endswith('"'):
            try: s = json.loads(s)
            except ValueError: s = s[1:-1]
        return o("str:" + s)
    def pos(self, I, st, site, n):
        x = st.ts[EXT]; keep = frozenset(e for e in x[1] if not (e[0] == "pos" and e[1] == site))
        st.ts = upd(st.ts, ext=(x[0], keep | {("pos", site, n)} if n else keep))
    def fails(self, st, what, good):
        b = self.ev(st.fork(), "failed", what)
        return [(st, ok(good)), (b, err(o("dberr")))]
    def sql(self, I, st, v):
        L = [b[4:] for b, f in I.labs(st, v) if b.startswith("str:")]
        return L[0] if len(L) == 1 else None
    def txs(self, I, st, v): return {b for b, f in I.labs(st, v) if b.startswith("tx:")}
    def symbol(self, I, st, f, args):
        n, np = f.name, f.np
        two = "::".join(np.split("::")[-2:])
        db = "rusqlite" in np
        r = positional(I, st, f, args)
        if r is not None: return r
        if n in ("take", "skip", "step_by", "filter", "filter_map", "skip_while", "take_while", "chunks_exact", "nth", "last") and args and any("bits(" in b for b, fl in I.labs(st, args[0])):
            k = dv(I, st, args[1]) if len(args) > 1 else None
            if not (n == "take" and k.k == "c" and self.size is not None and int(k.a) >= self.size): self.say(I, f"partial:{n}", f"{I.where()}: {n}(..) leaves out bits of the code that is shared")
        if n in ("with_context", "context", "wrap_err", "wrap_err_with") and args: return [(st, args[0])]
        if n == "box_assume_init_into_vec_unsafe":
            v = dv(I, st, args[0])
            while v.k == "s" and v.b != "clo" and v.f and len(v.f) == 1: v = dv(I, st, v.f[0][1])
            return [(st, v)]
        if n in ("random_rng", "random") and "IrisCode" in np:
            self.hit("records")
            return [(st, STR(self.iris, None, {i: o("iris." + x[0]) for i, x in enumerate(self.P.adts[self.iris]["variants"][0]["f"])}))]
        if n in ("bits", "as_raw_slice") and "IrisCodeArray" in np: return [(st, o(n + "(" + self.t(I, st, args[0]) + ")"))]
        if two.startswith("Rng::") or two.startswith("RngCore::") or np.startswith("rand::"):
            if n in ("gen", "gen_range", "next_u64", "next_u32", "sample", "random"): return [(st, o("rand:" + I.site("rand")))]
            return [(st, o("rng"))]
        if n in ("to_sharetype", "to_verificationtype", "to_verificationshare", "from_sharetype") and len(args) == 1: return [(st, o(self.t(I, st, args[0])))]
        if two == "From::from" and len(args) == 1 and dv(I, st, args[0]).k == "o": return [(st, dv(I, st, args[0]))]
        if n == "serialize" and np.startswith("bincode"):
            v = dv(I, st, args[0])
            L = frozenset((("ser(" + b + ")") if not b.startswith("ser(") else "ser(?)", fl) for b, fl in I.labs(st, v))
            return self.fails(st, "serialize", O(L))
        if n == "deserialize" and np.startswith("bincode"): return self.fails(st, "deserialize", O(I.labs(st, args[0])))
        if not db: return None
        if n == "open" or n == "open_in_memory" or n == "open_with_flags": return self.fails(st, "open", o("conn"))
        if n in ("transaction", "unchecked_transaction", "transaction_with_behavior", "savepoint", "new") and not (n == "new" and "Transaction" not in np):
            self.hit("transactions"); s = "tx:" + I.site("tx")
            if ("open", s) in self.evs(st):
                x = st.ts[EXT]; st.ts = upd(st.ts, ext=(x[0], frozenset(e for e in x[1] if e != ("open", s) and not (e[0] == "dirty" and e[1] == s))))
                if any(e[0] == "dirty" and e[1] == s for e in x[1]): st = self.ev(st, "rolledback", s)
            return self.fails(self.ev(st, "open", s), "transaction", o(s))
        if n in ("prepare", "prepare_cached"):
            q = self.sql(I, st, args[1])
            if q is None: self.say(I, "sql", f"{I.where()} prepares a statement whose text is not a constant")
            return self.fails(st, "prepare", O(frozenset([("stmt", _E), ("str:" + (q or ""), _E)] + [(t, _E) for t in self.txs(I, st, args[0])])))
        if n in ("execute", "insert", "execute_named", "raw_execute", "execute_batch"):
            return self.execute(I, st, f, args)
        if n == "commit":
            self.hit("commits"); a = st.fork(); t = self.txs(I, st, args[0])
            x = a.ts[EXT]
            tabs = {e[2] for e in x[1] if e[0] == "dirty" and e[1] in t}
            a.ts = upd(a.ts, ext=(x[0], frozenset(e for e in x[1] if not (e[0] in ("dirty", "open") and e[1] in t)) | {("committed", y) for y in tabs}))
            return [(a, ok(UNIT)), (self.ev(st, "failed", "commit"), err(o("dberr")))]
        if n == "set_drop_behavior":
            if not any("Rollback" in b or "Panic" in b for b, fl in I.labs(st, args[-1])): self.say(I, "drop-behavior", f"{I.where()} changes what happens to a transaction that is dropped: a failure may leave a part of the batch written")
            return [(st, UNIT)]
        return None
    def execute(self, I, st, f, args):
        stmt = "Statement" in f.np
        q = self.sql(I, st, args[0] if stmt else args[1])
        par = args[-1] if len(args) > (1 if stmt else 2) else None
        if q is None:
            self.say(I, "sql", f"{I.where()} executes a statement whose text is not a constant"); return self.fails(st, "execute", O())
        if CREATE.match(q): return self.fails(st, "execute", O())
        m = INSERT.match(q)
        if not m:
            self.say(I, "sql-form", f"{I.where()} executes {q[:60]!r}, which is neither a plain CREATE TABLE nor a plain INSERT INTO"); return self.fails(st, "execute", O())
        self.hit("inserts")
        tab = m.group(1); cols = [c.strip() for c in m.group(2).split(",")]; pars = [c.strip() for c in m.group(3).split(",")]
        tx = self.txs(I, st, args[0])
        if len(tx) != 1: self.say(I, f"outside:{tab}", f"{I.where()} inserts into {tab} outside of a transaction")
        else:
            t = next(iter(tx))
            if ("committed", tab) in self.evs(st) or ("rolledback", t) in self.evs(st): self.say(I, f"split:{tab}", f"{I.where()} spreads the records of {tab} over several transactions: a failure leaves a part of the batch written")
        v = dv(I, st, par) if par is not None else None
        vals = None
        if v is not None and v.k == "l" and v.f: vals = [x for _, x in sorted(v.f)]
        elif v is not None and v.k == "s" and v.a == "()": vals = [x for _, x in sorted(v.f)]
        if vals is None and v is not None and v.k == "l" and v.a is not None and len(cols) > 8: vals = None
        if vals is None: self.say(I, f"params:{tab}", f"{I.where()}: the values bound to the columns of {tab} could not be told apart ({v!r})"[:200])
        else:
            order = []
            nxt = 0
            for p in pars:
                k = re.fullmatch(r"\?(\d+)", p)
                if k: order.append(int(k.group(1)) - 1); nxt = int(k.group(1))
                elif p == "?": order.append(nxt); nxt += 1
                else: order.append(None)
            if len(cols) != len(pars) or len(vals) != len(pars) or None in order or max(order) >= len(vals):
                self.say(I, f"arity:{tab}", f"{I.where()}: {len(cols)} columns of {tab}, {len(pars)} parameters, {len(vals)} values")
            else: self.row(I, st, tab, cols, [vals[i] for i in order])
        outs = self.fails(self.ev(st, "dirty", next(iter(tx)) if len(tx) == 1 else "?", tab), "execute", O())
        for s, _ in outs: self.age(I, s)
        return outs
    def age(self, I, s):
        """whatever was derived from the record just written belongs to an earlier record from now on"""
        def rec(b): return b.startswith(("ser(", "bits(", "rand:", "lin(", "iris.", "as_raw")) or "bits(" in b
        for fr in range(len(s.fr)):
            for l in list(s.locals(fr)):
                v = s.get(fr, l)
                if not isinstance(v, V) or v.k in ("fn", "r", "c") or self.iris in repr(v.a) + repr(v.f) + repr(v.k): continue
                L = I.flat(v)
                if any(rec(b) for b, fl in L):
                    s.put(fr, l, I.mapl(s, v, lambda X: frozenset((b, fl | {"old"} if rec(b) and b not in self.keep else fl) for b, fl in X)) if v.k != "s" or v.b != "clo" else v)
    keep = frozenset()
    def names(self, I, st, v):
        v = dv(I, st, v)
        return {(b, fl) for b, fl in I.labs(st, v)}
    def on_return(self, I, st, fid, v):
        """the shares of the value most recently shared"""
        if not fid.split("::")[-1] == "share" or sum(1 for x, _ in I.stack if x.split("::")[-1] == "share") > 0: return
        v = dv(I, st, v)
        if v.k != "l" or len(v.f) != 3: self.say(I, "shares", f"{fid}: the three shares could not be told apart"); return
        comps = []
        for i, x in v.f:
            x = dv(I, st, x)
            for path, t in self.parts(I, st, x): comps.append((i, path, t))
        x = st.ts[EXT]
        st.ts = upd(st.ts, ext=(x[0], frozenset(e for e in x[1] if e[0] != "share") | {("share",) + c for c in comps}))
    def parts(self, I, st, x, path=""):
        ad = self.P.adts.get(x.a) if x.k == "s" else None
        if ad:
            for i, fd in enumerate(ad["variants"][0]["f"]):
                y = fget(x, i)
                if y is not None: yield from self.parts(I, st, dv(I, st, y), path + "." + fd[0])
        else: yield path, self.t(I, st, x)
    def row(self, I, st, tab, cols, vals):
        sh = {(e[1], e[2]): e[3] for e in self.evs(st) if e[0] == "share"}
        val = ".value" if any(p.startswith(".value") for _, p in sh) else ""
        for c, v in zip(cols, vals):
            self.hit("columns")
            got = self.names(I, st, v)
            g = "+".join(sorted(b + "".join("!" + x for x in sorted(fl)) for b, fl in got))[:160]
            want = None
            if c in ("code", "mask"): want = f"as_raw_slice(iris.{c})"
            elif c == "key": want = "key"
            elif (m := re.fullmatch(r"(share|mac)_([abc])", c)):
                p = (val if m.group(1) == "share" else ".mac") + ".a"
                want = sh.get(("abc".index(m.group(2)), p))
                if want is None:
                    self.say(I, f"no-share:{tab}.{c}", f"{I.where()}: column {tab}.{c} is written but nothing with such a component was shared before"); continue
                want = f"ser({want})"
            elif c == "share_d":
                w = {sh.get((i, ".c")) for i in range(3)}
                want = f"ser({next(iter(w))})" if len(w) == 1 and None not in w else "?"
            else:
                self.say(I, f"column:{tab}.{c}", f"{I.where()}: unknown column {c} of {tab}"); continue
            if want == "key":
                good = len(got) == 1 and next(iter(got))[0].startswith("ser(rand:") and not next(iter(got))[1]
                if good: st.ts = upd(st.ts, ext=(st.ts[EXT][0], st.ts[EXT][1] | {("key", next(iter(got))[0][4:-1])}))
            else: good = got == {(want, _E)}
            if any("old" in fl for b, fl in got): self.say(I, f"stale:{tab}.{c}", f"{I.where()}: column {tab}.{c} also receives data of an earlier record ({g})")
            elif not good: self.say(I, f"column:{tab}.{c}", f"{I.where()}: column {tab}.{c} receives {g}, expected {want[:160]}")
            self.inserts.append((tab, c, g[:70]))
        if tab == "iris_codes" and sh:
            # what was shared is the code of this very record
            tot = {x for t in sh.values() for x in re.findall(r"bits\([\w.]+\)|iris\.\w+", t)}
            if tot != {"bits(iris.code)"}: self.say(I, f"shared:{tab}", f"{I.where()}: the shares written to {tab} are those of {sorted(tot)}, not of the code of the record")
        if tab == "mac_key" and sh:
            k = [e[1] for e in self.evs(st) if e[0] == "key"]
            if not k or not any(k[0] in t for t in sh.values()): self.say(I, f"shared:{tab}", f"{I.where()}: the shares written to {tab} are not those of the key")
        if val and tab == "iris_codes":
            k = [e[1] for e in self.evs(st) if e[0] == "key"]
            if not k or not all(any(k[0] in t for (i, p), t in sh.items() if p.startswith(".mac") and True) for _ in (0,)):
                self.say(I, f"tag-key:{tab}", f"{I.where()}: the tags written to {tab} are not made with the key written to mac_key")

def c21(ctx):
    rules_cover._P = P = ctx.prog()
    iris = next((a for a in P.adts if a.endswith("::IrisCode")), None)
    mains = [b for b in P.bodies.values() if "create_sample_data" in b.crate and b.id.split("@")[0].endswith("::main") and "{" not in b.id]
    ctx.obligation(bool(iris) and len(mains) == 2, "anchor", f"IrisCode or the two generators were not found ({[b.id for b in mains]})")
    if not iris: return
    tot = 0
    for b in mains:
        R = Db(P, iris, ())
        try: I, outs = run_entry(P, R, Entry(b.id, "main", "", None), budget=3000000)
        except Budget as e:
            ctx.obligation(False, f"budget:{b.crate}", str(e)); continue
        ctx.funcs |= set(I.funcs); nm = b.crate.split(".")[1].split("-")[0]
        good = [s for s, v in outs if is_ok(dv(I, s, v))]
        ctx.obligation(bool(good), f"{nm}:success", f"{nm} has no success exit")
        for s in good:
            E = R.evs(s)
            d = sorted({e[2] for e in E if e[0] == "dirty"})
            ctx.obligation(not d, f"{nm}:uncommitted", f"{nm} can report success although the records of {d} were not committed")
            fl = sorted({e[1] for e in E if e[0] == "failed"})
            ctx.obligation(not fl, f"{nm}:swallowed", f"{nm} can report success although {fl} failed")
            ctx.obligation(any(e == ("committed", "iris_codes") for e in E), f"{nm}:nothing", f"{nm} can report success without having committed the records")
        for k, (m, t) in R.bad.items(): ctx.obligation(False, f"{nm}:{k}", m, t)
        for k, n in R.n.items(): ctx.count(f"{nm}_{k}", n); ctx.obl += n; ctx.dis += n
        tot += R.n.get("columns", 0)
        for x in sorted(set(R.inserts)): ctx.sample(f"{nm}: {x[0]}.{x[1]} <- {x[2]}")
        ctx.count(f"{nm}_success_exits", len(good))
    ctx.obligation(tot >= 20, "vacuous", f"only {tot} column bindings were analysed")
    ctx.assume += ["rusqlite rolls back a transaction that is dropped without commit (its default)", "whether as many records are generated as asked for is not part of the property"]
