"""C01-C05: what malicious-secure engines receive is checked."""
import lint
from cover import *

BUDGET = 3000000
OPENS = ("open", "open_many", "open_bit", "open_bit_many", "open_mac_key")
_P = None

def work(item):
    eng, en, party = item
    r = Cover(); r.keepbase = lambda b: b.startswith(("recv:", "arg:"))
    try:
        I, outs = run_entry(_P, r, en, party, budget=BUDGET)
    except Budget as e:
        return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=str(e))
    oks = []
    for s, v in outs:
        if not is_ok(v): continue
        oks.append(dict(rcv=s.ts[RCV], cmp=s.ts[CMP], bad=s.ts[BAD], sent=s.ts[SENT], emp=s.ts[EMP],
                        fields=self_fields(I, s), ret=I.labs(s, v)))
    return dict(eng=eng, name=en.name, trait=en.trait, party=party, over=None, oks=oks, nouts=len(outs), steps=I.steps,
                desc=r.recv_desc, cmps=r.cmp_sites, nets=r.net_sites, div=r.diverge, funcs=set(I.funcs), fid=en.fid)

def analyse(ctx, only=None, parties=(0, 1, 2)):
    global _P
    _P = ctx.prog("iris_mpc")
    items = []
    E = engines(_P)
    mal = [e for e in E if E[e]["malicious"]]
    if len(mal) < 3:
        ctx.violation("anchor:engines", f"expected at least three malicious-secure engines in the impl tables, found {mal}")
    for e in mal:
        for en in entries(_P, e):
            if only and not only(e, en): continue
            for p in parties: items.append((e, en, p))
    # long ones first
    items.sort(key=lambda x: -len(_P.bodies[x[1].fid].blocks) - (1000 if x[1].name == "verify" else 0))
    res = lint.pmap(work, items)
    for r in res:
        if r["over"]:
            ctx.violation(f"budget:{sh(r['eng'])}::{r['name']}", "analysis did not finish within its budget: " + r["over"])
            continue
        ctx.funcs |= {shortfn(f) for f in r["funcs"]}
        ctx.count("entry_runs"); ctx.count("success_states", len(r["oks"])); ctx.count("abstract_steps", r["steps"])
        ctx.count("network_call_contexts", len(r["nets"]))
    return mal, [r for r in res if not r["over"]]

def sh(e): return e.split("::")[-1]

def accumulators(rs):
    """{engine: {field path}}: engine state to which operations append received, not yet compared data"""
    acc = {}
    for r in rs:
        a = acc.setdefault(r["eng"], set())
        for o in r["oks"]:
            for b in o["rcv"]:
                if complete(o["cmp"], b): continue
                for f, L in o["fields"].items():
                    if any(x == b and "l" not in fl and "r" not in fl for x, fl in L) and any(x == f for x, fl in L): a.add(f)
    return acc

def ancestors(f):
    p = f.split(".")
    return [".".join(p[:i]) for i in range(len(p), 0, -1)]

def has(L, f): return any(complete(L, a) for a in ancestors(f))

def retained(o, f):
    """is the content that field f had at entry still in full in f (or in the struct around it)?"""
    if not any(a in o["fields"] for a in ancestors(f)): return True      # never touched
    return any(a in o["fields"] and has(o["fields"][a], f) for a in ancestors(f))

def is_transcript(P, eng, f):
    """byte buffers are hashed transcripts; anything else is a register of algebraic data"""
    ad = P.adts.get(eng)
    p = f.split(".")[1:]
    ty = ""
    for x in p:
        if ad is None: return False
        fs = [y for y in ad["variants"][0]["f"] if y[0] == x]
        if not fs: return False
        ty = fs[0][1]; ad = P.adts.get(fs[0][2])
    return "Bytes" in ty or "Vec<u8" in ty

def base_name(b, desc):
    """readable, line-free name of a received datum"""
    p, ch = desc.get(b, (b.split(":")[1], []))
    names = []
    for c in ch:
        n = c.split(" ")[0].split("::")[-1]
        if not names or names[-1] != n: names.append(n)
    return f"{'>'.join(names[1:] or names)}[{p}]"

def dedupe(names): return ">".join(names)

def where_of(r, b): return ["received from " + r["desc"][b][0] + " via:"] + ["  " + x for x in r["desc"][b][1]] if b in r["desc"] else []

def ent(r): return f"{sh(r['eng'])}::{r['name']}"

class Table:
    """accumulators and which of them some opening or verification checks"""
    def __init__(self, P, rs):
        self.acc = accumulators(rs)
        self.trans = {e: {f for f in a if is_transcript(P, e, f)} for e, a in self.acc.items()}
        self.prod = {e: a - self.trans[e] for e, a in self.acc.items()}
        self.checked = {}
        for r in rs:
            if r["name"] in OPENS or r["name"] == "verify":
                for o in r["oks"]:
                    for f in self.acc[r["eng"]]:
                        if has(o["cmp"], f) or has(sent_labels(o), f): self.checked.setdefault(r["eng"], set()).add(f)

def sent_labels(o): return frozenset(l for _, l in o["sent"])

def forwarded(o, b):
    """was the datum passed on in full to a peer other than the one it came from?"""
    p0 = b.split(":")[1]
    return complete(frozenset(l for p, l in o["sent"] if p != p0), b)

def emptied(o, f): return any(a in o["emp"] for a in ancestors(f) if a != "self")

TECH = ("interprocedural, path-sensitive abstract interpretation of the compiler's MIR (typestate over provenance labels): every entry point of every "
        "malicious-secure engine is analysed once per party role with all helpers inlined; ")

# ------------------------------------------------------------------ C01
def c01(ctx):
    mal, rs = analyse(ctx)
    T = Table(ctx.prog("iris_mpc"), rs)
    ctx.assume += ["an equality test between labelled values (==, ct_eq, iterator all/any of them, is_zero) whose false side is taken separately is what counts as a comparison",
                   "loops over batches are analysed for at least one iteration; a comparison inside a loop or iterator covers all elements it ranges over",
                   "hashes are collision resistant: comparing hashes compares the hashed data"]
    n = 0
    for r in rs:
        if r["name"] not in OPENS: continue
        if not r["oks"]:
            ctx.violation(f"anchor:{ent(r)}", "no success path found for this opening: it cannot be analysed"); continue
        for o in r["oks"]:
            n += 1
            for b in sorted(o["rcv"]):
                ctx.obligation(complete(o["cmp"], b), f"uncompared:{ent(r)}:{base_name(b, r['desc'])}",
                    f"{ent(r)} returns Ok on a path where data received in {base_name(b, r['desc'])} was not (fully) compared with anything",
                    where_of(r, b))
            for f in sorted(rcvq(rs, r["eng"])):
                # transcripts of received data: what was registered before the opening is compared too
                if pure_local(r): continue
                ctx.obligation(has(o["cmp"], f) or emptied(o, f), f"transcript:{ent(r)}:{f}",
                    f"{ent(r)} returns Ok on a path where the data registered earlier in {f} was not compared")
    ctx.count("opening_success_states", n)
    for e in mal:
        names = {r["name"] for r in rs if r["eng"] == e and r["oks"] and r["nets"]}
        for x in ("open", "open_many", "open_bit", "open_bit_many"):
            ctx.obligation(x in names, f"anchor:{sh(e)}::{x}", f"{sh(e)}::{x} not found or exchanges no messages")
        ctx.sample(f"{sh(e)}: transcripts {sorted(T.trans[e])}")
        ctx.obligation(bool(rcvq(rs, e)), f"anchor:transcript:{sh(e)}", f"{sh(e)} keeps no transcript of received data that some opening compares")

def pure_local(r): return not r["nets"]

_rq = {}
def rcvq(rs, eng):
    """transcript fields that hold data received (not only echoes of own data) and that openings compare"""
    k = (id(rs), eng)
    if k not in _rq:
        out = set()
        for r in rs:
            if r["eng"] != eng: continue
            for o in r["oks"]:
                for l, fl in o["cmp"]:
                    if l.startswith("self.") and "." not in l[5:]: out.add(l)
        P = _P
        _rq[k] = {f for f in out if is_transcript(P, eng, f)}
    return _rq[k]

# ------------------------------------------------------------------ C02
def c02(ctx):
    mal, rs = analyse(ctx)
    cs = {e: set() for e in mal}
    for r in rs:
        cs[r["eng"]] |= r["cmps"]
        for o in r["oks"]:
            ctx.obligation(not o["bad"], f"ignored:{ent(r)}:{'+'.join(sorted(o['bad']))}",
                f"{ent(r)} can return Ok although the comparison of received data in {', '.join(sorted(o['bad']))} failed")
            for b in sorted({b for b, f in o["cmp"] if b.startswith("recv:") and "l" not in f}):
                ctx.obligation(complete(o["cmp"], b), f"partial:{ent(r)}:{base_name(b, r['desc'])}",
                    f"{ent(r)} can return Ok after comparing only a part of {base_name(b, r['desc'])}: a difference in the rest goes unnoticed", where_of(r, b))
        for (what, bad), ch in sorted(r["div"].items()):
            ctx.obligation(False, f"panic:{ent(r)}:{'+'.join(bad)}", f"a failed comparison in {', '.join(bad)} panics ({what}) instead of returning an error", ch)
    ctx.count("comparison_sites", sum(len(x) for x in cs.values()))
    for e in mal:
        ctx.sample(f"{sh(e)}: received data compared in {sorted(cs[e])}")
        ctx.obligation(len(cs[e]) >= 3, f"anchor:compare:{sh(e)}", f"{sh(e)}: fewer than three comparisons of received data found")
    ctx.assume += ["a comparison is an equality test one of whose operands carries data received from a peer in this operation"]

# ------------------------------------------------------------------ C03
def c03(ctx):
    mal, rs = analyse(ctx)
    T = Table(ctx.prog("iris_mpc"), rs)
    n = 0
    for r in rs:
        e = r["eng"]
        chk = T.checked.get(e, set())
        if r["name"] not in OPENS:
            for o in r["oks"]:
                n += 1
                reg = frozenset(l for f, L in o["fields"].items() if f in chk for l in L if "r" not in l[1])
                if keys_only(o):
                    ctx.count("key_exchange_states"); continue
                for b in sorted(o["rcv"]):
                    good = complete(o["cmp"] | reg, b) or (r["name"] == "verify" and forwarded(o, b))
                    ctx.obligation(good, f"unregistered:{ent(r)}:{base_name(b, r['desc'])}",
                        f"{ent(r)} returns Ok although data received in {base_name(b, r['desc'])} was neither compared nor recorded (in full) for a later check",
                        where_of(r, b))
        for o in r["oks"]:
            for f in sorted(T.acc[e]):
                if r["name"] == "verify" and f in T.prod[e]: continue          # C04
                good = retained(o, f) or has(o["cmp"], f) or has(sent_labels(o), f) or emptied(o, f)
                ctx.obligation(good, f"dropped:{ent(r)}:{f}", f"{ent(r)} can succeed after discarding the pending data in {f} without checking it")
    ctx.count("operation_success_states", n)
    for e in mal:
        ctx.sample(f"{sh(e)}: pending state {sorted(T.acc[e])}, checked by an opening or verification: {sorted(T.checked.get(e, ()))}")
        for f in T.acc[e]:
            ctx.obligation(f in T.checked.get(e, ()), f"unchecked:{sh(e)}:{f}", f"{sh(e)}: received data recorded in {f} is never compared by any opening or verification")
        m = {r["name"] for r in rs if r["eng"] == e and r["nets"] and r["oks"]}
        for x in ("input", "mul", "dot", "dot_many", "get_msb", "get_msb_many", "and", "and_many", "preprocess"):
            ctx.obligation(x in m, f"anchor:{sh(e)}::{x}", f"{sh(e)}::{x} not found, has no success path or exchanges no messages")

def keys_only(o):
    """a plain exchange of pairwise generator keys: everything received is used for nothing but keying the
    generator shared with its sender, so there is nothing to compare it with"""
    allf = [l for L in o["fields"].values() for l in L]
    return bool(o["rcv"]) and not o["ret"] and all(
        any(x == b and "r" in f for x, f in allf) and not any(x == b and "r" not in f for x, f in allf) and
        not any(l[0] == b for _, l in o["sent"]) for b in o["rcv"])

# ------------------------------------------------------------------ C04
def c04(ctx):
    mal, rs = analyse(ctx)
    T = Table(ctx.prog("iris_mpc"), rs)
    deferred = [e for e in mal if T.prod[e]]
    ctx.obligation(len(deferred) >= 2, "anchor:deferred", f"expected two engines that defer product checks, found {list(map(sh, deferred))}")
    for e in deferred:
        P = T.prod[e]
        groups = {}
        for f in P: groups.setdefault(f.rsplit(".", 1)[0], set()).add(f)
        # registers of one struct are filled together, so one of them being empty means that all are
        for r in rs:
            if r["eng"] != e or r["name"] == "verify": continue
            for o in r["oks"]:
                for g, fs in groups.items():
                    if g == "self": continue
                    gf = group_fields(o, g)
                    grow = {f for f in gf if any(not x.startswith(f) for x, fl in o["fields"][f])}
                    if grow: ctx.obligation(grow == set(gf), f"partial:{ent(r)}:{g}", f"{ent(r)} fills {sorted(grow)} but not {sorted(set(gf) - grow)}")
        seen = set()
        for r in rs:
            if r["eng"] != e or r["name"] != "verify": continue
            for o in r["oks"]:
                S = sent_labels(o)
                for f in sorted(P):
                    done = has(o["cmp"], f) or has(S, f)
                    g = f.rsplit(".", 1)[0]
                    skip = emptied(o, f) or any(x.rsplit(".", 1)[0] == g and g != "self" for x in o["emp"])
                    if done: seen.add(f)
                    ctx.obligation(done or skip, f"unverified:{ent(r)}:{f}", f"{ent(r)} can return Ok although products registered in {f} did not (all) enter a check")
                for b in sorted(o["rcv"]):
                    ctx.obligation(complete(o["cmp"], b) or forwarded(o, b), f"unused:{ent(r)}:{base_name(b, r['desc'])}",
                        f"{ent(r)} can return Ok although the verification message received in {base_name(b, r['desc'])} was not used in a check", where_of(r, b))
                ctx.obligation(not o["bad"], f"ignored:{ent(r)}", f"{ent(r)} returns Ok after a failed check in {sorted(o['bad'])}")
        for f in sorted(P):
            ctx.obligation(f in seen, f"vacuous:{sh(e)}:{f}", f"{sh(e)}::verify never checks the products registered in {f}")
        # the openings inside other operations may verify early, but must not drop anything
        for r in rs:
            if r["eng"] != e or r["name"] == "verify": continue
            for o in r["oks"]:
                for f in sorted(P):
                    good = retained(o, f) or has(o["cmp"], f) or has(sent_labels(o), f) or emptied(o, f)
                    ctx.obligation(good, f"dropped:{ent(r)}:{f}", f"{ent(r)} can succeed after discarding the products registered in {f} unchecked")
        ctx.sample(f"{sh(e)}: product registers {sorted(P)}")

def group_fields(o, g): return [f for f in o["fields"] if f.rsplit(".", 1)[0] == g]

# ------------------------------------------------------------------ C05
def emptied_b(ts, L):
    """the check was skipped because the queue that this very value had been put into is empty"""
    return any(b.startswith("arg:") and b in ts[EMP] for b, _ in L)

class MacRule(Cover):
    keepbase = staticmethod(lambda b: b.startswith("arg:"))
    """remember, for every message, which labels it carries and what had been compared by then"""
    def __init__(self):
        super().__init__(); self.sends = {}
    def on_send(self, I, st, ts, peers, L, site):
        k = (site, frozenset(l for l in L if l[0].startswith(("arg:", "self."))), bool([l for l in L if l[0].startswith("prf")]))
        self.sends.setdefault(k, []).append((ts[CMP] if not emptied_b(ts, L) else None, I.chain()))
        return super().on_send(I, st, ts, peers, L, site)

def mac_work(item):
    eng, en, party, argn, adt = item
    r = MacRule()
    P = _P
    arg = V("s", frozenset([(f"arg:{argn}", frozenset())]), adt) if not adt.startswith("[]") else COLL(V("s", frozenset([(f"arg:{argn}", frozenset())]), adt[2:]))
    try:
        I, outs = run_entry(P, r, en, party, budget=BUDGET, argv={argn: arg}, expand_more={adt.replace("[]", "")})
    except Budget as e:
        return dict(eng=eng, name=en.name, party=party, over=str(e))
    oks = [dict(cmp=s.ts[CMP], emp=s.ts[EMP], ret=I.labs(s, v)) for s, v in outs if is_ok(v)]
    return dict(eng=eng, name=en.name, party=party, arg=argn, adt=adt, over=None, oks=oks, sends=[(k[0], k[1], k[2], [c for c, _ in v], v[0][1]) for k, v in r.sends.items()], funcs=set(I.funcs))

def mac_shares(P):
    """{engine: (share ADT, vec share ADT)} of engines whose shares carry a tag next to the value"""
    out = {}
    for e, d in engines(P).items():
        ad = P.adts[e]
        mods = e.rsplit("::", 2)[0]
        sh_ = [a for a in P.adts if a.startswith(mods + "::") and len(P.adts[a]["variants"]) == 1 and
               any("mac" in f[0] for f in P.adts[a]["variants"][0]["f"]) and any(f[0].startswith("value") for f in P.adts[a]["variants"][0]["f"])]
        if sh_: out[e] = sh_
    return out

def c05(ctx):
    global _P
    _P = P = ctx.prog("iris_mpc")
    ms = mac_shares(P)
    ctx.obligation(len(ms) >= 1, "anchor:mac", "no engine with authenticated shares found")
    items = []
    for e, adts in ms.items():
        for en in entries(P, e):
            b = P.bodies[en.fid]
            args = auth_args(P, b, adts)
            if not args or not leaves(P, b, adts): continue
            for an, adt in args:
                for p in (0, 1, 2): items.append((e, en, p, an, adt))
        got = {en.name for x, en, *_ in items if x == e}
        for x in ("open", "open_many", "get_msb", "get_msb_many"):
            ctx.obligation(x in got, f"anchor:{sh(e)}::{x}", f"{sh(e)}::{x} (authenticated share in, none out) not found")
    nsent = set()
    for r in lint.pmap(mac_work, items):
        if r["over"]:
            ctx.violation(f"budget:{ent(r)}", r["over"]); continue
        ctx.funcs |= {shortfn(f) for f in r["funcs"]}
        ctx.count("entry_runs")
        print(r["eng"], r["name"], r["arg"], r["adt"], len(r["oks"])) if DEBUG else 0
        fields = [f[0] for f in P.adts[r["adt"].replace("[]", "")]["variants"][0]["f"]]
        bs = [f"arg:{r['arg']}.{f}" for f in fields]
        sent = False
        for site, L, prf, cs, ch in r["sends"]:
            mine = {b for b, f in L if b in bs}
            if not mine: continue
            sent = True
            if mine == set(bs): continue            # value and tag together: part of the check itself
            for c in cs:
                if c is None: continue
                ctx.obligation(all(has(c, b) for b in bs), f"early:{ent(r)}:{base_name(site, {site: ('', ch)})}",
                    f"{ent(r)} sends data derived from {', '.join(x[4:] for x in sorted(mine))} alone before that value passed the MAC check", ch)
        if not sent: continue                       # local operation: nothing leaves the MAC domain here
        nsent.add((r["eng"], r["name"]))
        for o in r["oks"]:
            for b in bs:
                ctx.obligation(has(o["cmp"], b) or b in o["emp"], f"unchecked:{ent(r)}:{b}", f"{ent(r)} returns Ok on a path where {b[4:]} did not (fully) enter a successful MAC check")
    for e in ms:
        for x in ("open", "open_many", "get_msb", "get_msb_many"):
            ctx.obligation((e, x) in nsent, f"anchor:sends:{sh(e)}::{x}", f"{sh(e)}::{x} sends nothing derived from its authenticated input")
    ctx.sample(f"authenticated share types: {ms}")

def auth_args(P, b, adts):
    """[(parameter name, ADT or "[]ADT")] of the parameters (after self) that carry authenticated shares"""
    names = {v[1][0]: v[0] for v in b.raw["vars"] if len(v[1]) == 1 and 1 <= v[1][0] <= b.argc}
    out = []
    for i in range(2, b.argc + 1):
        ty = b.locals[i][0].lstrip("&").replace("mut ", "")
        for a in adts:
            n = a.split("::", 1)[1] + "<"
            if ty.startswith(n): out.append((names.get(i, f"a{i-1}"), a))
            elif n in ty: out.append((names.get(i, f"a{i-1}"), "[]" + a))
    return out

def leaves(P, b, adts):
    """does the function return something other than authenticated shares?"""
    c = P.bodies.get(b.id + "::{closure#0}")
    rt = (c if c is not None and c.raw.get("async", True) and "async" in b.locals[0][0] else b).locals[0][0]
    return not any(a.split("::", 1)[1] + "<" in rt for a in adts)

DEBUG = False

