"""Running protocol entry points of the MPC engines under a rule."""
from absint import *
from absint import _E
from models import Models
import copy, facts

KEEP = 200000

class Entry:
    def __init__(self, fid, name, engine, trait):
        self.fid = fid; self.name = name; self.engine = engine; self.trait = trait

def engines(P):
    """{engine ADT: {"traits": [...], "malicious": bool}} from the impl tables"""
    mpc = P.trait_named("MpcTrait"); mal = P.trait_named("MaliciousAbort"); semi = P.trait_named("SemiHonest")
    out = {}
    for i in P.impls:
        if i.get("trait") == mpc and i["selfadt"]:
            out.setdefault(i["selfadt"], {"malicious": False, "semi": False})
    for i in P.impls:
        if i.get("trait") == mal and i["selfadt"] in out: out[i["selfadt"]]["malicious"] = True
        if i.get("trait") == semi and i["selfadt"] in out: out[i["selfadt"]]["semi"] = True
    return out

def entries(P, eng, traits=("MpcTrait", "BinaryMpcTrait")):
    out = []
    for tn in traits:
        t = P.trait_named(tn)
        if not t: continue
        for i in P.impls:
            if i.get("trait") == t and i["selfadt"] == eng:
                have = {}
                for it in i["items"]:
                    if it["id"] in P.bodies: have[it["n"]] = it["id"]
                for it in P.traits[t]["items"]:
                    fid = have.get(it["n"]) or (it["id"] if it["id"] in P.bodies else None)
                    if fid: out.append(Entry(fid, it["n"], eng, tn))
    return out

def expandable(P):
    """engine structs and the structs they own directly (so their fields get access-path labels)"""
    e = set(engines(P))
    for a in list(e):
        ad = P.adts.get(a)
        for f in ad["variants"][0]["f"]:
            if f[2] in P.adts and len(P.adts[f[2]]["variants"]) == 1 and "::share::" not in f[2]:
                e.add(f[2])
    return e

def run_entry(P, rule, entry, party=None, budget=400000, zero_iter=False, argv=None, expand_more=()):
    """abstractly run an entry point; returns (Interp, [(state, return value)])"""
    if rule.keepbase is not None and budget > KEEP:
        # states that hold different data are kept apart while that is affordable
        old = {k: copy.copy(v) for k, v in rule.__dict__.items()}
        try: return run_entry(P, rule, entry, party, KEEP, zero_iter, argv, expand_more)
        except Budget:
            rule.__dict__.update(old); rule.keepbase = None
    I = Interp(P, rule, Models(), expandable(P) | set(expand_more), budget)
    I.party = party
    I.zero_iter = zero_iter
    body = P.bodies[entry.fid]
    st = St(rule.init())
    names = {}
    for v in body.raw["vars"]:
        if len(v[1]) == 1 and 1 <= v[1][0] <= body.argc: names[v[1][0]] = v[0]
    args = []
    for i in range(body.argc):
        ty = body.locals[i + 1][0]
        nm = names.get(i + 1, f"a{i}")
        if i == 0 and nm == "self":
            st.put(0, "self", argv["*self"] if argv and "*self" in argv else V("s", frozenset([("self", frozenset())]), entry.engine))
            args.append(V("r", frozenset(), frozenset([(0, "self", ())])) if ty.startswith("&") else st.get(0, "self"))
            continue
        v = O(frozenset([(f"arg:{nm}", frozenset())]))
        if argv and nm in argv: v = argv[nm]
        if ty.startswith("&"):
            st.put(0, ("arg", nm), v)
            args.append(V("r", frozenset(), frozenset([(0, ("arg", nm), ())])))
        else: args.append(v)
    I.stack.append((entry.fid, 0))
    outs = []
    try:
        for s, r in I.call_body(entry.fid, args, st):
            if r.k == "s" and r.b == "clo" and r.a in P.bodies:
                s.put(0, "fut", r)
                b = P.bodies[r.a]
                selfv = r if not b.locals[1][0].startswith("&") else V("r", frozenset(), frozenset([(0, "fut", ())]))
                outs += I.call_body(r.a, [selfv, O()], s)
            else: outs.append((s, r))
    finally:
        I.stack.pop()
    return I, outs
