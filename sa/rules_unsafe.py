"""C18: audit of every unsafe operation in the analysed crates (from the MIR of the non-test build).

Every reinterpretation is an obligation `layout(A) == layout(B)`, where the compiler plug-in computes the layout name by looking
through transparent wrappers only.  Obligations that mention type parameters of the enclosing function are discharged at each of
its call sites.  Rebuilding an allocation from its parts needs pointer, length and capacity of one and the same vector whose
ownership was given up."""
import re
import facts

FIRST = ("std::vec::Vec", "alloc::vec::Vec")

def short(b):
    return re.sub(r"\{impl#\d+\}", lambda m: "", b.p).replace("::::", "::")

class BodyView:
    def __init__(self, b):
        self.b = b
        self.defs = {}       # local -> list of ("s", block, rvalue) | ("c", block, terminator)
        self.moves = {}      # local -> list of (block, kind)
        for i, bb in enumerate(b.blocks):
            for s in bb["s"]:
                if s[0] == "=":
                    if len(s[1]) == 1: self.defs.setdefault(s[1][0], []).append(("s", i, s[2]))
                    for o in facts.operands_of_rvalue(s[2]):
                        if "mv" in o and len(o["mv"]) == 1: self.moves.setdefault(o["mv"][0], []).append((i, "s"))
            t = bb["t"]
            if t[0] == "call":
                if len(t[3]) == 1: self.defs.setdefault(t[3][0], []).append(("c", i, t))
                for o in t[2]:
                    if "mv" in o and len(o["mv"]) == 1: self.moves.setdefault(o["mv"][0], []).append((i, t))

    def only_cast(self, l):
        """the local's only use is another pointer cast"""
        n = k = 0
        for bb in self.b.blocks:
            for s in bb["s"]:
                if s[0] != "=": continue
                for o in facts.operands_of_rvalue(s[2]):
                    if any(p[0] == l for p in facts.places_of_operand(o)):
                        n += 1; k += s[2][0] == "cast" and s[2][1] == "PtrToPtr"
                if s[2][0] in ("ref", "disc") and s[2][-1][0] == l: n += 1
                if s[1][0] == l and len(s[1]) > 1: n += 1
            t = bb["t"]
            if t[0] == "call":
                n += sum(1 for o in t[2] for p in facts.places_of_operand(o) if p[0] == l)
        return n > 0 and n == k and self.one(l) is not None

    def source_layout(self, r):
        while True:
            o = r[2]; pl = o.get("cp") or o.get("mv")
            d = self.one(pl[0]) if pl and len(pl) == 1 else None
            if d and d[0] == "s" and d[2][0] == "cast" and d[2][1] == "PtrToPtr" and self.only_cast(pl[0]): r = d[2]
            else: return r[5]

    def one(self, l):
        if l <= self.b.argc: return None
        d = self.defs.get(l, [])
        return d[0] if len(d) == 1 else None

    def chase(self, op):
        """follow moves, pointer casts; return ("arg", l) | ("call", t, projection) | ("ref", kind, place) | None"""
        for _ in range(40):
            if not isinstance(op, dict): return None
            pl = op.get("cp") or op.get("mv")
            if not pl: return None
            l, proj = pl[0], pl[1:]
            if l <= self.b.argc and l > 0 and not self.defs.get(l): return ("arg", l, proj)
            d = self.one(l)
            if d is None: return None
            if d[0] == "c": return ("call", d[2], proj)
            r = d[2]
            if proj and r[0] == "agg" and r[1].get("k") == "tuple" and len(proj) == 1 and isinstance(proj[0], list) and proj[0][0] == "f":
                op = r[2][proj[0][1]]; continue
            if proj and r[0] == "use" and (r[1].get("cp") or r[1].get("mv")):
                q = r[1].get("cp") or r[1].get("mv"); op = {"cp": q + proj}; continue
            if proj: return None
            if r[0] == "use": op = r[1]; continue
            if r[0] == "cast" and r[1] in ("PtrToPtr", "Transmute"): op = r[2]; continue
            if r[0] == "ref":
                k, p = r[1], r[2]
                return ("ref", k, p)
            return None
        return None

    def owner(self, op):
        """the local whose contents a (possibly re-borrowed, ManuallyDrop-derefed) reference designates"""
        for _ in range(40):
            c = self.chase(op)
            if c is None: return None
            if c[0] == "ref":
                p = c[2]
                if len(p) == 1: return p[0]
                if p[1:] == ["*"]: op = {"cp": [p[0]]}; continue
                return None
            if c[0] == "arg": return ("arg", c[1]) if not c[2] else None
            t = c[1]; f = t[1].get("fn")
            if c[2] or not f: return None
            n = f["p"].split("::")[-1]
            if n in ("deref", "deref_mut", "as_slice", "as_mut_slice") and t[2]: op = t[2][0]; continue
            return None
        return None

def fname(f):
    return facts.norm_path(f["p"])

def c18(ctx):
    P = ctx.prog()
    todo = []      # (body, site, kind, layoutA, layoutB, message)
    callers = {}
    nsites = 0
    for b in P.bodies.values():
        v = None
        where = short(b)
        for i, bb in enumerate(b.blocks):
            for s in bb["s"]:
                if s[0] != "=": continue
                r = s[2]
                if r[0] == "cast" and r[1] in ("PtrToPtr", "Transmute") or r[0] == "cast" and "Provenance" in r[1]:
                    nsites += 1; ctx.count("casts")
                    if "Provenance" in r[1]:
                        ctx.obligation(False, f"{where}:pointer-from-integer", f"{where}: a pointer is made from an integer ({s[3]})"); continue
                    v = v or BodyView(b)
                    if len(s[1]) == 1 and v.only_cast(s[1][0]): continue        # judged where the chain of casts ends
                    src = v.source_layout(r)
                    todo.append((b, where, "cast", src, r[6], f"{where}: memory of layout {src} is seen as {r[6]} ({s[3]})"))
                if r[0] == "agg" and r[1].get("k") == "rawptr":
                    ctx.obligation(False, f"{where}:raw-pointer-parts", f"{where}: a pointer is assembled from parts ({s[3]})")
                if r[0] == "tls": ctx.count("thread_locals")
                # dereferences of raw pointers
                pls = [(s[1], "write")] + [(p, "read") for o in facts.operands_of_rvalue(r) for p in facts.places_of_operand(o)]
                if r[0] == "ref": pls.append((r[2], r[1]))
                if r[0] == "disc": pls.append((r[1], "read"))
                for p, how in pls:
                    if len(p) > 1 and p[1] == "*" and b.locals[p[0]][0].startswith("*"):
                        nsites += 1; ctx.count("raw_dereferences")
                        v = v or BodyView(b)
                        c = v.chase({"cp": [p[0]]})
                        ok = False; why = "its origin is not a single reference"
                        if c and c[0] == "ref" and len(c[2]) == 2 and c[2][1] == "*":
                            base = b.locals[c[2][0]][0]
                            if base.startswith("&"):
                                ok = True
                                if how in ("mut", "write") and not base.startswith("&mut"):
                                    ok = False; why = "it is written through although it comes from a shared reference"
                        elif c and c[0] == "ref" and len(c[2]) == 1: ok = True
                        ctx.obligation(ok, f"{where}:raw-dereference", f"{where}: a raw pointer is dereferenced but {why} ({s[3]})")
                        ret = b.raw.get("ret", "")
                        ctx.obligation("'static" not in ret, f"{where}:lifetime", f"{where}: the result of a raw dereference is returned for 'static")
            t = bb["t"]
            if t[0] != "call": continue
            f = t[1].get("fn")
            if not f:
                continue
            for k in {f["id"], f.get("rid")}:
                if k: callers.setdefault(k, []).append((b, t))
            if not f.get("us"): continue
            if t[7]:
                ctx.count("unsafe_calls_of_await_and_std_macros"); continue
            nsites += 1; ctx.count("unsafe_calls")
            v = v or BodyView(b)
            n = f["p"].split("::")[-1]; np = fname(f); gl = f.get("gl", [])
            if f["id"] in P.bodies or f.get("rid") in P.bodies:
                ctx.count("calls_of_local_unsafe_functions"); continue   # its body is audited like every other
            if "gf256" in f["id"] and n == "new_unchecked":
                ctx.sample(f"{where}: {np}: every 64-bit value is an element of the field"); continue
            if n in ("transmute", "transmute_unchecked") and len(gl) >= 2:
                todo.append((b, where, "transmute", gl[0], gl[1], f"{where}: layout {gl[0]} is transmuted to {gl[1]}"))
                continue
            if n == "from_raw_parts" and "Vec" in np and len(t[2]) == 3:
                raw_vec(ctx, b, v, i, t, where, todo); continue
            if n in ("from_raw_parts", "from_raw_parts_mut") and len(t[2]) == 2:
                o1 = from_call(v, t[2][0], ("as_ptr", "as_mut_ptr")); o2 = from_call(v, t[2][1], ("len",))
                ctx.obligation(o1 is not None and o1 == o2, f"{where}:slice-parts",
                               f"{where}: a slice is built from a pointer and a length that are not those of one slice")
                continue
            ctx.obligation(False, f"{where}:unsafe:{n}", f"{where}: call of the unsafe function {np} that no rule of this audit justifies")
    for im in P.impls:
        if im.get("us") and im.get("trait", "").endswith("::TrivialClone"): continue   # part of derive(Clone)
        if im.get("us"):
            ctx.count("unsafe_impls")
            ctx.obligation(False, f"unsafe-impl:{im.get('traitp', im.get('trait'))}", f"unsafe impl of {im.get('traitp')} for {im['self']}")
    # layout obligations, moved to the callers where they depend on type parameters
    seen = set()
    while todo:
        b, where, kind, la, lb, msg = todo.pop()
        k = (b.id, kind, la, lb)
        if k in seen: continue
        seen.add(k)
        a, c = la.lstrip("*"), lb.lstrip("*")
        ctx.funcs.add(where)
        if a == c:
            ctx.obligation(True); ctx.sample(f"{where}: {kind} {la} = {lb}"); continue
        root = P.bodies.get(b.root, b)
        gens = root.raw.get("gen", [])
        toks = set(re.findall(r"\w+", la + " " + lb))
        use = [g for g in gens if g in toks]
        cs = callers.get(root.id, []) if use else []
        sub = []
        for cb, t in cs:
            gl = t[1]["fn"].get("gl", [])
            if len(gl) == len(gens): sub.append((cb, gl))
        if use and sub and len(sub) == len(cs):
            for cb, gl in sub:
                m = dict(zip(gens, gl))
                sb = lambda s: re.sub(r"\b\w+\b", lambda x: m.get(x.group(0), x.group(0)), s)
                todo.append((cb, where + " from " + short(cb), kind, sb(la), sb(lb), f"{short(cb)} -> {msg}"))
            continue
        ctx.obligation(False, f"{where}:{kind}:{a}->{c}", msg + ": the layouts are not guaranteed to be the same")
    ctx.count("bodies_audited", len(P.bodies))
    ctx.obligation(len(P.bodies) > 400, "coverage", "the analysed program is unexpectedly small")
    ctx.assume.append("gf256's unchecked constructor accepts every 64-bit value (its field is represented by u64)")
    ctx.assume.append("the unsafe code of dependencies is not audited")

def from_call(v, op, names):
    c = v.chase(op)
    if not c or c[0] != "call" or c[2]: return None
    f = c[1][1].get("fn")
    if not f or f["p"].split("::")[-1] not in names: return None
    return v.owner(c[1][2][0])

def _users(b, l):
    for bb in b.blocks:
        t = bb["t"]
        if t[0] == "call" and any(p[0] == l for o in t[2] for p in facts.places_of_operand(o)):
            n = t[1].get("fn", {}).get("p", "?").split("::")[-1]
            if n == "deref_mut":
                yield n
                yield from _reborrow(b, t[3][0])
            else: yield n
    yield from _reborrow(b, l, True)

def _reborrow(b, l, own=False):
    for bb in b.blocks:
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] == "ref" and s[2][2][:2] == [l, "*"]: yield from _users(b, s[1][0])
            if s[0] == "=" and s[2][0] == "use" and any(p[0] == l for p in facts.places_of_operand(s[2][1])): yield from _users(b, s[1][0])
            if s[0] == "=" and s[1][:2] == [l, "*"]: yield "assignment"
    if not own:
        for bb in b.blocks:
            t = bb["t"]
            if t[0] == "call" and any(p[0] == l for o in t[2] for p in facts.places_of_operand(o)):
                yield t[1].get("fn", {}).get("p", "?").split("::")[-1]

def raw_vec(ctx, b, v, blk, t, where, todo):
    ptr, ln, cap = t[2]
    key = f"{where}:vec-parts"
    cs = [v.chase(o) for o in (ptr, ln, cap)]
    if all(c and c[0] == "call" and c[1][1].get("fn", {}).get("p", "").endswith("into_raw_parts") for c in cs) and len({id(c[1]) for c in cs}) == 1:
        idx = [c[2][0][1] if c[2] and isinstance(c[2][0], list) else None for c in cs]
        ctx.obligation(idx == [0, 1, 2], key, f"{where}: the parts of the vector are mixed up"); return
    o1 = from_call(v, ptr, ("as_ptr", "as_mut_ptr")); o2 = from_call(v, ln, ("len",)); o3 = from_call(v, cap, ("capacity",))
    if not ctx.obligation(o1 is not None and o1 == o2 == o3, key,
                          f"{where}: a vector is rebuilt from a pointer, a length and a capacity that are not those of one vector (pointer {o1}, length {o2}, capacity {o3})"):
        return
    if not isinstance(o1, int):
        ctx.obligation(False, key, f"{where}: a vector is rebuilt from the parts of a borrowed one"); return
    ty = b.locals[o1][0]
    # one rebuilding per owner
    twin = 0
    for bb in b.blocks:
        x = bb["t"]
        if x[0] == "call" and x[1].get("fn", {}).get("p", "").endswith("::from_raw_parts") and x is not t and len(x[2]) == 3:
            if from_call(v, x[2][0], ("as_ptr", "as_mut_ptr")) == o1: twin += 1
    ctx.obligation(twin == 0, key + ":twice", f"{where}: two vectors are rebuilt from the parts of one")
    moved = list(v.moves.get(o1, []))
    for i, bb in enumerate(b.blocks):            # through temporaries
        for s in bb["s"]:
            if s[0] == "=" and s[2] == ["use", {"mv": [o1]}] and len(s[1]) == 1:
                moved = [m for m in moved if m != (i, "s")] + v.moves.get(s[1][0], [])
    for i, bb in enumerate(b.blocks):
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] == "ref" and s[2][1] != "shared" and s[2][2][0] == o1:
                uses = [x for x in _users(b, s[1][0])]
                ok = all(n in ("as_mut_ptr", "deref_mut") for n in uses)
                ctx.obligation(ok, key + ":changed", f"{where}: the vector is changed between giving up its ownership and rebuilding it")
    if ty.startswith("std::mem::ManuallyDrop<"):
        d = v.one(o1)
        ok = d is not None and d[0] == "c" and d[2][1].get("fn", {}).get("p", "").endswith("::new") and not moved
        ctx.obligation(ok, key + ":owner", f"{where}: the vector whose parts are reused is not kept from being dropped")
    else:
        fg = {i for i, x in moved if isinstance(x, list) and x[1].get("fn", {}).get("p", "").endswith("mem::forget")}
        # is there a path entry -> blk -> return that avoids every forget?
        def reach(src):
            seen = {src}; st = [src]
            while st:
                x = st.pop()
                if x in fg: continue
                for y in facts.succs(b.blocks[x]):
                    if y not in seen: seen.add(y); st.append(y)
            return seen
        r0 = reach(0); r1 = reach(blk) if blk in r0 - fg else set()
        bad = any(b.blocks[x]["t"][0] == "ret" for x in r1 - fg)
        ctx.obligation(bool(fg) and not bad, key + ":owner", f"{where}: the vector whose parts are reused is dropped as well")
