"""Program facts: loads the JSON written by the rustc driver and offers look-ups."""
import json, glob, os, re

class Body:
    __slots__ = ("raw", "id", "p", "name", "root", "parent", "blocks", "argc", "locals", "live", "span",
                 "implself", "implselfadt", "impltrait", "intrait", "is_async", "crate", "_taken")
    def __init__(self, raw, crate):
        self.raw = raw
        self.id = raw["id"]; self.p = raw["p"]; self.name = raw["name"]
        self.root = raw["root"]; self.parent = raw["parent"]
        self.blocks = raw["blocks"]; self.argc = raw["argc"]; self.locals = raw["locals"]
        self.span = raw["span"]
        self.implself = raw.get("implself", ""); self.implselfadt = raw.get("implselfadt", "")
        self.impltrait = raw.get("impltrait", ""); self.intrait = raw.get("intrait", "")
        self.is_async = raw.get("async", False)
        self.crate = crate
        self.live = None
        self._taken = None
    def file(self):
        return self.span.rsplit(":", 1)[0]

class Program:
    def __init__(self, d, only=None):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.consts = {}
        self.dflt = {}        # trait item id -> has default body
        self.crates = {}
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            x = json.load(open(f))
            if only and x["crate"] not in only:
                continue
            key = os.path.basename(f)[:-5]
            self.crates[key] = len(x["bodies"])
            for b in x["bodies"]:
                b = Body(b, key)
                if b.id in self.bodies and key.endswith("Executable"):
                    # two binaries may share a name (gen_cert): keep both under distinct keys
                    self.bodies[b.id + "@" + key] = b
                    continue
                self.bodies[b.id] = b
            for a in x["adts"]:
                self.adts[a["id"]] = a
            for i in x["impls"]:
                i["crate"] = key
                self.impls.append(i)
            for t in x["traits"]:
                self.traits[t["id"]] = t
                for it in t["items"]:
                    self.dflt[it["id"]] = it["def"]
            for c in x["consts"]:
                self.consts[c["id"]] = c
        self.by_trait_item = {}   # (trait item id, selfadt) -> impl item id
        for i in self.impls:
            if "trait" not in i:
                continue
            for it in i["items"]:
                if it["ti"]:
                    self.by_trait_item.setdefault((it["ti"], i["selfadt"]), []).append((i, it["id"]))
        self.children = {}
        for b in self.bodies.values():
            self.children.setdefault(b.parent, []).append(b.id)

    # -------------------------------------------------------------- look-ups
    def impl_item(self, trait_item, selfadt):
        l = self.by_trait_item.get((trait_item, selfadt))
        return l[0][1] if l and len(l) == 1 else None   # several impls (generic trait): ambiguous

    def trait_named(self, name):
        r = [t for t in self.traits if t.split("::")[-1] == name]
        return r[0] if len(r) == 1 else None

    def adt_named(self, name, within=None):
        r = [a for a in self.adts if a.split("::")[-1] == name and (within is None or within in a)]
        return r[0] if len(r) == 1 else None

    def methods_of(self, selfadt, trait=None):
        """impl items for an ADT: {method name: body id}"""
        out = {}
        for i in self.impls:
            if i["selfadt"] != selfadt:
                continue
            if trait is not None and i.get("trait", "") != trait:
                continue
            for it in i["items"]:
                if it["id"] in self.bodies:
                    out[it["n"]] = it["id"]
        return out

    def trait_item(self, trait, name):
        t = self.traits.get(trait)
        if not t:
            return None
        for it in t["items"]:
            if it["n"] == name:
                return it["id"]
        return None

def norm_path(p):
    """strip generic arguments from a pretty path"""
    out = []; depth = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and (i == 0 or p[i-1] != "-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    s = s.replace("::::", "::")
    return s

# ------------------------------------------------------------------ generic MIR walkers
def places_of_operand(o):
    if "cp" in o: return [o["cp"]]
    if "mv" in o: return [o["mv"]]
    return []

def operands_of_rvalue(r):
    k = r[0]
    if k == "use": return [r[1]]
    if k == "repeat": return [r[1]]
    if k == "cast": return [r[2]]
    if k == "bin": return [r[2], r[3]]
    if k == "un": return [r[2]]
    if k == "agg": return r[2]
    return []

def calls(body, cleanup=False):
    """yield (block index, terminator) for call terminators"""
    for i, bb in enumerate(body.blocks):
        if bb["cl"] and not cleanup:
            continue
        if bb["t"][0] == "call":
            yield i, bb["t"]

def callee(t):
    f = t[1]
    return f.get("fn")

def succs(bb):
    t = bb["t"]
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [x[1] for x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] >= 0 else []
    if k == "assert": return [t[3]]
    if k == "yield": return [t[1]]
    return []

def reachable_blocks(body):
    seen = {0}; st = [0]
    while st:
        b = st.pop()
        for s in succs(body.blocks[b]):
            if s not in seen:
                seen.add(s); st.append(s)
    return seen

_cyc = {}
def in_cycle(body, b):
    """can block b be executed again after itself (is it part of a loop)?"""
    c = _cyc.get(body.id)
    if c is None: c = _cyc[body.id] = {}
    if b not in c:
        seen = set(); st = list(succs(body.blocks[b]))
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += succs(body.blocks[x])
        c[b] = b in seen
    return c[b]
