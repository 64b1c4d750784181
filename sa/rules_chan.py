"""C19: every job of a managed channel is answered exactly once, with the outcome of its own operation, in order."""
import lint, rules_cover
from absint import *
from absint import _E
from models import RES, OPT, dv, ok, err, some, NONE
from engine import *
import models

L1 = lambda b: frozenset([(b, _E)])
def O1(b): return O(L1(b))
TUP = lambda *a: STR("()", None, dict(enumerate(a)))
SENDERR = "tokio::sync::mpsc::error::SendError"

# typestate of a worker: (phase, outcome)
#   idle            no job is open
#   open            a job was taken; outcome = None | "none" | "ok" | "err" | "fed"
# typestate of a handle operation: idle | made | sent | closed
class Chan(Rule):
    keepbase = staticmethod(lambda b: True)
    widening = False
    def __init__(self):
        self.bad = {}; self.n = {}; self.spawned = []; self.mode = None; self.job = None
    def say(self, I, k, msg): self.bad.setdefault(k, (msg, I.chain()))
    def hit(self, k): self.n[k] = self.n.get(k, 0) + 1
    def init(self): return ("idle", None, _E)
    def ts(self, st, ph, oc=None, extra=_E): s = st.fork(); s.ts = (ph, oc, extra); return s
    def fut(self, I, name, *args, lab=_E): return V("fut", lab, name, I.site(name), tuple(enumerate(args)))
    def whole(self, I, st, v, base):
        return complete(I.labs(st, v), base)
    # ------------------------------------------------------------- calls
    def on_call(self, I, st, f, args):
        np, n = f.np, f.name
        two = "::".join(np.split("::")[-2:])
        if np.startswith("tokio::sync::oneshot") and n == "channel":
            self.hit("oneshot"); s = I.site("oneshot"); return [(st, TUP(O1("tx:" + s), O1("rx:" + s)))]
        if np.startswith("tokio::sync::mpsc") and n in ("channel", "unbounded_channel"):
            s = I.site("queue"); return [(st, TUP(O1("qtx:" + s), O1("qrx:" + s)))]
        if two in ("tokio::spawn", "task::spawn", "spawn::spawn", "Handle::spawn", "task::spawn_local"):
            if self.mode == "manage":
                self.spawned.append((args[-1], st.fork(), I.chain()))
            else:
                self.say(I, "spawn", f"{I.where()} hands the work of a job to another task: jobs are no longer served in order of submission")
            return [(st, O1("task"))]
        if "mpsc" in np and n in ("recv", "blocking_recv") and self.mode == "worker":
            r = self.fut(I, "qrecv", dv(I, st, args[0]))
            return [(st, r)] if n == "recv" else self.on_net(I, st, "qrecv", I.site("qrecv"), [dv(I, st, args[0])])
        if "mpsc" in np and n in ("recv_many", "try_recv", "poll_recv") and self.mode == "worker":
            return [(st, O1("unknown-job"))]
        if "mpsc" in np and n in ("send", "blocking_send", "try_send", "send_timeout") and "Permit" not in np:
            a = [dv(I, st, x) for x in args]
            if n == "send": return [(st, self.fut(I, "qsend", *a))]
            if n == "blocking_send": return self.on_net(I, st, "qsend", I.site("qsend"), a)
            self.say(I, f"refuses:{n}", f"{I.where()} submits with {n}, which refuses a job although the channel and its worker are alive")
            return self.on_net(I, st, "qsend", I.site("qsend"), a)
        if "mpsc" in np and n in ("reserve", "reserve_owned"): return [(st, self.fut(I, "qreserve", dv(I, st, args[0])))]
        if "mpsc" in np and "Permit" in np and n == "send":
            for s, v in self.on_net(I, st, "qsend", I.site("qsend"), [dv(I, st, x) for x in args]):
                if v.b == 0: return [(s, UNIT)]
        if "oneshot" in np and n == "send": return self.reply(I, st, args)
        if two == "StreamExt::next" and self.mode == "worker": return [(st, self.fut(I, "next", dv(I, st, args[0])))]
        if two == "TryStreamExt::try_next" and self.mode == "worker": return [(st, self.fut(I, "try_next", dv(I, st, args[0])))]
        if two in ("SinkExt::send", "SinkExt::feed", "SinkExt::flush") and self.mode == "worker":
            return [(st, self.fut(I, "sink_" + n, *[dv(I, st, x) for x in args]))]
        return None
    def reply(self, I, st, args):
        tx, v = args[0], dv(I, st, args[1])
        L = I.labs(st, tx)
        ph, oc, ex = st.ts
        good = v.k == "s" and v.a == RES and v.b in (0, 1)
        if self.mode == "worker":
            self.hit("replies")
            w = I.where()
            if not any(b == "job" for b, fl in L): self.say(I, f"{self.job}:stranger", f"{w} answers something that is not the job it took")
            if ph != "open": self.say(I, f"{self.job}:twice", f"{w} sends a reply while no job is open")
            elif oc is None or oc == "fed": self.say(I, f"{self.job}:early", f"{w} answers a job before its operation has completed")
            elif oc == "ok":
                if not (good and v.b == 0 and (self.job != "read" or self.whole(I, st, v, "item"))):
                    self.say(I, f"{self.job}:outcome-ok", f"{w}: the operation succeeded but the reply is {v!r}"[:300])
            elif not (good and v.b == 1): self.say(I, f"{self.job}:outcome-{oc}", f"{w}: the operation failed ({'stream ended' if oc == 'none' else 'error'}) but the reply is {v!r}"[:300])
            return [(self.ts(st, "idle"), ok(UNIT)), (self.ts(st, "idle"), err(O1("unsent")))]
        # handle operations reply themselves only when the queue is closed
        if ph != "closed" or not any(b.startswith("tx:") for b, fl in L): self.say(I, "handle:reply", f"{I.where()} answers a job itself although it was not refused by a closed queue")
        elif not (good and v.b == 1): self.say(I, "handle:closed-ok", f"{I.where()}: the queue is closed but the reply is {v!r}"[:300])
        return [(self.ts(st, "replied", None, ex), ok(UNIT))]
    def on_net(self, I, st, op, site, args):
        ph, oc, ex = st.ts
        if op == "qrecv":
            self.hit("takes")
            if ph == "open": self.say(I, f"{self.job}:unanswered", f"{I.where()} takes the next job although the previous one has not been answered")
            return [(self.ts(st, "open"), some(O1("job"))), (self.ts(st, "ended"), NONE)]
        if op in ("next", "try_next"):
            if ph != "open": self.say(I, f"{self.job}:ahead", f"{I.where()} reads from the stream while no job is open")
            elif oc is not None: self.say(I, f"{self.job}:again", f"{I.where()} performs the operation of a job more than once")
            self.hit("reads")
            a, b, c = self.ts(st, ph, "ok"), self.ts(st, ph, "err"), self.ts(st, ph, "none")
            if op == "next": return [(a, some(ok(O1("item")))), (b, some(err(O1("ioerr")))), (c, NONE)]
            return [(a, ok(some(O1("item")))), (b, err(O1("ioerr"))), (c, ok(NONE))]
        if op.startswith("sink_"):
            self.hit("writes")
            if ph != "open": self.say(I, f"{self.job}:ahead", f"{I.where()} writes while no job is open")
            if op != "sink_flush":
                if oc is not None: self.say(I, f"{self.job}:again", f"{I.where()} performs the operation of a job more than once")
                if not self.whole(I, st, args[-1], "job"): self.say(I, f"{self.job}:other-data", f"{I.where()} writes something other than the data of the job")
            after = {"sink_send": "ok", "sink_feed": "fed", "sink_flush": "ok" if oc == "fed" else oc}[op]
            return [(self.ts(st, ph, after), ok(UNIT)), (self.ts(st, ph, "err"), err(O1("ioerr")))]
        if op == "qreserve":
            return [(st, ok(O1("permit"))), (self.ts(st, "closed", None, ex), err(O1("closed")))]
        if op == "qsend":
            self.hit("submits")
            j = args[-1]; L = I.labs(st, j)
            if ph not in ("idle",): self.say(I, "handle:twice", f"{I.where()} submits more than one job")
            txs = frozenset(b[3:] for b, fl in L if b.startswith("tx:"))
            if len(txs) != 1: self.say(I, "handle:no-sender", f"{I.where()} submits a job without the sender of its reply")
            ex = txs | frozenset(b for b, fl in L if b.startswith("arg:") and complete(L, b))
            e = V("s", _E, SENDERR, None, ((0, j),))
            return [(self.ts(st, "sent", None, ex), ok(UNIT)), (self.ts(st, "closed", None, ex), err(e))]
        return [(st, O(frozenset(l for a in args for l in I.labs(st, a))))]

def c19(ctx):
    P = ctx.prog(); rules_cover._P = P
    # ---- the constructor of managed channels: a function of a type whose fields are job queues, that starts workers
    H = [a for a, d in P.adts.items() if a.startswith("mpc_net::") and len(d["variants"]) == 1 and d["variants"][0]["f"] and
         all("mpsc::" in f[1] and "Sender<" in f[1] for f in d["variants"][0]["f"])]
    ctx.obligation(len(H) == 1, "anchor:handle", f"the handle type (a struct of job queues) was not found: {H}")
    if len(H) != 1: return
    H = H[0]; nq = len(P.adts[H]["variants"][0]["f"])
    fns = [b for b in P.bodies.values() if b.implselfadt == H and "{closure" not in b.id and "#promoted" not in b.id and not b.impltrait and "__CALLSITE" not in b.id]
    workers = 0; ops = 0
    for b in fns:
        recv_self = b.argc and b.locals[1][0].startswith("&")
        ret = b.locals[0][0]
        if H.split("::")[-1] in ret and not recv_self:
            R = Chan(); R.mode = "manage"
            I, outs = run_entry(P, R, Entry(b.id, b.name, H, None), expand_more={H})
            ctx.funcs |= set(I.funcs)
            ctx.obligation(len(R.spawned) == nq, f"{b.name}:workers", f"{b.name} starts {len(R.spawned)} worker tasks for {nq} queues")
            served = []
            for fv, s, chain in R.spawned:
                W = Chan(); W.mode = "worker"
                L = I.labs(s, fv)
                served.append(frozenset(x for x, fl in L if x.startswith("qrx:")))
                W.job = kind_of(P, fv)
                I2 = Interp(P, W, models.Models(), I.expand, I.budget)
                I2.stack.append((b.id, 0))
                s2 = s.fork(); s2.ts = W.init(); s2.put_top(("t", "worker"), fv)
                try: wo = models.poll_value(I2, s2, fv, (s2.top(), ("t", "worker"), ()))
                finally: I2.stack.pop()
                ctx.funcs |= set(I2.funcs); workers += 1
                k = f"{b.name}:{W.job}"
                ctx.obligation(W.n.get("takes", 0) > 0 and W.n.get("replies", 0) > 0 and W.n.get("reads", 0) + W.n.get("writes", 0) > 0, f"{k}:vacuous",
                               f"a worker of {b.name} takes {W.n.get('takes', 0)}, performs {W.n.get('reads', 0) + W.n.get('writes', 0)} and answers {W.n.get('replies', 0)} jobs", chain)
                for s3, v in wo:
                    ctx.obligation(s3.ts[0] != "open", f"{k}:lost", f"a worker of {b.name} can end with an unanswered job", chain)
                    ctx.obligation(s3.ts[0] in ("ended", "open"), f"{k}:ends", f"a worker of {b.name} can end although its queue is still open: jobs in the queue are dropped", chain)
                for kk, (m, t) in W.bad.items(): ctx.obligation(False, f"{b.name}:{kk}", m, t)
                for kk, n in W.n.items(): ctx.count(f"{W.job}_{kk}", n); ctx.obl += n; ctx.dis += n
                ctx.sample(f"worker {W.job} of {b.name}: {W.n}, exits {sorted({s3.ts[0] for s3, _ in wo})}")
            ctx.obligation(all(len(x) == 1 for x in served) and len(set(served)) == nq, f"{b.name}:queues", f"{b.name}: not every queue has exactly one worker ({[sorted(x) for x in served]})")
            for s, v in outs:
                v = dv(I, s, v)
                q = [frozenset(x[4:] for x, fl in I.labs(s, fget(v, i) or O()) if x.startswith("qtx:")) for i in range(nq)]
                ctx.obligation(v.a == H and all(len(x) == 1 for x in q) and {next(iter(x)) for x in q} == {next(iter(y))[4:] for y in served if y}, f"{b.name}:handle", f"{b.name}: the handle does not hold the queues its workers serve")
            for kk, (m, t) in R.bad.items(): ctx.obligation(False, f"{b.name}:{kk}", m, t)
        elif recv_self and "oneshot::Receiver" in all_types(P, b):
            R = Chan(); R.mode = "handle"
            I, outs = run_entry(P, R, Entry(b.id, b.name, H, None), expand_more={H})
            ctx.funcs |= set(I.funcs)
            if not R.n.get("submits"): continue
            ops += 1
            data = [v[0] for v in b.raw["vars"] if len(v[1]) == 1 and 2 <= v[1][0] <= b.argc]
            for s, v in outs:
                ph, oc, ex = s.ts
                rx = frozenset(x[3:] for x, fl in I.labs(s, v) if x.startswith("rx:"))
                ctx.obligation(ph in ("sent", "closed", "replied"), f"{b.name}:submitted", f"{b.name} can return without having submitted its job")
                ctx.obligation(len(rx) == 1 and (rx <= ex or not ex and ph != "sent"), f"{b.name}:receiver", f"{b.name} returns a receiver ({sorted(rx)}) that is not the one of the submitted job ({sorted(ex)})")
                for d in data: ctx.obligation(f"arg:{d}" in ex or not ex and ph != "sent", f"{b.name}:data", f"{b.name} does not submit its argument {d} in full")
            for kk, (m, t) in R.bad.items(): ctx.obligation(False, f"{b.name}:{kk}", m, t)
            for kk, n in R.n.items(): ctx.count(f"handle_{kk}", n)
            ctx.sample(f"{b.name}: {R.n}, exits {sorted({s.ts[0] for s, _ in outs})}")
    ctx.count("workers", workers); ctx.count("handle_operations", ops)
    ctx.obligation(workers >= 2 and ops >= 4, "vacuous", f"only {workers} workers and {ops} handle operations were analysed")
    ctx.assume += ["tokio's mpsc queue is first-in first-out and its oneshot channel delivers the value once", "SinkExt::send completes after the sink has flushed the item"]

def all_types(P, b):
    t = b.locals[0][0]
    for c in P.children.get(b.id, []):
        if c in P.bodies: t += " " + P.bodies[c].locals[0][0]
    return t

def kind_of(P, fv):
    """read or write: by the operations reachable from the worker's body"""
    seen = set(); todo = [fv.a] if fv.k == "s" else []
    kinds = set()
    while todo:
        x = todo.pop()
        if x in seen or x not in P.bodies: continue
        seen.add(x)
        for bb in P.bodies[x].blocks:
            t = bb["t"]
            if t[0] == "call" and "fn" in t[1]:
                f = FnRef(t[1]["fn"])
                two = "::".join(f.np.split("::")[-2:])
                if two in ("StreamExt::next", "TryStreamExt::try_next"): kinds.add("read")
                if two.startswith("SinkExt::"): kinds.add("write")
                if t[1]["fn"].get("rid"): todo.append(t[1]["fn"]["rid"])
        todo += P.children.get(x, [])
    return "/".join(sorted(kinds)) or "none"
