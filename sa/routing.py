"""Scenarios of one publication, and what each recipient is given in them."""
from .query import *
from .query import event_op
from .loops import *
from .terms import *
from .dom import *
from .scene import *
from .store import Store
from .interp import show_conds

OPAQUE = ["MQTTClients.publishArrived", "SubscriptionEngines.setRetained"]
ANY = Bo([True, False])
def flagval(v): return None if v is None else Val([v])

def of_copy(t):
    "does the term denote a copy of the message's properties, not something of a subscription"
    return any(x[0] == "call" and x[1] in ("deepcopy", "shallowcopy") or x[0] == "new" for x in subterms(t))

class Delivery:
    "one call of publishArrived: the event, the loops (and ways through them) it is in, and the conditions"
    def __init__(self, ev, stack, conds): self.ev, self.stack, self.conds = ev, stack, conds
    def arg(self, i, name):
        if i < len(self.ev.args): return self.ev.args[i]
        return dict(self.ev.kw).get(name)

def deliveries(events, pat="publishArrived", stack=(), conds=()):
    out = []
    for e in events:
        if e.kind == "call" and e.name.split(".")[-1] == pat: out.append(Delivery(e, stack, dict(conds)))
        if e.kind == "loop":
            for ed in edges_of(e.loop): out += deliveries(ed.events, pat, stack + ((e.loop, ed),), {**dict(conds), **ed.conds})
    return out

class Routing:
    def __init__(self, b, store=None):
        self.b, self.st = b, store or Store(b)
        ns = b.params["Brokers.publish"]
        self.who = ("param", ns[1])
        self.client, self.topic, self.options = (self.st.field[k] for k in ("client", "topic", "options"))
    def registry(self):
        "the attribute of a broker that holds its clients, by identifier"
        if not hasattr(self, "_reg"):
            f = self.b.fn("Brokers.getClient")
            hit = {x[2] for p in f.paths if p.ret for x in subterms(p.ret) if x[0] == "attr" and x[1] == ("param", "self")}
            if len(hit) != 1: raise AnalysisBroken("the clients of a broker are not kept in one place (%s)" % f.where)
            self._reg = hit.pop()
        return self._reg
    def oracle(self, share=0, own=0, nolocal=0, many=0, ident=0, rap=0, mine=1, pubid=None, theirs='same'):
        # theirs: whether the client's own matching subscriptions, looked up separately, are shared ones (None: some are)
        who, reg = self.who, self.registry()
        def ishare(k, t): return k == "b" and t[0] == "starts" and t[2][0] == "const" and isinstance(t[2][1], str) and t[2][1].startswith("$share")
        def istheirs(k, t): return ishare(k, t) and theirs != "same" and any(x[0] in ("call", "ret") and x[1].split(".")[-1] == "getSubscriptions" for x in subterms(t[1]))
        def islisted(k, t):
            "is a chosen subscription among a local list of subscriptions (the shared ones)"
            return k == "b" and t[0] == "in" and local_obj(t[2]) is not None and strip(t[1])[0] in ("elem", "call", "ret", "item") and not (strip(t[1])[0] in ("call", "ret") and "getClientid" in strip(t[1])[1])
        def isnot(k, t): return k == "b" and t[0] == "starts" and t[2] == const("$") and not t[1][0] == "param"
        def ismine(k, t): return k == "b" and t[0] == "in" and t[2] == ("attr", ("param", "self"), reg) or k == "b" and t[0] == "in" and norm(unwrap(t[2])) == ("attr", ("param", "self"), reg)
        def isident(k, t): return k == "b" and t[0] == "hasattr" and t[2] == "SubscriptionIdentifier" and not of_copy(t[1]) and t[1] != ("param", "properties")
        def ispubid(k, t): return k == "b" and t[0] == "hasattr" and t[2] == "SubscriptionIdentifier" and (of_copy(t[1]) or t[1] == ("param", "properties"))
        def isown(k, t): return k == "b" and t[0] in ("cmp", "eq") and who in t
        def noloc(k, t): return k == "v" and t[0] == "attr" and t[2] == "noLocal"
        def israp(k, t): return k == "v" and t[0] == "attr" and t[2] == "retainAsPublished"
        def ismany(k, t): return k == "d" and t[0] == "len" and self.counts_matches(t[1])
        return Oracle([(istheirs, flag(None if theirs == 'same' else theirs) or ANY), (ishare, flag(share)), (islisted, flag(share)), (ismine, flag(mine)), (isident, flag(ident)), (ispubid, flag(pubid)), (isown, flag(own)), (noloc, flagval(nolocal)), (israp, flagval(rap)),
                       (ismany, None if many is None else Iv(2, INF) if many else Iv(1, 1))])
    def counts_matches(self, t):
        return True
    def publish(self, single=1, retained=0, alias=None, opaque=(), **kw):
        given = ["self.overlapping_single" if single else "not self.overlapping_single", "retained" if retained else "not retained"]
        if self.b.five: given.append("not hasattr(properties, 'TopicAlias')")
        return self.b.view("Brokers.publish", calls=["publishArrived", "setRetained"], about=["overlapping_single", "subscriptions", "getTopic", self.client, self.topic, self.who[1], self.registry()],
                           opaque=OPAQUE + list(opaque), local=True, given=given, oracle=self.oracle(**kw), nonempty=lambda b: True, sets=["SubscriptionIdentifier"])
    # ---- terms
    def matches(self, f): return norm(f.T("self.se.subscriptions(topic)" if self.b.five else "self.se.subscribers(topic)"))
    def client_of(self, sub): return ("attr", sub, self.client)
    def is_client(self, t, f):
        "the client of one of the matching subscriptions"
        t = norm(strip(t)); M = self.matches(f)
        if self.b.five: return any(t in (self.client_of(e), ("call", "getClientid", (e,), ())) for e in self.elems(M, t))
        return t[0] == "elem" and t[1] == M
    def elems(self, M, t): return [x for x in subterms(t) if x[0] == "elem" and norm(x[1]) == M]
    # ---- what each recipient gets
    def seen_before(self, conds, f, p):
        "the conditions say that the client was met earlier in this loop"
        for k, d in conds.items():
            if k[0] == "b" and k[1][0] == "in" and d == YES and self.is_client(k[1][1], f):
                o = local_obj(k[1][2])
                fl = fills(p.events, o) if o is not None else None
                if fl and all(self.is_client(v, f) for v, _, _ in fl): return True
        return False
    def one_per_client(self, p, f, loop):
        "the loop goes through the matching clients, each one once"
        if not self.b.five: return norm(unwrap(loop.it)) == self.matches(f)
        o = loop.over
        src = local_obj(o) if o is not None else local_obj(unwrap(loop.it))
        if src is not None and src[1] in ("set", "dict"):
            fl = fills(p.events, src)
            if fl and all(self.is_client(v, f) for v, _, _ in fl): return True
        return any(self.seen_before(ed.conds, f, p) for ed in edges_of(loop))
    def counts(self, events):
        "(least, most) number of deliveries, and the loops around them"
        lo = hi = 0
        for e in events:
            if e.kind == "call" and e.name.split(".")[-1] == "publishArrived": lo += 1; hi += 1
        return lo, hi
    def judge(self, p, f, deliver, single, inner):
        """complaint about who receives the message in this scenario.
        deliver: each client gets it (once when merged, once per matching subscription of the client otherwise), or nobody does"""
        ds = deliveries(p.events)
        if not deliver:
            return "%s (%s)" % (ds[0].ev, "line %s" % (ds[0].ev.where and ds[0].ev.where[2])) if ds else None
        if not ds: return "no client is given the message"
        if any(not d.stack for d in ds): return "%s happens outside the loop over the clients" % [d for d in ds if not d.stack][0].ev
        outer = [e for e in p.events if e.kind == "loop" and deliveries([e])]
        if len(outer) != 1: return "clients are given the message in %d loops" % len(outer)
        lp = outer[0].loop
        if not self.loop_base(lp, f): return "the clients given the message are those of %s, not of the matching subscriptions" % show(lp.it)
        if not self.one_per_client(p, f, lp): return "a client with several matching subscriptions is gone through several times"
        for ed in edges_of(lp):
            if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the loop over the clients may end before all were served"
            if self.seen_before(ed.conds, f, p):
                if deliveries(ed.events) and not self.never_two(ed): return "a client met before is given the message again"
                continue
            if ed.ctrl is not None and ed.ctrl[0] == "raise": continue
            m = self.judge_client(p, f, ed, single, inner)
            if m: return m
    def never_two(self, ed): return False
    def loop_base(self, lp, f):
        if norm(unwrap(lp.it)) == self.matches(f): return True
        return False
    def judge_client(self, p, f, ed, single, inner):
        top = [e for e in ed.events if e.kind == "call" and e.name.split(".")[-1] == "publishArrived"]
        loops = [e for e in ed.events if e.kind == "loop" and deliveries([e])]
        cond = show_conds(ed.conds)[:300]
        if single:
            if loops: return "a client may be given several copies though they are merged"
            if len(top) != 1: return "a client is given %d copies%s" % (len(top), " when " + cond if ed.conds else "")
            return None
        if top: return "a client is given a copy regardless of how many subscriptions match"
        if len(loops) != 1: return "a client is given no copy%s" % (" when " + cond if ed.conds else "") if not loops else "a client's subscriptions are gone through %d times" % len(loops)
        il = loops[0].loop
        if inner is not None and not inner(norm(unwrap(il.it))): return "the copies are one for each of %s, not of the client's matching subscriptions" % show(il.it)
        for e2 in edges_of(il):
            if e2.ctrl is not None and e2.ctrl[0] in ("break", "return"): return "the loop over a client's subscriptions may end before all were served"
            n = [e for e in e2.events if e.kind == "call" and e.name.split(".")[-1] == "publishArrived"]
            if len(n) != 1 or any(e.kind == "loop" and deliveries([e]) for e in e2.events):
                return "a matching subscription gets %d copies%s" % (len(n), " when " + show_conds(e2.conds)[:300] if e2.conds else "")
