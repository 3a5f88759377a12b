"""The subscription and retained-message store of a broker, found by what it does: attribute names are read from its constructor."""
from .query import *
from .query import event_op
from .loops import *
from .terms import *
from .project import AnalysisBroken

VALID = "Topics.isValidTopicName(%s)"

class Store:
    def __init__(self, b):
        self.b = b
        f = b.fn("SubscriptionEngines.__init__")
        p = [p for p in f.paths if not p.raised and all(p.consistent("'%s' in sharedData" % k) for k in ("subscriptions", "dollar_subscriptions", "retained", "dollar_retained"))]
        self.attrs = {}
        for x in p:
            for (o, a), v in x.heap.items():
                for k in ("subscriptions", "dollar_subscriptions", "retained", "dollar_retained"):
                    if norm(v) == norm(("item", f.T("sharedData"), ("const", k))): self.attrs[k] = a
        if len(self.attrs) != 4: raise AnalysisBroken("the stores are not taken from the shared data in %s" % f.where)
        self.init = f
        g = b.fn("Subscriptions.__init__")
        ps = [p for p in g.paths if not p.raised]
        names = g.names
        self.field = {}
        for i, role in ((1, "client"), (2, "topic"), (3, "options")):
            v = ("param", names[i])
            hit = {a for p in ps for (o, a), t in p.heap.items() if norm(t) == v and o == ("param", names[0])}
            if not hit: raise AnalysisBroken("a subscription does not keep its %s (%s)" % (role, g.where))
            self.field[role] = sorted(hit)[0]
        self.entry = g
    def names(self, kinds):
        "the classes of topic names: (name, guards over {}, which stores they belong to)"
        out = [("ordinary", ["not {}.startswith('$')"], "")]
        if self.b.five:
            out.append(("shared", ["{}.startswith('$')", "{}.startswith('$share/')"], ""))
            out.append(("dollar", ["{}.startswith('$')", "not {}.startswith('$share/')"], "dollar_"))
        else: out.append(("dollar", ["{}.startswith('$')"], "dollar_"))
        return [(n, [x.format(kinds) for x in g], s) for n, g, s in out]
    def term(self, f, which): return f.T("self." + self.attrs[which])

def per_name(f, lst):
    """the treatment of one name of a list of names: pseudo-paths, one per class of iterations of the loop over the list;
    and a complaint if the loop may leave names out"""
    t = f.T(lst); out, bad, seen = [], None, False
    for p in f.paths:
        for o in loops_over(p, t):
            if len(o.stack) != 0: continue
            seen = True
            if o.ev.loop.kind == "while": bad = "a loop whose bounds are not understood"
            for ed in edges_of(o.ev.loop):
                if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): bad = "the loop over %s may end before all names were handled" % lst
                c = dict(o.conds); c.update(ed.conds)
                out.append(PathQ(f, c, ed.events, ed.ctrl, p.heap, p.facts))
    return out, (bad if seen else "the names in %s are not gone through one by one" % lst)

def uses(p, attr):
    "does the path read or change what the attribute holds"
    def has(t): return isinstance(t, tuple) and any(x[0] == "attr" and x[2] == attr for x in subterms(t))
    for o in p.flat():
        e = o.ev
        if e.kind == "loop" and has(e.loop.it): return "the loop over %s" % show(e.loop.it)
        for t in ((e.base,) if e.base else ()) + tuple(e.args) + tuple(v for _, v in e.kw):
            if has(t): return str(e)
        for k in o.conds:
            if has(k[1]): return "the condition on %s" % show(k[1])
    if p.ctrl and len(p.ctrl) > 1 and isinstance(p.ctrl[1], tuple) and has(p.ctrl[1]): return "the result %s" % show(p.ctrl[1])
    for k in p.conds:
        if has(k[1]): return "the condition on %s" % show(k[1])
