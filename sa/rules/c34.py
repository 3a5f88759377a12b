from ..brokers import both
from ..query import *
from ..query import event_op
from ..loops import *
from ..store import *

def judge(c, oid, f, ps, guards, test, where=None):
    n = 0
    for p in ps:
        for cc in f.assume(p.conds, guards):
            if p.raised: continue
            n += 1
            m = test(PathQ(f, cc, p.events, p.ctrl, p.heap, p.facts))
            if m: return c.ob(oid, False, f.where, "%s [on the path %s]" % (m, show_conds(cc)[:500]))
    c.count("path classes judged", n)
    return c.ob(oid, n > 0, f.where, "" if n else "no path")

def scan(f, p, S, same, other, what, goes_on):
    "the loops over the store in which an entry is changed: every entry with the client and filter is found, whatever precedes it"
    top = [e for e in p.events if any(w.match(e) is not None for w in what)]
    for o in loops_over(p, S):
        found = o.ev.loop.final if top else None     # a search, whose result is changed afterwards
        if not count_events([o.ev], what)[1] and found is None: continue
        es = edges_of(o.ev.loop)
        for ed in es:
            cc = dict(o.conds); cc.update(ed.conds); cc = erase(cc)
            hit = ed is found or any(w.match(e) is not None for e in flat_events(ed.events) for w in what)
            if hit:
                for g in other:
                    if f.assume(cc, [g]): return "an entry is changed although %s may hold" % g
            elif f.assume(cc, same): return "an entry of this client and filter may be passed over"
            elif ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the search ends at an entry that does not match"
        for i, g in enumerate(other):
            if any((ed.ctrl is None or ed.ctrl[0] == "continue") and f.assume(erase({**o.conds, **ed.conds}), [g]) for ed in es): goes_on.add(i)

def store_rules(c, b):
    v = b.v
    st = Store(b)
    F = st.field
    # the entry keeps what it is given, and the accessors give it back
    for role, acc in (("client", "getClientid"), ("topic", "getTopic")) + ((("options", "getOptions"),) if b.five else (("options", "getQoS"),)):
        g = b.fn("Subscriptions." + acc)
        c.each("%s.entry.%s" % (v, role), g, [], lambda p: None if norm(p.ret) == norm(p.fn.T("self." + F[role])) else "%s returns %s" % (acc, show(p.ret)))
        for n in b.P.cls(b.mods[3], "Subscriptions").methods:
            if n in b.parts("Subscriptions", ("__init__", "resubscribe")) or n.startswith("__repr"): continue
            c.untouched("%s.entry.%s.unchanged" % (v, n), b.fn("Subscriptions." + n), F["client"], F["topic"], F["options"])
    # subscribing
    f = b.fn("SubscriptionEngines.subscribe")
    ps, bad = per_name(f, "topic")
    c.ob(v + ".subscribe.every-filter", bad is None, f.where, bad or "")
    T, OPT = "EACH(topic)", "options[INDEX(topic)]"
    for cls, gs, pre in st.names(T):
        sub = pre + "subscriptions"
        S = "self." + st.attrs[sub]; E = "EACH(%s)" % S
        same = ["%s.%s == aClientid" % (E, F["client"]), "%s.%s == %s" % (E, F["topic"], T)]
        other = ["%s.%s != aClientid" % (E, F["client"]), "%s.%s != %s" % (E, F["topic"], T)]
        add = f.pat("ADD(%s, New('Subscriptions', aClientid, %s, %s))" % (S, T, OPT))
        rep = f.pat("SET(%s.%s, %s)" % (E, F["options"], OPT))
        n = [0, 0]; goes_on = set()
        def once(p):
            (al, ah), (rl, rh) = count_events(p.events, [add]), count_events(p.events, [rep])
            if ah and rh: return "an entry is added although there is one already"
            if ah: n[0] += 1; return None if al == ah == 1 else "the entry may be added more than once"
            if not rh: return "neither is an entry added nor the existing one changed"
            n[1] += 1
            return scan(f, p, f.T(S), same, other, [rep], goes_on)
        judge(c, "%s.subscribe.%s" % (v, cls), f, ps, gs + [VALID % T], once)
        c.ob("%s.subscribe.%s.both" % (v, cls), n[0] and n[1], f.where, "" if n[0] and n[1] else "an existing entry is %s" % ("never replaced" if n[0] else "always assumed"))
        c.ob("%s.%s.%s.search" % (v, f.func.name, cls), goes_on == {0, 1}, f.where, "" if goes_on == {0, 1} else "the search ends at the first entry that does not match")
        def exact(p):
            for o in p.flat():
                op, cont, a = event_op(o.ev)
                if op and any(uses_attr(cont, st.attrs[k]) for k in ("subscriptions", "dollar_subscriptions")) and add.match(o.ev) is None: return "the store is changed otherwise: %s" % o.ev
                if o.ev.kind == "setattr" and o.ev.name in F.values() and o.ev.base[0] != "new" and rep.match(o.ev) is None: return "an entry is changed otherwise: %s" % o.ev
        judge(c, "%s.subscribe.%s.nothing-else" % (v, cls), f, ps, gs, exact)
    # unsubscribing
    f = b.fn("SubscriptionEngines.unsubscribe")
    ps, bad = per_name(f, "aTopic")
    c.ob(v + ".unsubscribe.every-filter", bad is None, f.where, bad or "")
    T = "EACH(aTopic)"
    for cls, gs, pre in st.names(T):
        S = "self." + st.attrs[pre + "subscriptions"]; E = "EACH(%s)" % S
        same = ["%s.%s == aClientid" % (E, F["client"]), "%s.%s == %s" % (E, F["topic"], T)]
        other = ["%s.%s != aClientid" % (E, F["client"]), "%s.%s != %s" % (E, F["topic"], T)]
        rem = f.pat("REMOVE(%s, %s)" % (S, E))
        n = [0]; goes_on = set()
        def gone(p):
            l, h = count_events(p.events, [rem])
            if h:
                n[0] += 1
                return scan(f, p, f.T(S), same, other, [rem], goes_on)
        judge(c, "%s.unsubscribe.%s" % (v, cls), f, ps, gs + [VALID % T], gone)
        c.ob("%s.unsubscribe.%s.removed" % (v, cls), n[0], f.where, "" if n[0] else "the entry is never removed")
        c.ob("%s.%s.%s.search" % (v, f.func.name, cls), goes_on == {0, 1}, f.where, "" if goes_on == {0, 1} else "the search ends at the first entry that does not match")
        def exact(p):
            for o in p.flat():
                op, cont, a = event_op(o.ev)
                if op and any(uses_attr(cont, st.attrs[k]) for k in ("subscriptions", "dollar_subscriptions")) and rem.match(o.ev) is None: return "the store is changed otherwise: %s" % o.ev
                if o.ev.kind == "setattr" and o.ev.name in F.values(): return "an entry is changed: %s" % o.ev
        judge(c, "%s.unsubscribe.%s.nothing-else" % (v, cls), f, ps, gs, exact)
    c.stable(v + ".unsubscribe.whole", f)
    # clearing a client
    f = b.fn("SubscriptionEngines.clearSubscriptions")
    for k in ("subscriptions", "dollar_subscriptions"):
        S = "self." + st.attrs[k]; E = "EACH(%s)" % S
        c.for_each("%s.clear.%s.all" % (v, k), f, [], S, ["%s.%s == aClientid" % (E, F["client"])], "REMOVE(%s, %s)" % (S, E), early=False)
        def others(p):
            rem = f.pat("REMOVE(%s, %s)" % (S, E)); mut = f.pat("MUT(%s)" % S)
            for m in p.find("MUT(%s)" % S):
                if rem.match(m.ev) is None: return "the store is changed otherwise: %s" % m.ev
                if f.assume(erase(m.conds), ["%s.%s != aClientid" % (E, F["client"])]): return "another client's entry may be removed"
        c.each("%s.clear.%s.only" % (v, k), f, [], others)
    c.stable(v + ".clear.whole", f)
    # nothing else changes the stores
    for n in ("getSubscriptions", "subscriptions" if b.five else "subscribers", "setRetained", "getRetained", "getRetainedTopics", "optionsOf" if b.five else "qosOf"):
        c.untouched("%s.%s.reads-only" % (v, n), b.fn("SubscriptionEngines." + n), st.attrs["subscriptions"], st.attrs["dollar_subscriptions"], F["options"], F["client"], F["topic"])
    f = b.fn("SubscriptionEngines.reinitialize")
    for k in ("subscriptions", "dollar_subscriptions"): c.exactly("%s.reset.%s" % (v, k), f, [], "CLEAR(self.%s)" % st.attrs[k])
    c.never(v + ".reset.still-shared", f, [], ["SET(self.%s)" % st.attrs[k] for k in st.attrs])
    # the broker passes requests on unchanged
    f = b.fn("Brokers.subscribe", ["SubscriptionEngines.subscribe", "Brokers.__doRetained__"])
    c.exactly(v + ".broker.subscribe", f, [], "self.se.subscribe(aClientid, topic, %s)" % ("optionsprops" if b.five else "qos"))
    f = b.fn("Brokers.unsubscribe", ["SubscriptionEngines.unsubscribe"])
    c.exactly(v + ".broker.unsubscribe", f, [], "self.se.unsubscribe(aClientid, topic)")
    f = b.fn("Brokers.cleanSession", ["SubscriptionEngines.clearSubscriptions"])
    c.exactly(v + ".broker.clear", f, [], "self.se.clearSubscriptions(aClientid)")
    f = b.fn("Brokers.reinitialize", ["SubscriptionEngines.reinitialize"])
    c.exactly(v + ".broker.reset", f, [], "self.se.reinitialize()")

def uses_attr(t, attr): return any(x[0] == "attr" and x[2] == attr for x in subterms(t))

def check(c):
    c.rule("subscribe", "each valid filter: either one entry (client, filter, options) is added, or the options of the one existing entry of that client and filter are replaced; nothing else changes")
    c.rule("unsubscribe", "only an entry with this very client and filter is removed; the search sees every entry")
    c.rule("clear", "all and only the client's entries are removed from both stores, without skipping any")
    for b in both(c): store_rules(c, b)
