from ..brokers import both
from ..query import *
from ..store import *

def judge(c, oid, f, ps, guards, test):
    n = 0
    for p in ps:
        for cc in f.assume(p.conds, guards):
            n += 1
            m = test(PathQ(f, cc, p.events, p.ctrl, p.heap, p.facts))
            if m: return c.ob(oid, False, f.where, "%s [on the path %s]" % (m, show_conds(cc)[:500]))
    c.count("path classes judged", n)
    return n

def check(c):
    c.rule("apart", "each operation on a name or filter touches only the store the first character assigns it to, and does touch that one")
    c.rule("stores", "the four stores are different parts of the shared data")
    for b in both(c):
        v, st = b.v, Store(b)
        c.ob(v + ".stores.distinct", len(set(st.attrs.values())) == 4, st.init.where)
        ops = [("getSubscriptions", "aTopic", "subscriptions", 0), ("subscriptions" if b.five else "subscribers", "aTopic", "subscriptions", 0),
               ("setRetained", "aTopic", "retained", 0), ("getRetained", "aTopic", "retained", 0), ("getRetainedTopics", "aTopic", "retained", 0),
               ("subscribe", "topic", "subscriptions", 1), ("unsubscribe", "aTopic", "subscriptions", 1)]
        for n, par, kind, per in ops:
            f = b.fn("SubscriptionEngines." + n, pure={"topicMatches", "isValidTopicName"})
            ps, T = (per_name(f, par)[0], "EACH(%s)" % par) if per else (f.paths, par)
            for cls, gs, pre in st.names(T):
                want = st.attrs[pre + kind]
                n_use = [0]
                def apart(p):
                    for k, a in st.attrs.items():
                        u = uses(p, a)
                        if u and a == want: n_use[0] += 1
                        if u and a != want: return "%s name: %s concerns %s, not %s" % (cls, u, a, want)
                oid = "%s.%s.%s" % (v, n, cls)
                r = judge(c, oid, f, ps, gs + [VALID % T], apart)
                if r is not False: c.ob(oid, n_use[0] > 0, f.where, "" if n_use[0] else "%s names are not looked up" % cls)
