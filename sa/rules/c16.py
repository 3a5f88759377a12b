from ..brokers import both
from ..query import *
from ..query import event_op
from ..loops import *
from ..routing import *
from ..scene import *
from ..store import *
from .c15 import is_min, truth, objs

def rename(t, m):
    "replace terms (bottom-up, by normal form)"
    if t in m: return m[t]
    if not isinstance(t, tuple) or t[0] in ("const", "param", "fn", "cls", "mod", "ext", "glob", "obj"): return t
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in TAGS: return rename(x, m)
            return tuple(go(y) for y in x)
        return x
    t2 = (t[0],) + tuple(go(x) for x in t[1:])
    if t2[0] == "item": t2 = item(t2[1], t2[2])
    return m.get(t2, t2)

def resolve(p, t):
    "an element of a list built element by element from another one, at the same place: what was put there"
    t = norm(t)
    m = {}
    for x in subterms(t):
        if x[0] == "item" and (x[2][0] == "idx" or is_const(x[2])) and x[1][0] == "obj":
            fl = fills(p.events, x[1])
            if not fl or len(fl) != 1 or fl[0][1]: continue
            v = norm(fl[0][0])
            srcs = {y[1] for y in subterms(v) if y[0] == "elem"}
            if len(srcs) != 1: continue
            s = srcs.pop()
            m[x] = rename(v, {("elem", s): ("item", s, x[2]), ("idx", s): x[2]})
    return resolve(p, rename(t, m)) if m else t

def one_topic(f, t, tp):
    "the name of a list of filters: [topic], or topic itself"
    alts = {("alt", k) for k in ()}
    m = {}
    for x in subterms(t):
        if x[0] == "alt" and any(norm(y) == tp for y in x[1]): m[x] = tp
    return rename(t, m)

class Deliveries:
    "what a new subscription is given"
    def __init__(self, b, st): self.b, self.st = b, st
    def oracle(self, share, rh, resub, ident, match, seen=0, pubid=None):
        def stored(t): return any(ret(y) or y[0] in ("call", "ret") and y[1].split(".")[-1] == "getRetained" or y[0] == "new" for y in subterms(t))
        def ret(t): return t[0] in ("call", "ret") and t[1].split(".")[-1] == "getRetainedTopics"
        def matching(k, t):
            if k != "v" and k != "b": return False
            t = norm(t)
            if t[0] not in ("call", "ret") or t[1].split(".")[-1] != "topicMatches": return False
            a = t[2]
            return len(a) >= 2 and a[1][0] == "elem" and ret(norm(unwrap(a[1][1]))) and norm(unwrap(a[1][1]))[2][-1] == a[0]
        R = [(lambda k, t: k == "b" and t[0] == "starts" and t[2] in (const("$share/"), const("$share")), flag(share)),
             (lambda k, t: k == "v" and t[0] == "attr" and t[2] == "retainHandling", flagval(rh)),
             (lambda k, t: k == "b" and t[0] == "hasattr" and t[2] == "SubscriptionIdentifier" and not stored(t[1]), flag(ident)),
             (lambda k, t: k == "b" and t[0] == "hasattr" and t[2] == "SubscriptionIdentifier" and stored(t[1]), flag(pubid)),
             (lambda k, t: k == "b" and t[0] == "in" and local_obj(t[2]) is not None and t[1][0] == "elem", flag(seen)),
             (matching, Val(None, "T") if match else Val(None, "FN"))]
        if resub is not None: R.append((lambda k, t: k == "v" and t[0] == "item", Val(None, "T") if resub else Val(None, "NF")))
        return Oracle(R)
    def view(self, **kw):
        return self.b.view("Brokers.subscribe", calls=["publishArrived"], about=["retainHandling"], opaque=["MQTTClients.publishArrived", "SubscriptionEngines.subscribe"],
                           local=True, sets=["SubscriptionIdentifier"], given=["type(topic) == type([])"], oracle=self.oracle(**kw), nonempty=lambda b: True)

def check(c):
    c.rule("stored", "a publication with the retain flag is handed to the store with its topic, payload, QoS, arrival time (and properties); one without is not")
    c.rule("store", "the stored message of a topic is replaced, an empty one removes it, other topics' messages and other stores are left alone")
    c.rule("lookup", "looking up returns the stored message, and the topics that have one")
    c.rule("delivered", "each new subscription is given the stored message of each matching topic exactly once, unless it is shared or its retain handling says not to")
    c.rule("content", "with topic and payload as stored, the lower QoS, the retain flag, and the subscription identifier of this very subscription")
    c.rule("kept", "nothing but a retained publication (and the reset of the broker) changes the stored messages")
    for b in both(c):
        st = Store(b); v = b.v
        publishing(c, b)
        storing(c, b, st)
        delivering(c, b, st)
        ret = {st.attrs["retained"], st.attrs["dollar_retained"]}
        ok = ["SubscriptionEngines." + n for n in b.parts("SubscriptionEngines", ("__init__", "reinitialize", "setRetained", "getRetained", "getRetainedTopics"))]
        for n, f in b.P.cls(b.mods[2], "SubscriptionEngines").methods.items():
            if "SubscriptionEngines." + n in ok: continue
            g = b.fn("SubscriptionEngines." + n)
            c.untouched("%s.kept.%s" % (v, n), g, *ret)
        # the shared data is reached only through the store
        c.mentions(v + ".kept.others", [b.mods[0], b.mods[1]], ret, [])
        for short in ("Brokers.unsubscribe", "Brokers.cleanSession", "Brokers.disconnect", "Brokers.terminate", "Brokers.connect"):
            if not b.has(short): continue
            f = b.view(short, calls=["setRetained", "reinitialize"], opaque=["SubscriptionEngines.setRetained", "SubscriptionEngines.reinitialize", "Brokers.publish"])
            c.never("%s.kept.%s" % (v, short.split(".")[1]), f, [], ["setRetained(...)", "reinitialize(...)"])
        flags(c, b)

def publishing(c, b):
    v = b.v
    f = b.view("Brokers.publish", calls=["setRetained"], about=["TopicAlias"], opaque=["SubscriptionEngines.setRetained", "MQTTClients.publishArrived", "Brokers.getAliasTopic"])
    tail = ", properties" if b.five else ""
    want = "setRetained(v_t, message, qos, receivedTime%s)" % tail
    fresh = ["len(topic) > 0"] + (["not hasattr(properties, 'TopicAlias')"] if b.five else [])
    c.exactly(v + ".stored", f, ["retained"] + fresh, want.replace("v_t", "topic"))
    c.never(v + ".stored.only", f, ["not retained"], ["setRetained(...)"])
    c.each(v + ".stored.once", f, [], lambda p: None if p.count("setRetained(...)")[1] <= 1 else "several messages are stored")

def storing(c, b, st):
    v = b.v
    f = b.fn("SubscriptionEngines.reinitialize")
    for k in ("retained", "dollar_retained"): c.exactly(v + ".store.reset." + k, f, [], "CLEAR(self.%s)" % st.attrs[k])
    f = b.fn("SubscriptionEngines.setRetained")
    for cls, gs, pre in st.names("aTopic"):
        R = "self." + st.attrs[pre + "retained"]
        O = ["self." + a for k, a in st.attrs.items() if k != pre + "retained"]
        put = "PUT(%s, aTopic, (aMessage, aQoS, receivedTime%s))" % (R, ", properties" if b.five else "")
        gone = "REMOVE(%s, aTopic)" % R
        any_ = ["MUT(%s)" % R]
        gs = gs + [VALID % "aTopic"]
        full, empty = ["len(aMessage) > 0"], ["len(aMessage) == 0"]
        c.exactly("%s.store.replace.%s" % (v, cls), f, gs + full, put)
        c.never("%s.store.replace.%s.only" % (v, cls), f, gs + full, [gone] + ["MUT(%s)" % o for o in O])
        c.each("%s.store.replace.%s.once" % (v, cls), f, gs + full, lambda p: None if p.count(*any_) == (1, 1) else "the store is changed several times")
        def cleared(p):
            if p.find(put): return "an empty message is stored"
            if p.find(*["MUT(%s)" % o for o in O]): return "another store is changed"
            if any(not m for m in [f.pat(gone).match(x.ev) is not None or f.pat("POP(%s, aTopic)" % R).match(x.ev) is not None for x in p.find(*any_)]): return "the store is changed otherwise than by removing the topic's message"
            n = p.count(*any_)
            if p.entails("aTopic in " + R) and n != (1, 1): return "the stored message is not removed"
            if not p.entails("aTopic not in " + R) and not p.entails("aTopic in " + R) and n == (0, 0): return "the stored message is not removed"
        c.each("%s.store.clear.%s" % (v, cls), f, gs + empty, cleared)
    g = b.fn("SubscriptionEngines.getRetained")
    h = b.fn("SubscriptionEngines.getRetainedTopics")
    c.untouched(v + ".lookup.message.unchanged", g, *st.attrs.values())
    c.untouched(v + ".lookup.topics.unchanged", h, *st.attrs.values())
    for cls, gs, pre in st.names("aTopic"):
        R = "self." + st.attrs[pre + "retained"]
        gs = gs + [VALID % "aTopic"]
        want = norm(g.T("%s[aTopic]" % R))
        get = {want, norm(("meth", g.T(R), "get", (g.T("aTopic"),), ())), ("call", "get", (norm(g.T(R)), norm(g.T("aTopic"))), ())}
        def got(p):
            if p.ret is None: return
            r = norm(p.ret)
            if p.entails("aTopic in " + R):
                if r != want and not any(x == want for x in subterms(r)) and norm(g.T(R)) not in list(subterms(r)): return "looking up a stored message returns %s" % show(p.ret)
            elif p.entails("aTopic not in " + R) and r != NONE and r[0] == "item": return "a message is returned for a topic without one"
            others = [norm(g.T("self." + a)) for a in st.attrs.values() if "self." + a != R]
            if any(x in others for x in subterms(r)): return "the message returned is from another store"
        c.each("%s.lookup.message.%s" % (v, cls), g, gs, got)
        def names(p):
            if p.ret is None: return
            r = norm(p.ret)
            if r == norm(h.T(R)) or r == ("keys", norm(h.T(R))) or norm(unwrap(r)) == norm(h.T(R)): return
            o = local_obj(strip(p.ret))
            fl = fills(p.events, o) if o is not None else None
            if fl is not None and all(norm(x) == ("elem", norm(h.T(R))) for x, cs, _ in fl): return
            if o is not None: return
            return "the topics with a stored message are given as %s" % show(p.ret)
        c.each("%s.lookup.topics.%s" % (v, cls), h, gs, names)

def delivering(c, b, st):
    v = b.v; D = Deliveries(b, st)
    ns = b.params["MQTTClients.publishArrived"][1:]
    grid = [(s, rh, rs) for s in (0, 1) for rh in (0, 1, 2) for rs in (0, 1)] if b.five else [(None, None, None)]
    for share, rh, resub in grid:
        tag = "" if share is None else ".share%d-handling%d-again%d" % (share, rh, resub)
        deliver = not b.five or not share and (rh == 0 or rh == 1 and not resub)
        for match in (1, 0):
            f = D.view(share=share, rh=rh, resub=resub, ident=0, match=match)
            tp = norm(f.T("topic"))
            retained = lambda t: ("call", "getRetainedTopics", (norm(f.T("self.se")), t), ())
            def test(p):
                ds = deliveries(p.events)
                if not deliver or not match:
                    return "the stored message is sent although %s (%s)" % ("the filter does not match" if not match else "the subscription is shared or its retain handling says not to", ds[0].ev) if ds else None
                if not ds: return "no stored message is sent"
                outer = [e for e in p.events if e.kind == "loop" and deliveries([e])]
                if len(outer) != 1: return "stored messages are sent in %d loops" % len(outer)
                return each_way(p, f, outer[0].loop, tp)
            c.each("%s.delivered%s.%s" % (v, tag, "match" if match else "other"), f, [], test)
            if deliver and match: c.each("%s.content%s" % (v, tag), f, [], lambda p: content(b, f, p, tp, ns))
    if b.five:
        f = D.view(share=None, rh=None, resub=None, ident=0, match=1)
        def mixed(p):
            outer = [e for e in p.events if e.kind == "loop" and deliveries([e])]
            for e in outer:
                for ed in edges_of(e.loop):
                    if one_topic(f, norm(unwrap(e.loop.it)), tp) == tp:
                        for d in deliveries(ed.events):
                            for x in subterms(d.arg(2, "qos")):
                                if x[0] == "item" and x[2][0] == "acc": return "the options are those at position %s, which is not the filter's own after another filter was passed over" % show(x)
                    if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "a filter that is given no stored messages keeps later ones from being served"
            return content(b, f, p, tp, ns)
        c.each("%s.delivered.mixed" % v, f, [], mixed)
        f = D.view(share=0, rh=0, resub=0, ident=0, match=1, pubid=1)
        def stale(p):
            for d in deliveries(p.events):
                if not any(e.kind == "delattr" and e.name == "SubscriptionIdentifier" for e in d.stack[-1][1].events): return "the publication's own subscription identifier is sent"
        c.each("%s.content.identifier.stale" % v, f, [], stale)
        for ident in (1, 0):
            f = D.view(share=0, rh=0, resub=0, ident=ident, match=1)
            tp = norm(f.T("topic"))
            c.each("%s.content.identifier%d" % (v, ident), f, [], lambda p: identifier(f, p, tp, ident))

def each_way(p, f, lp, tp):
    """every innermost way sends exactly one; no loop ends early"""
    it = one_topic(f, norm(unwrap(lp.it)), tp)
    if it != tp: return None if not understood(it) else "stored messages are sent for each of %s, not for each filter" % show(lp.it)
    depth = [0]
    def go(lp, d):
        for ed in edges_of(lp):
            if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the loop over %s may end before all were served" % show(lp.it)
            top = [e for e in ed.events if e.kind == "call" and e.name.split(".")[-1] == "publishArrived"]
            inner = [e for e in ed.events if e.kind == "loop" and deliveries([e])]
            if d == 0:
                if top: return "one message is sent per filter, not one per matching topic"
                if len(inner) != 1: return "a filter's stored messages are %s%s" % ("not sent" if not inner else "sent several times", " when " + show_conds(ed.conds)[:200] if ed.conds else "")
                m = go(inner[0].loop, 1)
                if m: return m
            else:
                if inner: return "a matching topic's message is sent in a loop of its own"
                if len(top) != 1: return "a matching topic's message is sent %d times%s" % (len(top), " when " + show_conds(ed.conds)[:200] if ed.conds else "")
                base = norm(unwrap(lp.it))
                if base[0] in ("call", "ret") and base[1].split(".")[-1] == "getRetainedTopics" and one_topic(f, base[2][-1], tp) != ("elem", tp):
                    return "the messages sent are those of %s, not of the topics the filter matches" % show(lp.it)
    return go(lp, 0)

def understood(t): return not any(x[0] in ("obj", "unknown", "join") for x in subterms(t))

def content(b, f, p, tp, ns):
    for d in deliveries(p.events):
        a = {n: d.arg(i, n) for i, n in enumerate(ns)}
        if any(a.get(n) is None for n in ("topic", "msg", "qos", "retained")): return "%s lacks an argument" % d.ev
        can = lambda t: resolve(p, one_topic(f, norm(t), tp))
        s = can(a["topic"])
        if s[0] != "elem": return "the topic is %s, not that of the stored message" % show(a["topic"])
        ret = [x for x in subterms(can(a["msg"])) if x[0] in ("call", "ret") and x[1].split(".")[-1] == "getRetained"]
        rec = next((x for x in ret if x[2] == (norm(f.T("self.se")), s)), None)
        if not understood(can(a["msg"])): continue
        if rec is None or can(a["msg"]) != ("item", rec, const(0)): return "the payload is %s, not that stored for the topic" % show(a["msg"])
        idx = ("idx", tp)
        def own(q):
            q = can(q)
            if q[0] == "call" and q[1] in ("max", "min", "sum") and len(q[2]) == 1: return False # that of all the subscriptions together
            if b.five: return q in (("attr", ("item", ("item", norm(f.T("optionsprops")), idx), const(0)), "QoS"),) or not understood(q)
            return q == ("item", norm(f.T("qos")), idx) or not understood(q)
        want = ("item", rec, const(1))
        q = can(a["qos"])
        if not is_min(q, own, want, {(k[0], can(k[1])): x for k, x in d.conds.items()}): return "the QoS is %s, expected the lower of the stored message's and this subscription's" % show(a["qos"])
        if truth(a["retained"], f, d.conds, lambda k: None) is not True: return "the retain flag is %s, expected True" % show(a["retained"])
        if b.five and a.get("receivedTime") is not None and can(a["receivedTime"]) != ("item", rec, const(2)): return "the arrival time is %s, not the stored one" % show(a["receivedTime"])
        nb = norm(d.ev.base)
        if not (nb[0] == "item" and nb[2] == norm(f.T("aClientid"))): return "the message is sent to %s, not to the subscriber" % show(d.ev.base)

def identifier(f, p, tp, ident):
    for d in deliveries(p.events):
        at = d.stack[-1][1].events
        n = [i for i, e in enumerate(at) if e is d.ev]
        s = [(i, e) for i, e in enumerate(at) if e.kind == "setattr" and e.name == "SubscriptionIdentifier"]
        if not ident:
            if s: return "%s though the subscription has no identifier" % s[0][1]
            continue
        if not s: return "the subscription's identifier is not sent"
        if n and any(i > n[0] for i, _ in s): return "the identifier is set after the message was handed over"
        for i, e in s:
            v = resolve(p, one_topic(f, norm(e.args[0]), tp))
            x = [y for y in subterms(v) if y[0] == "attr" and y[2] == "SubscriptionIdentifier"]
            if understood(v) and not any(y[1] == ("item", ("item", norm(f.T("optionsprops")), ("idx", tp)), const(1)) for y in x): return "the identifier is %s, not this subscription's" % show(e.args[0])

def flags(c, b):
    "the retain flag of the packet is what the publication is made with"
    v = b.v
    for h in ("publish", "pubrel"):
        f = b.view("MQTTBrokers." + h, calls=["publish"], about=["inbound"], opaque=["Brokers.publish"])
        k = b.params["Brokers.publish"].index("retained") - 1
        def test(p):
            for m in p.find("publish(...)"):
                if m.ev.name.split(".")[-2:] != ["Brokers", "publish"]: continue
                a = m.ev.args[k] if len(m.ev.args) > k else dict(m.ev.kw).get("retained")
                if a is None: return "the retain flag is not handed on"
                a = norm(a)
                if a[0] == "attr" and a[2] == "RETAIN": continue
                if any(x[0] == "attr" and "will" in x[2].lower() for x in subterms(a)): continue
                if h == "pubrel" and not any(x[0] == "attr" and x[2] in ("QoS", "DUP") for x in subterms(a)): continue
                return "the publication is made with %s instead of the packet's retain flag" % show(a)
        c.each("%s.stored.flag.%s" % (v, h), f, [], test)
    # a will: its own flag
    f = b.view("Brokers.sendWillMessage" if b.five else "Brokers.terminate", calls=["publish"], about=["will"], opaque=["Brokers.publish", "Brokers.disconnect"])
    def will(p):
        for m in p.find("publish(...)"):
            k = b.params["Brokers.publish"].index("retained") - 1
            a = m.ev.args[k] if len(m.ev.args) > k else dict(m.ev.kw).get("retained")
            if a is None or is_const(norm(a)): return "the will is published with %s instead of its retain flag" % (show(a) if a else "nothing")
    c.each(v + ".stored.flag.will", f, [], will)
