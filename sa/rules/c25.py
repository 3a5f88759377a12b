from ..brokers import both
from ..query import *
from ..query import event_op, attr_in
from ..loops import *
from ..store import *
from ..interp import names_in
from .c34 import judge

FAIL = {"V311": "128", "V5": "New('ReasonCodes', _, 'Unspecified error')"}

def suback(c, b):
    v = b.v
    f = b.fn("MQTTBrokers.subscribe", ["Brokers.subscribe"])
    ps, bad = per_name(f, "packet.data")
    c.ob(v + ".suback.every-filter", bad is None, f.where, bad or "")
    ACK = "respond(sock, New('Subacks'), ...)"
    SUB = "self.broker.subscribe(_, ...)"
    FILT = "EACH(packet.data)[0]"
    ASK = "EACH(packet.data)[1].QoS" if b.five else "EACH(packet.data)[1]"
    attrs = "reasonCodes" if b.five else "data"
    codes, subs = set(), set()
    def ids(p):
        for m in p.top(ACK):
            t = attr_in(strip(m.ev.args[1]), attrs, m.ev.snap)
            if t is None: return "no codes are put in the SUBACK"
            codes.add(norm(t))
        for m in p.top(SUB):
            a = m.ev.args
            if len(a) < 3 or norm(a[0]) != norm(f.T("self.clients[sock].id")): return "the subscription is made for %s, not for the client that asked" % show(a[0])
            subs.add((norm(a[1]), norm(a[2])))
    c.each(v + ".suback.codes", f, [], ids)
    c.ob(v + ".suback.one-list", len(codes) == 1 and len(subs) == 1, f.where, "the codes or filters come from different places on different paths" if len(codes) != 1 or len(subs) != 1 else "")
    if len(codes) != 1 or len(subs) != 1: return
    (C,), ((N, O),) = codes, subs
    def adds(p, t): return [e for e in flat_events(p.events) if event_op(e)[0] and norm(event_op(e)[1]) == t]
    def granted(expect):
        def test(p):
            cs, ns, os_ = adds(p, C), adds(p, N), adds(p, O)
            if len(cs) != 1 or event_op(cs[0])[0] != "ADD" or cs[0].name == "insert": return "the filter does not add exactly one code at the end of the codes"
            code = event_op(cs[0])[2][0]
            ex = expect(code, p)
            if ex: return ex
            if len(ns) != 1 or len(os_) != 1 or {event_op(ns[0])[0], event_op(os_[0])[0]} != {"ADD"} or "insert" in (ns[0].name, os_[0].name): return "the accepted filter is not handed to the subscription store exactly once"
            if norm(event_op(ns[0])[2][0]) != norm(f.T(FILT)): return "%s is subscribed to, not the filter asked for" % show(event_op(ns[0])[2][0])
            opt = event_op(os_[0])[2][0]
            if not b.five: return None if norm(opt) == norm(code) else "the QoS subscribed with (%s) is not the one granted (%s)" % (show(opt), show(code))
            if norm(opt) != norm(f.T("(EACH(packet.data)[1], packet.properties)")): return "the options kept are %s" % show(opt)
            sets = [e for e in flat_events(p.events) if e.kind == "setattr" and e.name == "QoS" and norm(e.base) == norm(f.T("EACH(packet.data)[1]"))]
            val = norm(sets[-1].args[0]) if sets else norm(f.T(ASK))
            same = val == norm(attr(code, "value")) or code[0] == "new" and dict(code[3]).get("identifier") is not None and val == norm(dict(code[3])["identifier"])
            return None if same else "the QoS subscribed with (%s) is not the one granted" % show(val)
        return test
    def value(code):
        if not b.five: return code
        if code[0] != "new" or not code[1].endswith("ReasonCodes"): return None
        return dict(code[3]).get("identifier") or (code[2][2] if len(code[2]) > 2 else None)
    def exactly(code, p):
        if value(code) is None or norm(value(code)) != norm(f.T(ASK)): return "the code is %s, not the QoS asked for" % show(code)
        if b.five and code[2][0] != ("const", 9): return "the code is not one for a SUBACK"
    def atmost(n):
        def g(code, p):
            x = value(code)
            if x is None: return "the code is %s" % show(code)
            x = norm(x)
            if x[0] == "call" and x[1] == "min" and norm(f.T(ASK)) in x[2] or x == norm(f.T(ASK)) or x[0] == "const" and x[1] == 0: return None
            return "the QoS granted (%s) may exceed the one asked for" % show(x)
        return g
    legal = ["%s != 128" % ASK]     # a decoded SUBSCRIBE
    plain = legal + ["%s != '%s'" % (FILT, x) for x in ("test/nosubscribe", "test/QoS 1 only", "test/QoS 0 only")]
    judge(c, v + ".suback.granted", f, ps, plain, granted(exactly))
    for x in ("test/QoS 1 only", "test/QoS 0 only"):
        judge(c, v + ".suback.reduced." + x[-6:-5], f, ps, legal + ["%s == '%s'" % (FILT, x)], granted(atmost(1)))
    def refused(p):
        cs = adds(p, C)
        if len(cs) != 1 or event_op(cs[0])[0] != "ADD": return "the refused filter does not add exactly one code"
        if not unify(f.T(FAIL[v]), event_op(cs[0])[2][0], {}, None): return "the refused filter is answered with %s" % show(event_op(cs[0])[2][0])
        if adds(p, N) or adds(p, O): return "a refused filter becomes a subscription"
    judge(c, v + ".suback.refused", f, ps, ["%s == 'test/nosubscribe'" % FILT], refused)
    def nothing_else(p):
        "the codes and filters are changed only by the loop over the requested filters, and handed on once"
        for e in p.events:
            if e.kind != "loop" and event_op(e)[0] and norm(event_op(e)[1]) in (C, N, O): return "the codes or filters are changed outside the loop over the filters (%s)" % e
        ls = loops_over(p, f.T("packet.data"))
        if any(any(adds(PathQ(f, {}, ed.events, None, {}, {}), N) for ed in edges_of(o.ev.loop)) for o in ls):
            lo, hi = p.count(SUB)
            if (lo, hi) != (1, 1): return "accepted filters are not subscribed to exactly once"
        if p.count(ACK) != (1, 1): return "not exactly one SUBACK"
        n = [o for o in ls if any(adds(PathQ(f, {}, ed.events, None, {}, {}), C) for ed in edges_of(o.ev.loop))]
        if len(n) > 1: return "codes are added by several loops"
        n = [o for o in ls if any(adds(PathQ(f, {}, ed.events, None, {}, {}), N) for ed in edges_of(o.ev.loop))]
        if len(n) > 1: return "filters are added by several loops"
    c.each(v + ".suback.whole", f, [], nothing_else)
    # the store files what it is given; its result is not used for the codes
    g = b.fn("Brokers.subscribe", ["SubscriptionEngines.subscribe", "Brokers.__doRetained__"])
    c.exactly(v + ".suback.stored", g, [], "self.se.subscribe(aClientid, topic, %s)" % ("optionsprops" if b.five else "qos"))

def unsuback(c, b):
    v = b.v
    f = b.fn("MQTTBrokers.unsubscribe", ["Brokers.unsubscribe"])
    FL = "packet.topicFilters" if b.five else "packet.data"
    CALL_ = "self.broker.unsubscribe(self.clients[sock].id, %s)" % FL
    c.exactly(v + ".unsuback.all-filters", f, [], CALL_)
    c.exactly(v + ".unsuback.sent", f, [], "respond(sock, New('Unsubacks'), ...)")
    g = b.fn("Brokers.unsubscribe", ["SubscriptionEngines.unsubscribe"])
    c.exactly(v + ".unsuback.stored", g, [], "self.se.unsubscribe(aClientid, topic)")
    if not b.five: return
    c.exactly(v + ".unsuback.codes", f, [], "respond(sock, New('Unsubacks', reasonCodes=RET('unsubscribe', self.clients[sock].id, %s)), ...)" % FL)
    c.each(v + ".unsuback.codes.passed", g, [], lambda p: None if p.ret and unify(g.T("RET('unsubscribe', aClientid, topic)"), p.ret, {}, None) else "the result is %s" % show(p.ret))
    e = b.fn("SubscriptionEngines.unsubscribe")
    ps, bad = per_name(e, "aTopic")
    c.ob(v + ".unsuback.every-filter", bad is None, e.where, bad or "")
    rets = {norm(p.ret) for p in e.paths if not p.raised and p.ret is not None}
    c.ob(v + ".unsuback.result", len(rets) == 1, e.where, "" if len(rets) == 1 else "the result is not one list of codes")
    if len(rets) != 1: return
    R = rets.pop()
    st = Store(b); n = [0, 0]
    def truthful(p):
        adds = [x for x in p.events if event_op(x)[0] and norm(event_op(x)[1]) == R]
        inner = [x for x in flat_events(p.events) if event_op(x)[0] and norm(event_op(x)[1]) == R]
        if len(adds) != 1 or len(inner) != 1 or event_op(adds[0])[0] != "ADD" or adds[0].name == "insert": return "the filter does not add exactly one code at the end of the codes"
        code = event_op(adds[0])[2][0]
        rem = [x for x in flat_events(p.events) if event_op(x)[0] in ("REMOVE", "POP") and any(y[0] == "attr" and y[2] in st.attrs.values() for y in subterms(event_op(x)[1]))]
        want = "Success" if rem else "No subscription found"
        n[1 if rem else 0] += 1
        for name in ("Success", "No subscription found"):
            if name != want and unify(e.T("New('ReasonCodes', _, '%s')" % name), code, {}, None): return "the code is '%s' although %s" % (name, "a subscription was removed" if rem else "none was removed")
        if not unify(e.T("New('ReasonCodes', 11, '%s')" % want), code, {}, None): return "the code is %s, expected '%s'" % (show(code) + str(code[2:4]), want)
    judge(c, v + ".unsuback.truthful", e, ps, [], truthful)
    c.ob(v + ".unsuback.both", all(n), e.where, "" if all(n) else "one of the two codes is never given")

def check(c):
    c.rule("suback", "every requested filter adds exactly one code, in order; the code is the QoS asked for (never above it for the reduced test filters), the filter is subscribed to with the QoS of its code, a refused one not at all")
    c.rule("unsuback", "every filter adds exactly one code, Success exactly when an entry was removed; the handler sends the codes of this request's filters")
    for b in both(c): suback(c, b); unsuback(c, b)
