"""Topic aliases stand for exactly the topic they were set to."""
from ..brokers import both
from ..query import *
from ..terms import *
from ..loops import *
from .c18 import accepted, cases, connecting, me

A = "packet.properties.TopicAlias"
HAS_A = "hasattr(packet.properties, 'TopicAlias')"
OUT, IN, MAX = "outgoingTopicNamesToAliases", "topicAliasToNames", "topicAliasMaximum"

def check(c):
    c.rule("in.set", "a PUBLISH with a topic and an alias within the maximum records the topic for the alias, on the client of the connection, and goes on with its topic, whatever its QoS and whether or not it is a redelivery")
    c.rule("in.used", "a PUBLISH without a topic goes on with the topic its alias stands for")
    c.rule("in.refused", "an alias of zero, beyond the maximum, or unknown and without a topic, is a protocol error before anything else happens; so is no topic and no alias")
    c.rule("in.not-forwarded", "an alias of the sender is not in what is sent to others, and a PUBREL sets none")
    c.rule("out", "an outgoing PUBLISH has its whole topic, or the alias the list of this connection gives to it; an alias is made only while there are fewer than the maximum, is sent together with its topic, and is forgotten again if that packet was not sent")
    c.rule("out.restored", "a message kept for sending again keeps its topic and has no alias")
    c.rule("fresh", "the end of a connection, or the start of the next, empties both tables; the maximum for outgoing aliases is that of the CONNECT")
    c.rule("announced", "the maximum announced is the one the aliases are checked against")
    b = both(c)[1]
    inbound(c, b); outbound(c, b); fresh(c, b)

def named(t, *names):
    t = strip(t) if t is not None else ("?",)
    return t[0] == "attr" and t[2] in names

def inbound(c, b):
    f = b.fn("MQTTBrokers.publish", ["Brokers.publish", "MQTTBrokers.disconnect"])
    own, via = "self.clients[sock]", "self.broker.__clients[self.clients[sock].id]"
    here = ["sock in self.clients", "packet.topicName.find('+') == -1", "packet.topicName.find('#') == -1"]
    topic, none = "packet.topicName", "packet.topicName == ''"
    tables = [norm(f.T("%s.%s" % (x, IN))) for x in (own, via)]
    alias = norm(f.T(A)); given = norm(f.T("packet.topicName"))
    maxi = {norm(f.T("self.broker." + MAX)), norm(f.T(b.opt(MAX)))}
    known, unknown = [], []
    # which of the two ways to get at the client the code uses
    text = " ".join(p.text() + " ".join(str(e) for e in p.events) for p in f.paths)
    T = "%s.%s" % (own if "self.clients[sock].%s" % IN in text else via, IN)
    M = "self.broker." + MAX if "self.broker." + MAX in text else b.opt(MAX)
    ended = lambda p: p.raised is not None or bool([e for e in p.events if e.kind == "call" and e.name == "MQTTBrokers.disconnect"])
    def puts(p): return [o.ev for o in p.flat() if event_op(o.ev) and event_op(o.ev)[0] in ("PUT", "ADD", "REMOVE", "CLEAR", "POP") and in_table(event_op(o.ev)[1])]
    def in_table(t):
        if t is None: return False
        t = strip(t)
        return t[0] == "attr" and t[2] == IN
    def goes_on(p, want):
        for e in p.events:
            if e.kind == "call" and e.name == "Brokers.publish" and norm(e.args[1]) != want: return "the topic it is published on is %s" % show(e.args[1])
            op = event_op(e)
            if op and op[0] == "PUT" and named(op[1], "inbound"):
                v = p.heap.get((("param", "packet"), "topicName"), f.T("packet.topicName"))
                if norm(v) != want: return "the topic it is kept with is %s" % show(v)
    def set_(p):
        if ended(p): return
        ps = puts(p)
        if len(ps) != 1: return "the alias is recorded %d times" % len(ps)
        op = event_op(ps[0])
        if norm(op[1]) not in tables: return "the alias is recorded in %s" % show(op[1])
        if norm(op[2][0]) != alias: return "the alias recorded is %s" % show(op[2][0])
        if norm(op[2][1]) != given: return "the topic recorded is %s" % show(op[2][1])
        return goes_on(p, given)
    c.each("V5.in.set", f, here + [HAS_A, topic, A + " > 0", "%s <= %s" % (A, M)], set_)
    def plain(p):
        if ended(p): return
        if puts(p): return "an alias is recorded"
        return goes_on(p, given)
    c.each("V5.in.none", f, here + ["not " + HAS_A, topic], plain)
    def used(p):
        if ended(p): return
        if puts(p): return "the alias is set anew"
        return goes_on(p, norm(f.T("%s[%s]" % (T, A))))
    c.each("V5.in.used", f, here + [HAS_A, none, A + " > 0", "%s in %s" % (A, T)], used)
    # refusals
    def served(p):
        for x in (topic,):
            pass
        if p.raised is not None: return "it is refused (%s)" % show(p.raised)
    c.each("V5.in.set.served", f, here + [HAS_A, topic, A + " > 0", "%s <= %s" % (A, M)], served, skip_raised=False)
    c.each("V5.in.used.served", f, here + [HAS_A, none, A + " > 0", "%s in %s" % (A, T)], lambda p: None if p.raised is None or "Assertion" in repr(p.raised) and "topicAliasToNames" in p.text() else served(p), skip_raised=False)
    def refused(p):
        for e in p.events:
            op = event_op(e)
            if e.kind == "call" and e.name in ("respond", "Brokers.publish"): return "%s happens" % e
            if op and op[0] in ("PUT", "ADD") and named(op[1], IN, "inbound"): return "%s happens" % e
        if ended(p): return
        return "it is not refused"
    c.each("V5.in.refused.zero", f, here + [HAS_A, A + " == 0"], refused, skip_raised=False)
    c.each("V5.in.refused.beyond", f, here + [HAS_A, topic, "%s > %s" % (A, M), A + " > 0", "%s not in %s" % (A, T)], refused, skip_raised=False)
    c.each("V5.in.refused.unknown", f, here + [HAS_A, none, A + " > 0", "%s not in %s" % (A, T)], refused, skip_raised=False)
    c.each("V5.in.refused.nothing", f, here + ["not " + HAS_A, none], refused, skip_raised=False)
    # not forwarded
    gone = [True]
    def deleted(p):
        for e in p.events:
            if e.kind == "call" and e.name == "Brokers.publish":
                if (e.snap or {}).get((f.T("packet.properties"), "TopicAlias")) != ("deleted",): gone[0] = False
            op = event_op(e)
            if op and op[0] == "PUT" and named(op[1], "inbound"):
                if p.heap.get((f.T("packet.properties"), "TopicAlias")) != ("deleted",): gone[0] = False
    for p in f.paths:
        if p.consistent(*(here + [HAS_A])): deleted(p)
    if gone[0]: c.ob("V5.in.not-forwarded", True, f.where, "the alias is removed from the message received")
    else:
        pa = b.fn("MQTTClients.publishArrived", b.drainers() + ["MQTTClients.sendFirst"])
        def copied(p):
            for e in p.events:
                if e.kind == "call" and e.name.split(".")[-1] == "sendFirst" or (event_op(e) or ("",))[0] in ("ADD",):
                    for x in e.args:
                        for (o, n), v in p.heap.items():
                            if n == "TopicAlias" and v != ("deleted",): return "the message has an alias"
                        if any(k[0] == "b" and k[1][0] == "hasattr" and k[1][2] == "TopicAlias" and d.s == {True} for k, d in p.conds.items()) and not any(n == "TopicAlias" and v == ("deleted",) for (o, n), v in p.heap.items()): return "the message has the alias of its sender"
        c.each("V5.in.not-forwarded", pa, [], copied)
        pr = b.fn("MQTTBrokers.pubrel", [])
        c.each("V5.in.pubrel", pr, [], lambda p: "an alias is set when the PUBREL comes" if puts(p) else None)

def outbound(c, b):
    calls = [0]
    for name in ("sendFirst", "resendPub"):
        f = b.fn("MQTTClients." + name, [])
        O, topic, M = norm(f.T("self." + OUT)), norm(f.T("pub.topicName")), norm(f.T("self." + MAX))
        pub, props = f.T("pub"), f.T("pub.properties")
        cond_in = ("b", ("in", f.T("pub.topicName"), f.T("self." + OUT)))
        known = "pub.topicName in self." + OUT
        def is_out(t): return t is not None and norm(strip(t)) == O
        def right(p):
            added = None
            for i, e in enumerate(p.events):
                op = event_op(e)
                if op and is_out(op[1]):
                    if op[0] == "ADD":
                        if norm(op[2][0]) != topic: return "%s is given an alias" % show(op[2][0])
                        if e.name not in ("append",): return "an alias is put before others, which then stand for other topics"
                        if added is not None: return "two aliases are made"
                        if f.assume(p.conds, [known]): return "a topic gets a second alias"
                        if f.assume(p.conds, ["len(self.%s) >= self.%s" % (OUT, MAX)]): return "an alias beyond the maximum is made"
                        added = i
                    elif op[0] in ("POP", "REMOVE"):
                        if added is None: return "an alias is taken away"
                        if op[0] == "POP" and e.name != "poplast": return "another alias is taken away"
                        added = None
                    else: return "the aliases are changed: %s" % e
                if e.kind == "call" and e.name == "respond" and strip(e.args[1]) == pub:
                    calls[0] += 1
                    tn = norm(e.snap.get((pub, "topicName"), f.T("pub.topicName")))
                    al = e.snap.get((props, "TopicAlias"))
                    if al == ("deleted",): al = None
                    if tn != topic and not (is_const(tn) and tn[1] in ("", b"")): return "it is sent with the topic %s" % show(tn)
                    if al is None and tn != topic: return "it is sent without topic and alias"
                    if al is not None:
                        base, terms = to_lin(strip(al))
                        ok = False
                        if len(terms) == 1 and list(terms.values()) == [1]:
                            t = list(terms)[0]; s = strip(t)
                            if s[0] == "meth" and s[2] == "index" and is_out(s[1]) and norm(s[3][0]) == topic: ok = base == 1
                            elif s[0] == "len" and "outgoing" in repr(s) and added is not None: ok = base == (0 if "'ver'" in repr(t) or s[1] != strip(s[1]) else 1)
                        if not ok: return "its alias is %s" % show(al)
                        if added is None and f.assume(p.conds, ["not (%s)" % known]): return "an alias is used which was not made"
                        if tn != topic and f.assume(p.conds, ["not (%s)" % known]): return "an alias is made without its topic being sent"
                    sent = strip(e.ret)
            if added is not None:
                rs = [e for e in p.events if e.kind == "call" and e.name == "respond" and strip(e.args[1]) == pub]
                if not rs: return "an alias is made which is not sent"
                d = p.conds.get(("v", rs[-1].ret))
                if d is None or f.assume(p.conds, ["not r"], extra={"r": rs[-1].ret}): return "the alias stays although its packet was not sent"
                if rs[-1].snap.get((props, "TopicAlias")) in (None, ("deleted",)): return "the alias is not sent"
        none = ["not hasattr(pub.properties, 'TopicAlias')"]
        c.each("V5.out." + name, f, none, right)
        def restored(p):
            v = p.heap.get((pub, "topicName"))
            if v is not None and norm(v) != topic: return "the message is kept with the topic %s" % show(v)
            v = p.heap.get((props, "TopicAlias"))
            if v not in (None, ("deleted",)): return "the message is kept with its alias"
        c.each("V5.out.restored." + name, f, none, restored)
    c.ob("V5.out.looked-at", calls[0] > 2, "V5 MQTTClients", "" if calls[0] > 2 else "no message is sent")

def fresh(c, b):
    md = b.fn("MQTTBrokers.disconnect", ["Brokers.disconnect", "MQTTBrokers.closeSocket"])
    there = ["sock in self.clients", "self.clients[sock] is not None"]
    cl = md.T("self.clients[sock]")
    empty = lambda v: v is not None and (v in (("seq", "list", ()), ("dict", ())) or (v[0] in ("obj", "seq", "dict") and len(v) >= 2 and not any(isinstance(x, tuple) and x for x in v[2:])) or v[0] == "new")
    state = {}
    def cleared(attr):
        def test(p):
            if p.raised is not None: return
            v = p.heap.get((cl, attr))
            ok = v is not None and is_empty(p, md, v) or bool(p.find("CLEAR(self.clients[sock].%s)" % attr))
            if not ok: return "the aliases stay when the connection ends"
        return test
    for attr, oid in ((OUT, "out"), (IN, "in")):
        at_end = all(not cleared(attr)(p) for p in md.paths if p.consistent(*there))
        if at_end: c.each("V5.fresh." + oid, md, there, cleared(attr))
        else:
            f = connecting(b, sets=[attr], about=[attr])
            for name, g, resumed, clear in cases(b):
                if not resumed: continue
                def test(p):
                    if me(p) is None: return
                    v = p.heap.get((me(p), attr))
                    if v is None or not is_empty(p, f, v): return "the aliases of the last connection are still there"
                c.each("V5.fresh.%s.%s" % (oid, name), f, accepted(b) + g, test)
    f = connecting(b, sets=[MAX, "TopicAliasMaximum"], about=[MAX, "TopicAliasMaximum"])
    has = "hasattr(packet.properties, 'TopicAliasMaximum')"
    for name, g, resumed, clear in cases(b):
        for what, gg, want in (("given", [has], "packet.properties.TopicAliasMaximum"), ("none", ["not " + has], "0")):
            def test(p):
                if me(p) is None: return
                v = p.heap.get((me(p), MAX))
                if v is None or norm(v) != norm(f.T(want)): return "the maximum for the client is %s, expected %s" % (show(v) if v else "that of its last connection", want)
            c.each("V5.fresh.maximum.%s.%s" % (what, name), f, accepted(b) + g + gg, test)
    M = b.opt(MAX)
    def announced(want):
        def test(p):
            if me(p) is None: return
            s = p.find("SET(_.TopicAliasMaximum, v_t)")
            if want and (not s or norm(s[-1].b["v_t"]) not in (norm(f.T(M)), norm(f.T("self.broker." + MAX)))): return "the maximum is not announced"
            if not want and s and norm(s[-1].b["v_t"]) not in (norm(f.T(M)), const(0)): return "%s is announced" % show(s[-1].b["v_t"])
        return test
    c.each("V5.announced", f, accepted(b) + [M + " > 0"], announced(True))
    c.each("V5.announced.none", f, accepted(b) + [M + " == 0"], announced(False))

def is_empty(p, f, v):
    v = strip(v)
    if v[0] == "seq": return not v[2]
    if v[0] == "obj" or v[0] == "dict": return not [e for e in p.events if event_op(e) and event_op(e)[1] is not None and strip(event_op(e)[1]) == v and event_op(e)[0] in ("ADD", "PUT")]
    if v[0] == "call" and v[1] in ("dict", "list", "set") and not v[2]: return True
    return False
