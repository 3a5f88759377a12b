"""Will messages: stored as the CONNECT says, published once at an abnormal end, never otherwise."""
from ..brokers import both
from ..query import *
from ..query import event_op
from ..interp import names_in
from ..loops import *
from ..terms import *
from ..dom import *
from .c18 import accepted, cases, connecting, me, ID, STATE, REG

FIELDS = ["WillTopic", "WillMessage", "WillQoS", "WillRETAIN"]   # in the order of the arguments of Brokers.publish
C = "self.__clients[aClientid]"
HERE = ["aClientid in self.__clients", C + ".connected"]

def stored(c, b):
    "the will kept for a client is the one of its CONNECT; the position of each field in it"
    f = connecting(b, sets=["will"], about=["WillFlag"])
    fields = FIELDS + (["WillProperties"] if b.five else [])
    want = {norm(f.T("packet." + x)): x for x in fields}
    pos = {}
    for name, g, resumed, clear in cases(b):
        def has(p):
            if me(p) is None: return
            v = p.heap.get((me(p), "will"))
            if v is None: return "the will of the CONNECT is not kept"
            if v[0] != "seq": return "the will kept is %s" % show(v)
            got = [want.get(norm(x)) for x in v[2]]
            if sorted(map(str, got)) != sorted(fields): return "the will kept is %s" % show(v)
            for i, x in enumerate(got):
                if pos.setdefault(x, i) != i: return "the will is kept in different ways"
        c.each(b.v + ".kept." + name, f, accepted(b) + g + ["packet.WillFlag"], has)
        def hasnt(p):
            if me(p) is None: return
            v = p.heap.get((me(p), "will"))
            if v != NONE: return "a client without a will has the will %s" % (show(v) if v else "of its last connection")
        c.each(b.v + ".kept.none." + name, f, accepted(b) + g + ["not packet.WillFlag"], hasnt)
    return [(x, pos.get(x)) for x in fields]

def published(b, pos):
    args = ["%s.will[%s]" % (C, pos[x] if pos.get(x) is not None else "_") for x in FIELDS]
    if b.five: args.append("%s.will[%s]" % (C, pos["WillProperties"] if pos.get("WillProperties") is not None else "_"))
    return "self.publish(aClientid, %s, ...)" % ", ".join(args)

def delay(c, b):
    "the will delay of a connection, never longer than its session"
    f = connecting(b, sets=["willDelayInterval", "sessionExpiryInterval"], about=["WillDelayInterval", "SessionExpiryInterval"])
    wd, se = "packet.WillProperties.WillDelayInterval", "packet.properties.SessionExpiryInterval"
    hw, hs = "hasattr(packet.WillProperties, 'WillDelayInterval')", "hasattr(packet.properties, 'SessionExpiryInterval')"
    for name, g, resumed, clear in cases(b):
        for w, gs, expect in (("shorter", [hw, hs, "%s < %s" % (wd, se)], wd), ("longer", [hw, hs, "%s > %s" % (wd, se)], se), ("no-session", [hw, "not " + hs, wd + " > 0"], "0"), ("none", ["not " + hw, hs, se + " >= 0"], "0"), ("nothing", ["not " + hw, "not " + hs], "0")):
            def test(p):
                if me(p) is None: return
                v = p.heap.get((me(p), "willDelayInterval"))
                if v is None: return "the will delay is not set"
                e = f.T(expect)
                if v[0] == "call" and v[1] == "min":
                    xs = {norm(x) for x in v[2]}
                    ok = xs == {norm(f.T(wd)), norm(f.T(se))} if expect in (wd, se) else xs <= {norm(f.T(wd)), norm(f.T(se)), const(0)} and const(0) in xs
                else: ok = norm(v) == norm(e)
                if not ok: return "the will delay is %s, expected %s" % (show(v), expect)
            c.each(b.v + ".delay." + w + "." + name, f, accepted(b) + g + gs, test)
    # the delay is not one of the properties of the message
    f = connecting(b, sets=["WillDelayInterval", "willDelayInterval"], about=["WillDelayInterval"])
    c.must(b.v + ".delay.not-published", f, accepted(b) + [hw, "packet.WillFlag"], "DEL(packet.WillProperties.WillDelayInterval)")

def check(c):
    c.rule("kept", "after CONNECT the client's will is exactly the packet's will fields, or none; so is, for MQTT 5, the delay: the smaller of will delay and session expiry")
    c.rule("published", "when the broker ends a connected client's connection with a will to be sent and no delay, the will is published exactly once with its own fields and forgotten; with a delay it is noted with the time it is due; without a will, or after a normal disconnect, nothing is published")
    c.rule("due", "the background thread publishes each noted will exactly when its time has come")
    c.rule("back", "a resumed session's noted will is dropped at CONNECT, and a session that is replaced has it published before it is")
    c.rule("abnormal", "every way of ending a connection other than a normal DISCONNECT asks for the will; a normal DISCONNECT does not")
    for b in both(c):
        v = b.v
        pos = dict(stored(c, b))
        pub = "self.publish(_, ...)"
        right = published(b, pos)
        if b.five:
            delay(c, b)
            bd = b.fn("Brokers.disconnect", ["SubscriptionEngines.clearSubscriptions", "Brokers.publish"], extraise=noexc)
            asked, will = ["willMessage"], [C + ".will is not None"]
            none = [C + ".will is None"]
            now, later = [C + ".willDelayInterval == 0"], [C + ".willDelayInterval > 0"]
            notes = "ADD(self.willMessageClients, aClientid)"
            c.exactly(v + ".published.once", bd, HERE + asked + will + now, pub)
            c.exactly(v + ".published.fields", bd, HERE + asked + will + now, right)
            c.exactly(v + ".delayed.noted", bd, HERE + asked + will + later, notes)
            c.never(v + ".delayed.not-yet", bd, HERE + asked + will + later, pub)
            def due(p):
                ms = p.find("SET(%s.delayedWillTime, v_t)" % C)
                if not ms: return "the time at which the will is due is not noted"
                t = ms[-1].b["v_t"]
                base, terms = to_lin(t)
                own = bd.T(C + ".willDelayInterval")
                clock = [x for x in terms if strip(x)[0] in ("call", "ret") and strip(x)[1].split(".")[-1] == "monotonic"]
                rest = [x for x in terms if norm(x) == norm(own)]
                if base != 0 or len(terms) != 2 or len(clock) != 1 or len(rest) != 1 or set(terms.values()) != {1}: return "the will is due at %s" % show(t)
            c.each(v + ".delayed.due", bd, HERE + asked + will + later, due)
            quiet = [pub, notes]
            c.never(v + ".none", bd, HERE + asked + none, quiet)
            c.never(v + ".normal", bd, ["not willMessage"], quiet)
            c.never(v + ".not-connected", bd, [HERE[0], "not " + HERE[1]] + asked, quiet)
            c.order(v + ".published.before-session-ends", bd, HERE + asked + will + now, pub, "REMOVE(self.__clients, aClientid)")
            sw = b.fn("Brokers.sendWillMessage", ["Brokers.publish"])
            swc = "self.__clients[aClientid]"
            c.exactly(v + ".due.once", sw, [], pub)
            c.exactly(v + ".due.fields", sw, [], right)
            def forgotten(p):
                s = [m for m in p.find("SET(%s.will, v_x)" % C)]
                if not s or s[-1].b["v_x"] != NONE: return "the will is still there after it was published"
                pubs = [m.n for m in p.find(pub)]
                s2 = [m for m in p.find("SET(%s.delayedWillTime, v_x)" % C)]
                if not s2 or s2[-1].b["v_x"] != NONE: return "the will is still due after it was published"
            c.each(v + ".forgotten", sw, [], forgotten)
            c.exactly(v + ".forgotten.noted", sw, ["aClientid in self.willMessageClients"], "REMOVE(self.willMessageClients, aClientid)")
            # the background thread
            background(c, b)
            # CONNECT
            f = connecting(b, sets=["delayedWillTime"], muts=["willMessageClients"], calls=["sendWillMessage"], about=["willMessageClients", "delayedWillTime"])
            noted = ID + " in self.broker.willMessageClients"
            send = "self.broker.sendWillMessage(_)"
            for name, g, resumed, clear in cases(b):
                if resumed:
                    c.never(v + ".back.%s.not-sent" % name, f, accepted(b) + g, send)
                    def dropped(p):
                        if me(p) is None: return
                        if not p.find("REMOVE(self.broker.willMessageClients, %s.id)" % STATE) and not p.find("REMOVE(self.broker.willMessageClients, %s)" % ID): return "the will stays noted although the client is back"
                    c.each(v + ".back.%s.dropped" % name, f, accepted(b) + g + [noted, STATE + ".id in self.broker.willMessageClients"], dropped)
                else:
                    c.exactly(v + ".back.%s.sent" % name, f, accepted(b) + g + [noted], "self.broker.sendWillMessage(%s)" % ID)
                    c.exactly(v + ".back.%s.sent-once" % name, f, accepted(b) + g + [noted], send)
                    c.order(v + ".back.%s.sent-before" % name, f, accepted(b) + g + [noted], send, "self.broker.connect(_, ...)")
                    c.never(v + ".back.%s.none" % name, f, accepted(b) + g + ["not " + noted], send)
        else:
            bt = b.fn("Brokers.terminate", ["Brokers.publish", "SubscriptionEngines.clearSubscriptions"], extraise=noexc)
            will = [C + ".will is not None"]
            c.exactly(v + ".published.once", bt, HERE + will, pub)
            c.exactly(v + ".published.fields", bt, HERE + will, right)
            c.never(v + ".none", bt, HERE + [C + ".will is None"], pub)
            c.never(v + ".not-connected", bt, [HERE[0], "not " + HERE[1]], pub)
            c.order(v + ".published.before-session-ends", bt, HERE + will, pub, "REMOVE(self.__clients, aClientid)")
            bd = b.fn("Brokers.disconnect", ["SubscriptionEngines.clearSubscriptions"])
            c.never(v + ".normal", bd, [], "self.publish(_, ...)")
            c.never(v + ".normal.connected", bd, HERE[:1], "SET(_.connected, True)")
        abnormal(c, b)

def background(c, b):
    v = b.v
    run = cleanup(c, b)
    send = run.pat("_.sendWillMessage(_)")
    seen = [0]
    def test(p):
        for o in p.flat():
            if o.ev.kind != "loop": continue
            t = strip(o.ev.loop.it)
            while t[0] in ("call", "keys") and t[0] != "attr": t = t[2][0] if t[0] == "call" and t[2] else t[1] if t[0] == "keys" else ("?",)
            if not (t[0] == "attr" and t[2] == "willMessageClients"): continue
            seen[0] += 1
            el = ("elem", strip(o.ev.loop.it))
            for ed in edges_of(o.ev.loop):
                if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the search for wills that are due may end before all were looked at"
                sent = [e for e in ed.events if send.match(e) is not None]
                if len(sent) > 1: return "a will is sent %d times" % len(sent)
                if sent and strip(sent[0].args[-1])[0] not in ("elem",): return "another will is sent: %s" % sent[0]
                # the due time, as a linear condition between the clock and delayedWillTime
                lin = [(k, d) for k, d in ed.conds.items() if "delayedWillTime" in names_in(k[1]) and "monotonic" in repr(k[1])]
                if not lin:
                    if sent: return "a will is sent without looking at the time it is due"
                    continue
                k, d = lin[0]
                base, terms = to_lin(k[1])
                sign = [cf for x, cf in terms.items() if "monotonic" in repr(x)]
                if base != 0 or len(terms) != 2 or len(sign) != 1: return None
                # lin = sign*clock - sign*due: at or after the due time means sign*lin >= 0
                lo, hi = bounds(d)
                after = lo >= 0 if sign[0] > 0 else hi <= 0
                before = hi <= 0 if sign[0] > 0 else lo >= 0
                if sent and not after: return "a will is sent before it is due"
                if not sent and not before: return "a will that is due is not sent"
    c.each(v + ".due.when", run, [], test, skip_raised=False)
    c.ob(v + ".due.looked-for", seen[0] > 0, run.where, "" if seen[0] else "the wills that are noted are not looked at")

def cleanup(c, b):
    "one round of the background thread (its endless loop has no end to summarise)"
    import ast, copy
    from ..project import Func
    f = b.func("cleanupThreads.run")
    rounds = [x for x in ast.walk(f.node) if isinstance(x, ast.While)]
    if not rounds and f.cls:      # the loop may have been moved to a method of its own
        for x in ast.walk(f.node):
            g = f.cls.find(x.attr) if isinstance(x, ast.Attribute) else None
            if g is not None and not rounds:
                rounds = [y for y in ast.walk(g.node) if isinstance(y, ast.While)]
                if rounds: f = g
    if rounds:
        fd = ast.parse("def round(self):\n  for step__once in (None,):\n    pass").body[0]
        fd.body[0].body = copy.deepcopy(rounds[0].body)
        ast.copy_location(fd, rounds[0]); ast.fix_missing_locations(fd)
        f = Func(f.module, fd, f.cls, None)
    I = c.interp(scope=b.scope, opaque=b.formatfns | {"Brokers.sendWillMessage", "respond"}, attr_types={("cleanupThreads", "broker"): "Brokers"}, elem_types={"__clients": "MQTTClients", "clients": "MQTTClients"}, every_loop=True, extraise=noexc)
    return Fn(I, f, ["self"])

def bounds(d):
    try: return d.lo, d.hi
    except AttributeError: pass
    r = repr(d)
    return (-INF, INF)

def abnormal(c, b):
    "who asks for the will"
    v = b.v
    par = "sendWillMessage" if b.five else "terminate"
    node = b.func("MQTTBrokers.disconnect").node
    import ast
    args = [a.arg for a in node.args.args]
    if par in args:
        i = args.index(par) - len(args) + len(node.args.defaults)
        d = node.args.defaults[i] if i >= 0 else None
        c.ob(v + ".abnormal.default", isinstance(d, ast.Constant) and d.value is False, v + " MQTTBrokers.disconnect", "a DISCONNECT asks for the will by default")
    wanted = lambda e: [x for n, x in e.kw if n == par] or list(e.args[2:3])
    def asks(which=None, but=None):
        def test(p):
            for o in p.flat():
                e = o.ev
                if e.kind != "call" or e.name != "MQTTBrokers.disconnect": continue
                w = wanted(e)
                if not w or w[0] not in (TRUE, const(1)): return "the connection is ended without asking for the will (%s, %s)" % (e, "%s line %s" % (e.where[1], e.where[2]) if e.where else "")
        return test
    conn = "sock in self.clients"
    hr = b.fn("MQTTBrokers.handleRequest", ["MQTTBrokers.disconnect", "MQTTBrokers.handlePacket", "Brokers.publish"], extraise=faults)
    c.each(v + ".abnormal.request", hr, [conn], asks(), skip_raised=False)
    ka = b.fn("MQTTBrokers.keepalive", ["MQTTBrokers.disconnect"])
    c.each(v + ".abnormal.keepalive", ka, [conn], asks(), skip_raised=False)
    pb = b.fn("MQTTBrokers.publish", ["Brokers.publish", "MQTTBrokers.disconnect"])
    g = ["not packet.topicName.startswith('cmd/')"] if b.five else []
    c.each(v + ".abnormal.publish", pb, g, asks(), skip_raised=False)
    cn = b.view("MQTTBrokers.connect", calls=["disconnect"], about={"clients"}, opaque={"Brokers.connect", "MQTTBrokers.disconnect", "MQTTClients.resend", "Brokers.sendWillMessage"})
    c.each(v + ".abnormal.second-connect", cn, [conn], asks(), skip_raised=False)
    c.each(v + ".abnormal.taken-over", connecting(b, calls=["disconnect"], about=["clients"]), accepted(b), asks(), skip_raised=False)
    if b.five:
        md = b.fn("MQTTBrokers.disconnect", ["Brokers.disconnect", "MQTTBrokers.closeSocket"])
        there = [conn, "self.clients[sock] is not None"]
        def told(value):
            def test(p):
                for e in p.events:
                    if e.kind == "call" and e.name == "Brokers.disconnect":
                        w = [x for n, x in e.kw if n == "willMessage"] or list(e.args[1:2])
                        if not w: return "the broker is not told whether the will is to be sent"
                        if md.assume(p.conds, ["not v" if value else "v"], extra={"v": w[0]}): return "the will is %s" % ("not asked for" if value else "asked for")
            return test
        nodisc = ["packet", "packet.fh.PacketType == 14"]
        c.each(v + ".abnormal.reason", md, there + nodisc + ["packet.reasonCode.value != 0"], told(True))
        c.each(v + ".normal.reason", md, there + nodisc + ["packet.reasonCode.value == 0", "not sendWillMessage"], told(False))
        c.each(v + ".abnormal.passed-on", md, there + ["not packet", "sendWillMessage"], told(True))
        c.each(v + ".normal.passed-on", md, there + ["not packet", "not sendWillMessage"], told(False))
        # a DISCONNECT may shorten the session, and with it the delay
        cl = "self.clients[sock]"
        wd, se = cl + ".willDelayInterval", "packet.properties.SessionExpiryInterval"
        hs = ["packet", "hasattr(packet.properties, 'SessionExpiryInterval')", cl + ".sessionExpiryInterval > 0"]
        for w, g, expect in (("longer", ["%s > %s" % (wd, se)], se), ("shorter", ["%s < %s" % (wd, se)], wd)):
            def test(p):
                at = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "Brokers.disconnect"]
                if not at: return
                v_, n = norm(md.T(wd)), 0
                for m in p.find("SET(%s.willDelayInterval, v_t)" % cl): v_ = strip(m.b["v_t"])
                e = norm(md.T(expect))
                if v_[0] == "call" and v_[1] == "min":
                    if {norm(x) for x in v_[2]} == {norm(md.T(wd)), norm(md.T(se))}: return
                if norm(v_) != e: return "the will delay is %s after the session expiry was changed, expected %s" % (show(v_), expect)
            c.each(v + ".delay.disconnect." + w, md, there + hs + g, test)
    else:
        md = b.fn("MQTTBrokers.disconnect", ["Brokers.disconnect", "Brokers.terminate"])
        c.exactly(v + ".abnormal.passed-on", md, [conn, "terminate"], "self.broker.terminate(self.clients[sock].id)")
        c.never(v + ".normal.passed-on", md, [conn, "not terminate"], "self.broker.terminate(_)")
        c.exactly(v + ".normal.disconnected", md, [conn, "not terminate"], "self.broker.disconnect(self.clients[sock].id)")

def noexc(name): return []
def faults(name):
    n = str(name).split(".")[-1]
    if n in ("disconnect", "acquire", "release", "closeSocket") or n.startswith("print"): return []
    return ["MalformedPacket", "ProtocolError", "Exception"]
