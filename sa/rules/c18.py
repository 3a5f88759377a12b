"""Sessions: what CONNECT does with the stored session, and what the end of a connection leaves of it."""
from ..brokers import both
from ..query import *
from ..query import event_op
from ..loops import *
from ..terms import *
from ..dom import *
from .c10 import SEND

KEPT = ("outbound", "outmsgs", "inbound", "queued")
REG = "self.broker.__clients"
ID = "packet.ClientIdentifier"
STATE = REG + "[" + ID + "]"

def accepted(b):
    return ["packet.ProtocolName == 'MQTT'", "packet.ProtocolVersion == %d" % (5 if b.five else 4), "sock not in self.clients", "len(%s) > 0" % ID]
def named(b): return "packet.CleanStart" if b.five else "packet.CleanSession"
def expired(b): return ["%s.sessionExpiryInterval >= 0" % STATE, "time.monotonic() - %s.sessionEndedTime > %s.sessionExpiryInterval" % (STATE, STATE)]

def cases(b):
    "(name, guards, resumes the stored session, must clear what may be left of one)"
    new = named(b)
    yield "clean", [new], False, True
    yield "none", ["not " + new, ID + " not in " + REG], False, False
    there = ["not " + new, ID + " in " + REG, STATE]
    if b.five:
        e = expired(b)
        yield "expired", there + e, False, True
        yield "stored", there + e[:1] + ["not (%s)" % e[1]], True, False
    else: yield "stored", there, True, False

def me(p):
    "the client handed to Brokers.connect"
    cs = [e for e in p.events if e.kind == "call" and e.name == "Brokers.connect"]
    return cs[-1].args[0] if cs else None

def connecting(b, sets=(), about=(), calls=(), **kw):
    return b.connect(sets=sets, calls=["connect", "respond"] + list(calls), about={"CleanStart", "CleanSession", "__clients", "ClientIdentifier", "sessionExpiryInterval", "sessionEndedTime"} | set(about), inline_init=["MQTTClients"], **kw)

def fresh_client(c, b):
    f = b.fn("MQTTClients.__init__", keep_respond=True)
    def empty(p):
        for a in KEPT:
            if a == "queued" and not b.five: continue
            v = p.heap.get((("param", "self"), a))
            if v is None: return "%s is not set" % a
            ok = v[0] == "obj" and not any(event_op(e)[0] and event_op(e)[1] is not None and strip(event_op(e)[1]) == v for e in p.events)
            ok = ok or v[0] == "seq" and not v[2] or v[0] == "const" and not v[1] or v[0] == "dictlit" and len(v[1]) == 0
            if v[0] == "alt": ok = all(x[0] == "obj" for x in v[1])
            if not ok: return "a new session starts with something in %s: %s" % (a, show(v))
    c.each(b.v + ".new-session.empty", f, [], empty)

def takeover(c, b, oid):
    f = b.connect(calls=["connect", "disconnect"], about=["clients", "ClientIdentifier"], inline_init=["MQTTClients"], every_loop=True)
    cl = f.T("self.clients"); ident = f.T(ID)
    el = "EACH(self.clients)"
    def stops(p):
        "the loops over the connections that end one"
        loops = [o for o in p.flat() if o.ev.kind == "loop" and not o.stack and strip(o.ev.loop.it) in (cl, ("keys", cl), ("values", cl), ("items", cl))]
        st = [o for o in loops if any(e.kind == "call" and e.name == "MQTTBrokers.disconnect" for ed in edges_of(o.ev.loop) for e in ed.events)]
        if any(searches(o.ev.loop) for o in loops): st += [o for o in p.flat() if not o.stack and one_ended(o.ev)]
        return loops, st
    def of_all(t): return strip(t) in (("elem", cl), ("elem", ("keys", cl)))
    def one_ended(e): return e.kind == "call" and e.name == "MQTTBrokers.disconnect" and bool(e.args) and of_all(e.args[0])
    def searches(lp):
        "a loop that ends with the first connection of the same client"
        ends = [ed for ed in edges_of(lp) if ed.ctrl is not None and ed.ctrl[0] in ("return", "break")]
        return bool(ends) and not any(f.assume(ed.conds, ["self.clients[%s].id != %s" % (el, ID)]) for ed in ends)
    for name, g, resumed, clear in cases(b):
        found = [q for q in f.given(*(accepted(b) + g)) if not q.raised and me(q) is not None and stops(q)[1]]
        c.ob(oid + "." + name + ".old-ended", bool(found), f.where, "" if found else "an existing connection with the same identifier is not ended")
        def looked(k):
            t = k[1]
            if k[0] == "v" and of_all(t): return True  # what a search came to
            if t[0] == "in": return norm(t[1]) == norm(ident) and strip(t[2]) != f.T(REG) and "willMessageClients" not in names_in(t[2])
            return t[0] == "call" and t[1] == "exists" and mentions(t, cl) and ".id == " + ID in repr(t)
        def others(q): return {k: d for k, d in q.conds.items() if not looked(k)}
        having = [others(q) for q in found]
        def test(p):
            if me(p) is None: return
            loops, st = stops(p)
            at = p.events.index([e for e in p.events if e.kind == "call" and e.name == "Brokers.connect"][-1])
            if any(p.events.index(o.ev) > at for o in st): return "the old connection is ended only after the new one has been made the client's"
            if st or others(p) in having or any(looked(k) for k in p.conds): return # there is none
            return "a connection with the client's identifier is not looked for under every condition"
        c.each(oid + "." + name + ".looked-for", f, accepted(b) + g, test)
    def will(p):
        for o in p.flat():
            e = o.ev
            if one_ended(e) and not o.stack:
                if not stops(p)[1]: return "a connection other than that of the client is ended (%s)" % e
            elif e.kind == "call" and e.name == "MQTTBrokers.disconnect" and o.stack:
                if strip(e.args[0]) not in (("elem", cl), ("elem", ("keys", cl))): return "another connection is ended (%s)" % e
                same = f.assume(o.conds, ["self.clients[%s].id != %s" % (el, ID)])
                if same: return "a connection of another client is ended (%s)" % e
    c.each(oid + ".same-client", f, accepted(b), will)

from ..interp import names_in

def check(c):
    c.rule("present", "CONNECT resumes exactly the stored, unexpired session when clean start (clean session) is not asked for, otherwise starts with a fresh one; session present in the CONNACK is set exactly when it resumes")
    c.rule("discard", "Brokers.connect registers the client and removes left-over subscriptions exactly when a new session was asked for; a fresh client object starts with nothing stored")
    c.rule("takeover", "an existing connection of the same client is ended before the new one is registered, and no other")
    c.rule("end", "the end of a connection removes the session exactly when its expiry interval is 0 (clean session), and otherwise leaves subscriptions and messages alone")
    c.rule("expiry", "the interval used is the one of the DISCONNECT, else the one of the CONNECT, else 0")
    for b in both(c):
        v = b.v
        f = connecting(b)
        flag = "sessionPresent" if b.five else "flags"
        for name, g, resumed, clear in cases(b):
            g = accepted(b) + g
            who = STATE if resumed else "New('MQTTClients')"
            if b.five:
                if resumed: pat = "self.broker.connect(%s, False)" % who
                elif clear: pat = "self.broker.connect(%s, True)" % who
                else: pat = "self.broker.connect(%s, _)" % who
            else: pat = "self.broker.connect(%s)" % who
            c.exactly(v + ".present." + name + ".session", f, g, pat)
            c.exactly(v + ".present." + name + ".once", f, g, "_.connect(_, ...)")
            def told(p, resumed=resumed):
                ms = [m for m in p.find(SEND)]
                if len(ms) != 1: return "%d packets are sent" % len(ms)
                e = ms[0].ev
                val = attr_in(strip(e.args[1]), flag, e.snap)
                if val is None or not is_const(val) and val[0] != "alt": val = dict(strip(e.args[1])[3]).get(flag, val) if strip(e.args[1])[0] == "new" else val
                if val is None or val[0] == "attr": return None if not resumed and default_false(c, b, flag) else "session present is not set"
                vs = val[1] if val[0] == "alt" else (val,)
                for x in vs:
                    if not is_const(x):
                        if f.assume(p.conds, ["not v" if resumed else "v"], extra={"v": x}): return "session present is %s" % show(x)
                    elif bool(x[1]) != resumed: return "session present is %s although the session is %s" % (x[1], "resumed" if resumed else "new")
            c.each(v + ".present." + name + ".reported", f, g, told)
        # what the resumed session is told of the new connection
        g = accepted(b) + [x for n, g_, r, _ in cases(b) if n == "stored" for x in g_]
        h = connecting(b, sets=["socket", "sessionExpiryInterval", "cleansession", "cleanStart"], about=["SessionExpiryInterval"])
        def newsock(p):
            if me(p) is None: return
            for a, want in (("socket", ("param", "sock")),) + ((("cleansession", h.T("packet.CleanSession")),) if not b.five else ()):
                val = p.heap.get((me(p), a))
                if val is None or norm(val) != norm(want): return "%s of the resumed session is %s" % (a, show(val) if val else "left alone")
        c.each(v + ".resumed.connection", h, g, newsock)
        reg = [e for e in ("PUT(self.clients, sock, _)",)]
        r = connecting(b, about=["clients"], **{"muts": ["clients"]})
        for name, g_, resumed, clear in cases(b):
            c.exactly(v + ".registered." + name, r, accepted(b) + g_, "PUT(self.clients, sock, %s)" % (STATE if resumed else "New('MQTTClients')"))
        if b.five:
            def interval_is(expect):
                def test(p):
                    if me(p) is None: return
                    val = p.heap.get((me(p), "sessionExpiryInterval"))
                    if val is None: return "the session expiry interval is not set"
                    if norm(val) != norm(h.T(expect)): return "the session expiry interval is %s, expected %s" % (show(val), expect)
                return test
            for name, g_, resumed, clear in cases(b):
                c.each(v + ".expiry.connect.given." + name, h, accepted(b) + g_ + ["hasattr(packet.properties, 'SessionExpiryInterval')"], interval_is("packet.properties.SessionExpiryInterval"))
                c.each(v + ".expiry.connect.default." + name, h, accepted(b) + g_ + ["not hasattr(packet.properties, 'SessionExpiryInterval')"], interval_is("0"))
        else:
            def fl(p):
                if me(p) is None or me(p)[0] != "new": return
                val = p.heap.get((me(p), "cleansession"))
                if val is None or norm(val) != norm(h.T("packet.CleanSession")): return "the session does not know whether it is a clean one"
            c.each(v + ".expiry.connect", h, accepted(b), fl)
        takeover(c, b, v + ".takeover")
        fresh_client(c, b)
        # registration
        bc = b.fn("Brokers.connect", ["SubscriptionEngines.clearSubscriptions"])
        c.exactly(v + ".discard.registered", bc, [], "PUT(self.__clients, aClient.id, aClient)")
        c.exactly(v + ".discard.connected", bc, [], "SET(aClient.connected, True)")
        asked = "clean" if b.five else "aClient.cleansession"
        clr = "_.clearSubscriptions(aClient.id)"
        c.exactly(v + ".discard.cleared", bc, [asked], clr)
        c.never(v + ".discard.kept", bc, ["not " + asked], ["_.clearSubscriptions(_)"])
        c.untouched(v + ".discard.messages", bc, *KEPT)
        # the end of a connection
        bd = b.fn("Brokers.disconnect", ["SubscriptionEngines.clearSubscriptions", "Brokers.setupWillMessage"])
        here = "aClientid in self.__clients"
        over = "sessionExpiryInterval == 0" if b.five else "self.__clients[aClientid].cleansession"
        c.exactly(v + ".end.discarded", bd, [here, over], "REMOVE(self.__clients, aClientid)")
        c.exactly(v + ".end.discarded.subscriptions", bd, [here, over], "_.clearSubscriptions(aClientid)")
        c.never(v + ".end.kept", bd, [here, "not (%s)" % over], ["MUT(self.__clients)", "_.clearSubscriptions(_)"])
        c.must(v + ".end.kept.away", bd, [here, "not (%s)" % over], "SET(self.__clients[aClientid].connected, False)")
        c.never(v + ".end.not-connected", bd, [here], "SET(_.connected, True)")
        c.untouched(v + ".end.messages", bd, *KEPT)
        c.exactly(v + ".end.others", bd, [here, over], "MUT(self.__clients)")
        if b.five:
            def when(p):
                s = [m for m in p.find("SET(self.__clients[aClientid].sessionEndedTime, v_t)")]
                if len(s) != 1: return "the time at which the session was left is not noted"
                t = strip(s[0].b["v_t"])
                if not (t[0] in ("call", "ret") and t[1].split(".")[-1] == "monotonic"): return "the time noted is %s" % show(t)
            c.each(v + ".end.time", bd, [here, "not (%s)" % over], when)
            md = b.fn("MQTTBrokers.disconnect", ["Brokers.disconnect", "MQTTBrokers.closeSocket"])
            conn = "sock in self.clients and self.clients[sock] is not None"
            prop = "packet.properties.SessionExpiryInterval"
            has = "hasattr(packet.properties, 'SessionExpiryInterval')"
            cur = "self.clients[sock].sessionExpiryInterval"
            def handed(expect):
                def test(p):
                    ms = [e for e in p.events if e.kind == "call" and e.name == "Brokers.disconnect"]
                    if len(ms) != 1: return "the session is ended %d times" % len(ms)
                    a = dict(ms[0].kw).get("sessionExpiryInterval") or (ms[0].args[-1] if ms[0].args else None)
                    if a is None or norm(a) != norm(md.T(expect)) and not unify(md.T(expect), a, {}, None): return "the session is ended with the interval %s, expected %s" % (show(a) if a else "none", expect)
                return test
            c.each(v + ".expiry.disconnect.given", md, [conn, "packet", has, cur + " != 0", "reasonCode is None"], handed(prop))
            c.each(v + ".expiry.disconnect.not-given", md, [conn, "packet", "not " + has, "reasonCode is None"], handed(cur))
            c.each(v + ".expiry.disconnect.no-packet", md, [conn, "not packet"], handed(cur))
            c.never(v + ".expiry.disconnect.not-from-0", md, [conn, "packet", has, cur + " == 0", prop + " > 0"], ["SET(_.sessionExpiryInterval)", "self.broker.disconnect(_, ...)"])
            def refuse(p):
                return None if p.raised else "an interval given after one of 0 is not refused"
            c.each(v + ".expiry.disconnect.refused", md, [conn, "packet", has, cur + " == 0", prop + " > 0"], refuse, skip_raised=False)
        else:
            md = b.fn("MQTTBrokers.disconnect", ["Brokers.disconnect", "Brokers.terminate"])
            conn = "sock in self.clients"
            c.exactly(v + ".end.told", md, [conn], ["self.broker.disconnect(self.clients[sock].id)", "self.broker.terminate(self.clients[sock].id)"])
            bt = b.fn("Brokers.terminate", ["Brokers.disconnect", "Brokers.publish"])
            c.exactly(v + ".end.terminated", bt, [here, "self.__clients[aClientid].connected"], "self.disconnect(aClientid)")
        if b.five:
            c.exactly(v + ".end.told", md, [conn, "not packet"], "self.broker.disconnect(self.clients[sock].id, ...)")
        sets = set()
        for fn in (f, h, bc, bd, md): sets |= fn.I.functions
        sets |= {b.func("MQTTClients.__init__").qual, b.func("Brokers.__init__").qual, b.func("Brokers.reinitialize").qual}

def default_false(c, b, flag):
    import ast
    cls = c.P.cls(b.fmt, "Connacks")
    for x in ast.walk(cls.methods["__init__"].node):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == flag for t in x.targets): return isinstance(x.value, ast.Constant) and not x.value.value
    return False
