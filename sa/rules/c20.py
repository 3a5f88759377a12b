"""Connection life cycle: CONNECT first and once, refusals, and no half-closed client."""
import ast
from ..brokers import both
from ..query import *
from ..terms import *
from ..loops import *
from ..fold import Raised, Lost, Model, Obj, Sym
from .c08 import handler, lost, say
from .c18 import accepted, connecting, me, ID
from .c19 import faults, noexc

TYPES = ["connect", "connack", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "suback", "unsubscribe", "unsuback", "pingreq", "pingresp", "disconnect", "auth"]
SERVED = {"connect", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "unsubscribe", "pingreq", "disconnect"}

def check(c):
    c.rule("first", "before a CONNECT was accepted no packet of another type reaches its handler, and the connection is ended")
    c.rule("dispatch", "each packet type a client may send reaches the handler of that type, once; each other one is an error")
    c.rule("second", "a CONNECT on a connected socket ends the connection and changes nothing else")
    c.rule("refused", "a CONNECT that is refused is answered with the refusal it calls for, the socket is closed and no session is made")
    c.rule("accepted", "an accepted CONNECT registers its client on its socket, once, and is answered with success before anything else is sent")
    c.rule("error", "whatever goes wrong while a packet is read, decoded or handled, the socket's client is disconnected and the connection ends")
    c.rule("disconnect", "ending a connection takes the client off its socket and closes it, whatever fails on the way")
    c.rule("bye", "a DISCONNECT ends the connection")
    c.rule("listener", "the connection's thread closes the socket when it ends, for whatever reason it does")
    for b in both(c):
        c.part(b.v + ".dispatch", dispatch, c, b)
        connect(c, b)
        requests(c, b)
        disconnect(c, b)
    raises(c)
    handler(c, ("ends", "errors"))

def dispatch(c, b):
    cls = c.P.cls(b.func("MQTTBrokers.handlePacket").module.name, "MQTTBrokers")
    fn = b.func("MQTTBrokers.handlePacket"); where = "%s:%d: MQTTBrokers.handlePacket" % (fn.module.rel, fn.node.lineno)
    F = c.fold(most=400, steps=400000)
    field = "PacketType" if b.five else "MessageType"
    def go(f, t, connected):
        seen = []
        sock, client = Model("socket", fileno=lambda f, a, k: 7), Model("client", lastPacket=0)
        def stub(name):
            def h(f, a, k):
                seen.append((name, tuple(a[1:])))
                if name == "connect" and not connected: o.attrs["clients"][sock] = client
                if name == "disconnect": o.attrs["clients"].pop(sock, None)
            return h
        for n in SERVED: f.stubs["MQTTBrokers." + n] = stub(n)
        o = Obj(cls); o.attrs.update(clients={sock: client} if connected else {}, mscfile=None, options={"visual": False})
        p = Model("packet", fh=Model("fh", **{field: t})); p.attrs["__str__"] = lambda f, a, k: "packet"
        try: r = f.call(f.getattr(o, "handlePacket"), p, sock)
        except Raised as e: r = e
        return r, [(n, len(a) >= 2 and a[0] is sock and a[1] is p) for n, a in seen], client
    first, disp, bye = [], [], []
    for t, name in enumerate(TYPES, 1):
        if not b.five and name == "auth": continue
        for connected in (False, True):
            rs = F.run(lambda f: go(f, t, connected)); lost(rs); c.count("packet types folded")
            for r, _, _ in rs:
                if not isinstance(r, tuple): disp.append("%s: %s" % (name, say(r))); continue
                r, seen, client = r
                acted = [s for s in seen if s[0] != "disconnect" or name == "disconnect"]
                if not connected and name != "connect":
                    if [s for s in seen if s[0] != "disconnect"]: first.append("a first %s is acted on by %s" % (name.upper(), seen[0][0]))
                    elif not isinstance(r, Raised) and not r: first.append("the connection goes on after a first %s" % name.upper())
                elif name in SERVED:
                    if isinstance(r, Raised): disp.append("%s: %s" % (name.upper(), say(r)))
                    elif acted != [(name, True)]: disp.append("%s is handled by %s" % (name.upper(), [s[0] for s in acted] or "nothing"))
                    if name == "disconnect" and not isinstance(r, Raised) and not r: bye.append("the connection goes on after a DISCONNECT")
                    if name != "disconnect" and not isinstance(r, Raised) and r: disp.append("the connection ends after %s" % name.upper())
                elif not isinstance(r, Raised) and not r and not [s for s in seen if s[0] == "disconnect"]: disp.append("%s, which only a server sends, is not an error" % name.upper())
    c.ob(b.v + ".first", not first, where, "; ".join(first[:3]))
    c.ob(b.v + ".dispatch", not disp, where, "; ".join(disp[:3]))
    c.ob(b.v + ".bye.ends", not bye, where, "; ".join(bye[:3]))

def names_of(b, code): return {const(code)} | ({const({0x84: "Unsupported protocol version", 0: "Success"}[code])} if b.five and code in (0x84, 0) else set())

def answer(p, r, b):
    v = p.heap.get((r, "returnCode")) or p.heap.get((r, "%reason"))
    if v is None and b.five: v = p.heap.get((r, "reasonCode"))
    return v

def connect(c, b):
    v = b.v
    f = b.connect(sets=["returnCode", "reasonCode", "value"], muts=["clients"], calls=["connect", "respond", "disconnect", "set", "resend"], about={"clients", "ClientIdentifier"}, extraise=noexc)
    out = "respond(sock, _, ...)"
    session = ["self.broker.connect(_, ...)", "self.clients[_] = _", "PUT(self.clients, sock, _)"]
    made = ["self.broker.connect(_, ...)"]
    def nothing(p):
        for e in p.events:
            if e.kind == "call" and e.name.split(".")[-1] == "connect": return "a session is made"
            if e.kind in ("setitem",) and "clients" in names_in_(e): return "a client is registered on the socket"
    conn = ["sock in self.clients"]
    end = "self.disconnect(sock, ...)"
    c.exactly(v + ".second.ended", f, conn, end, skip_raised=False)
    c.each(v + ".second.nothing", f, conn, nothing, skip_raised=False)
    def fatal(p):
        if p.raised is None and p.ret in (None, NONE): return None
    name, ver = "packet.ProtocolName == 'MQTT'", "packet.ProtocolVersion == %d" % (5 if b.five else 4)
    cases = [("name", ["not (%s)" % name], None), ("version", [name, "not (%s)" % ver], 0x84 if b.five else 1)]
    if not b.five:
        cases += [("identifier", [name, ver, "len(%s) == 0" % ID, "not packet.CleanSession"], 2), ("identifier.off", [name, ver, "len(%s) == 0" % ID, "not self.zero_length_clientids"], 2)]
    for what, g, code in cases:
        g = ["sock not in self.clients"] + g
        c.each(v + ".refused.%s.nothing" % what, f, g, nothing, skip_raised=False)
        c.exactly(v + ".refused.%s.closed" % what, f, g, end, skip_raised=False)
        def right(p):
            rs = p.find("respond(sock, v_r, ...)")
            if code is None:
                return "it is answered with %s" % rs[0].ev if rs else None
            if len(rs) != 1: return "it is answered %d times" % len(rs)
            got = answer(p, strip(rs[0].b["v_r"]), b)
            if got is None or strip(got) not in names_of(b, code): return "the refusal is %s, expected %d" % (show(got) if got else "unknown", code)
        c.each(v + ".refused.%s.answer" % what, f, g, right, skip_raised=False)
        if code is not None: c.order(v + ".refused.%s.answer-first" % what, f, g, out, end)
    # accepted
    def registered(p):
        if p.raised: return
        s = [e for e in p.events if e.kind == "setitem" and "clients" in names_in_(e)]
        if len(s) != 1: return "the client is registered %d times" % len(s)
        rs = p.find("respond(sock, v_r, ...)")
        if len(rs) != 1: return "it is answered %d times" % len(rs)
        got = answer(p, strip(rs[0].b["v_r"]), b)
        if got is not None and strip(got) not in names_of(b, 0): return "the answer is %s" % show(got)
        if len(p.find("self.broker.connect(_, ...)")) != 1: return "the session is not made once"
        if any(e.kind == "call" and e.name.split(".")[-1] == "disconnect" and strip(e.args[0 if e.base is not None else 1] if e.args else NONE) == ("param", "sock") for e in p.events): return "the connection is ended"
    c.each(v + ".accepted", f, accepted(b), registered)
    c.order(v + ".accepted.answered-first", f, accepted(b), out, "_.resend(...)")
    c.exactly(v + ".accepted.socket", f, accepted(b), "PUT(self.clients, sock, _)")

def names_in_(e):
    out = set()
    def go(t):
        if isinstance(t, tuple):
            if t and t[0] == "attr": out.add(t[2])
            for x in t: go(x)
    go(e.base); return out

def requests(c, b):
    "handleRequest: every fault ends the connection"
    v = b.v
    made = lambda n: [] if "Properties" in str(n) else faults(n) # making an empty one does not fail
    hr = b.fn("MQTTBrokers.handleRequest", ["MQTTBrokers.disconnect", "MQTTBrokers.handlePacket", "Brokers.publish"], extraise=made)
    conn = "sock in self.clients"
    def ends(p):
        if p.raised is not None: return "%s leaves the handler, with the client still connected" % (show(p.raised) if isinstance(p.raised, tuple) else p.raised)
        handled = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "handlePacket"]
        gone = [e for e in p.events if e.kind == "call" and e.name == "MQTTBrokers.disconnect"]
        ok = [e for e in handled if p.ret is not None and strip(p.ret) == strip(e.ret)] if handled else []
        if ok and not gone: return None      # the packet was handled: the answer is the handler's
        if not gone: return "the client stays connected after an error"
        if p.ret not in (TRUE, const(1)): return "the connection is served on after the client was disconnected"
        for e in gone:
            if strip(e.args[0]) != ("param", "sock"): return "another socket is disconnected: %s" % e
    c.each(v + ".error.connected", hr, [conn], ends, skip_raised=False)
    def closes(p):
        if p.raised is not None: return None # the connection's thread ends
        handled = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "handlePacket"]
        gone = [e for e in p.events if e.kind == "call" and e.name == "MQTTBrokers.disconnect"]
        if handled and not gone: return None
        if p.ret not in (TRUE, const(1)): return "the connection is served on after an error"
    c.each(v + ".error.not-connected", hr, ["not " + conn], closes, skip_raised=False)
    seen = [0]
    def errors(p):
        if [e for e in p.events if e.kind == "call" and e.name == "MQTTBrokers.disconnect"]: seen[0] += 1
    c.each(v + ".error.possible", hr, [conn], errors, skip_raised=False)
    c.ob(v + ".error.looked-at", seen[0] > 1, hr.where, "" if seen[0] > 1 else "no path on which an error ends the connection")

def disconnect(c, b):
    v = b.v
    inner = ["Brokers.disconnect"] if b.five else ["Brokers.disconnect", "Brokers.terminate"]
    fails = lambda n: ["Exception"] if str(n).split(".")[-1] == "shutdown" or (b.five and str(n) in inner) else []
    md = b.fn("MQTTBrokers.disconnect", inner, extraise=fails)
    there = ["sock in self.clients"] + (["self.clients[sock] is not None"] if b.five else [])
    reset = lambda p: b.five and p.raised is not None and "ProtocolError" in repr(p.raised)
    def gone(p):
        if reset(p): return  # a session expiry set from zero: the error is handled by handleRequest
        n = [e for e in p.events if e.kind == "call" and e.name in inner]
        if p.raised is not None and not n: pass # it failed
        elif len(n) != 1: return "the session is ended %d times" % len(n)
        elif norm(n[0].args[0]) != norm(md.T("self.clients[sock].id")): return "the session of %s is ended" % show(n[0].args[0])
        if len(p.find("REMOVE(self.clients, sock)")) != 1: return "the client stays registered on its socket"
    c.each(v + ".disconnect.client", md, there, gone, skip_raised=False)
    def closed(p):
        if reset(p): return
        if not p.find("sock.close()"): return "the socket is not closed"
    c.each(v + ".disconnect.closed", md, there, closed, skip_raised=False)
    c.each(v + ".disconnect.closed.not-connected", md, ["sock not in self.clients"], lambda p: None if p.find("sock.close()") else "the socket is not closed", skip_raised=False)
    if b.five: # what may be wrong with a DISCONNECT is found before anything is done
        def early(p):
            if not reset(p): return
            if p.find("REMOVE(self.clients, sock)") : return "a refused DISCONNECT takes the client off its socket without ending its session"
        c.each(v + ".disconnect.refused", md, there, early, skip_raised=False)
        def only(p):
            if p.raised is None or not reset(p): return
            return "an error ends it although the session expiry is not set from zero" if not md.assume(p.conds, ["packet", "self.clients[sock].sessionExpiryInterval == 0", "packet.properties.SessionExpiryInterval > 0"]) else None
        c.each(v + ".disconnect.refused.when", md, there, only, skip_raised=False)
    # the session behind it
    for n in inner:
        bd = b.fn(n, ["SubscriptionEngines.clearSubscriptions", "Brokers.publish", "Brokers.sendWillMessage"], extraise=lambda n: ["Exception"] if str(n).endswith(("publish", "sendWillMessage")) else [])
        def off(p):
            if p.raised is not None: return "%s leaves it" % (show(p.raised) if isinstance(p.raised, tuple) else p.raised)
            s = p.find("SET(self.__clients[aClientid].connected, v_x)")
            if p.find("REMOVE(self.__clients, aClientid)"): return
            if not s or s[-1].b["v_x"] not in (FALSE, const(0)): return "the session stays marked as connected"
        c.each(v + ".disconnect.session." + n.split(".")[-1], bd, ["aClientid in self.__clients", "self.__clients[aClientid].connected"], off, skip_raised=False)

def raises(c):
    "the reason a protocol error carries is put in the DISCONNECT, so it has to be one of that packet's"
    fmt = "mqtt.formats.MQTTV5.MQTTV5"
    base = c.P.cls(fmt, "ProtocolError")
    subs = {base.name}
    m = c.P.mod(fmt)
    for n in m.tree.body:
        if isinstance(n, ast.ClassDef) and any(isinstance(x, ast.Name) and x.id in subs for x in n.bases): subs.add(n.name)
    F = c.fold(most=50, steps=2000000)
    D, RC = c.P.cls(fmt, "Disconnects"), None
    ok = {}
    def valid(name):
        if name not in ok:
            def go(f):
                f.apply(D, [], {"reasonCode": name}); return True
            rs = F.run(go); lost(rs); ok[name] = all(r[0] is True for r in rs)
        return ok[name]
    bad, n = [], 0
    for mod in sorted(c.P.modules.values(), key=lambda m: m.name) if hasattr(c.P.modules, "values") else c.P.modules:
        if not (".V5" in mod.name or "MQTTV5" in mod.name): continue
        for x in ast.walk(mod.tree):
            if not isinstance(x, ast.Call): continue
            f = x.func; name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name not in subs: continue
            n += 1
            at = "%s:%d" % (mod.rel, x.lineno)
            if not x.args: bad.append("%s: no reason is given" % at)
            elif isinstance(x.args[0], ast.Constant) and not valid(x.args[0].value): bad.append("%s: no DISCONNECT can say %r" % (at, x.args[0].value))
    c.count("raise sites", n)
    c.ob("V5.error.reasons", not bad, "%s: class ProtocolError" % m.rel, "; ".join(bad[:3]))
