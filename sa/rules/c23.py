"""No packet larger than the receiver's maximum is sent or accepted."""
import ast
from ..brokers import both
from ..query import *
from ..query import event_op
from ..terms import *
from ..loops import *
from ..fold import Raised, Lost, Model, Obj
from ..world import remaining, unknown
from .c08 import say, lost
from .c14 import setting
from .c18 import accepted
from .c22 import alts

SENDS = ("send", "sendall")
PUB = "packet.fh.PacketType == 3"
GIVEN = "maximumPacketSize is not None"
LARGEST = 268435455

def check(c):
    c.rule("sent", "what respond sends to a socket is a packet whose own length it found to be within the limit: the one given to it, else the maximum of the socket's client")
    c.rule("not-dropped", "a PUBLISH that has not expired is dropped by respond only if it is longer than the limit")
    c.rule("limit", "a limit given to respond is that of the client whose socket is given with it; a client's maximum is set at each CONNECT, to the one announced or the largest there is, before the CONNACK")
    c.rule("only-way", "nothing else in the broker sends to a socket")
    c.rule("own", "a packet of more bytes than the broker's maximum, of whatever type, is not handled and ends the connection with 'Packet too large'; one of exactly the maximum is handled")
    c.rule("announced", "the CONNACK announces the broker's maximum when it is not the largest there is")
    b = both(c)[1]
    sent(c, b); limits(c, b)
    c.part("V5.own", own, c, b)

def sent(c, b):
    f = b.view("respond", calls=("pack", "handlePacket") + SENDS, about=["maximumPacketSize", "clients", "MessageExpiryInterval", "monotonic"], opaque=["MQTTBrokers.handlePacket"], keep_respond=True, extraise=lambda n: [])
    lim = [("given", [GIVEN], "maximumPacketSize"), ("client", ["not (%s)" % GIVEN, "sock in mybroker.clients"], "mybroker.clients[sock].maximumPacketSize")]
    n = [0]
    def within(limit):
        def test(p):
            for m in p.find("_.send(...)", "_.sendall(...)"):
                n[0] += 1
                data = m.ev.args[0]
                if not mentions(data, f.T("packet")) and "pack" not in repr(data): return "%s is sent" % show(data)
                if f.assume(m.conds, ["len(t) > %s" % limit], extra={"t": data}): return "a packet longer than the limit can be sent"
        return test
    for name, g, l in lim:
        c.each("V5.sent." + name, f, g, within(l), skip_raised=False)
        def dropped(p):
            if [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] in SENDS + ("handlePacket",)]: return
            packs = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "pack"]
            if not packs: return "it is dropped without being looked at"
            if f.assume(p.conds, ["len(t) <= %s" % l], extra={"t": packs[-1].ret}): return "it is dropped although it is not longer than the limit"
        c.each("V5.not-dropped." + name, f, g + [PUB, "not hasattr(packet.properties, 'MessageExpiryInterval')"], dropped)
        def other(p):
            if [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] in SENDS + ("handlePacket",)]: return
            packs = [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "pack"]
            if not packs or not any(not f.assume(p.conds, ["len(t) <= %s" % l], extra={"t": e.ret}) for e in packs): return "it is dropped although it is not longer than the limit"
        c.each("V5.not-dropped.other." + name, f, g + ["packet.fh.PacketType != 3"], other)
    c.ob("V5.sent.looked-at", n[0] > 0, f.where, "" if n[0] else "nothing is sent")
    c.mentions("V5.only-way", b.mods, SENDS, f.I.functions)

def limits(c, b):
    conn = b.connect(sets=["maximumPacketSize", "MaximumPacketSize"], muts=["clients"], calls=["connect", "respond"], about=["MaximumPacketSize", "maximumPacketSize"], inline_init=["MQTTClients"])
    has = "hasattr(packet.properties, 'MaximumPacketSize')"
    top = "packet.properties.MaximumPacketSize <= %d" % LARGEST
    setting(c, "V5.limit.announced", conn, [has, top], "maximumPacketSize", "packet.properties.MaximumPacketSize")
    setting(c, "V5.limit.default", conn, ["not " + has], "maximumPacketSize", str(LARGEST))
    def refused(p):
        if p.raised is not None and f.assume(p.conds, [has, top]) : return
    def ready(p):
        "when the CONNACK of an accepted CONNECT is sent its client's maximum is in force"
        cs = [e for e in p.events if e.kind == "call" and e.name == "Brokers.connect"]
        if not cs: return
        me, there = cs[-1].args[0], False
        for e in p.events:
            op = event_op(e)
            if op and op[0] == "PUT" and norm(op[1]) == norm(conn.T("self.clients")) and norm(op[2][0]) == norm(conn.T("sock")): there = strip(op[2][1]) == strip(me)
            if e.kind == "call" and e.name == "respond" and norm(e.args[0]) == norm(conn.T("sock")):
                if len(e.args) + len(e.kw) > 2: continue
                if not there: return "the CONNACK is sent before the client is known by its socket"
                if (e.snap or {}).get((me, "maximumPacketSize")) != p.heap.get((me, "maximumPacketSize")): return "the CONNACK is sent before the client's maximum is set"
    c.each("V5.limit.in-force", conn, [], ready)
    def large(p):
        if any(getattr(d, "lo", 0) >= 65536 and "ReceiveMaximum" in show(k[1]) for k, d in p.conds.items()): return None    # no such value exists on the wire
        if p.raised is not None: return "a CONNECT with a Maximum Packet Size of more than %d is refused" % LARGEST
    c.each("V5.limit.any", conn, accepted(b) + [has, "packet.properties.MaximumPacketSize > %d" % LARGEST], large, skip_raised=False)
    # what is given to respond
    M = c.P.mod(b.mods[0])
    fs = [fn for fn in list(M.functions.values()) + [x for cl in M.classes.values() for x in cl.methods.values()] if fn.node.name != "respond" and any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "respond") and len(x.args) + len(x.keywords) > 2 for x in ast.walk(fn.node))]
    for fn in fs:
        f = b.view(fn.short, calls=["respond"], about=[])
        def given(p):
            for o in p.flat():
                e = o.ev
                if e.kind != "call" or e.name != "respond": continue
                a = dict(zip(("sock", "packet", "maximumPacketSize"), e.args)); a.update(dict(e.kw))
                l = a.get("maximumPacketSize")
                if l is None or l == const(None): continue
                s, l = strip(a["sock"]), strip(l)
                if not (s[0] == "attr" and s[2] == "socket" and l[0] == "attr" and l[2] == "maximumPacketSize" and norm(s[1]) == norm(l[1])): return "the limit given for %s is %s" % (show(s), show(l))
        c.each("V5.limit.given." + fn.node.name, f, [], given, skip_raised=False)
    sets = [fn for m in b.mods for fn in [x for cl in c.P.mod(m).classes.values() for x in cl.methods.values()] if any(isinstance(x, ast.Attribute) and x.attr == "maximumPacketSize" and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(fn.node))]
    bad = [fn.short for fn in sets if fn.qual not in conn.I.functions]
    c.ob("V5.limit.elsewhere", not bad, b.mods[0], "the maximum is changed in %s" % ", ".join(bad) if bad else "")
    c.exactly("V5.announced", conn, accepted(b) + ["self.options['maximumPacketSize'] < %d" % LARGEST], "respond(sock, New('Connacks', properties__MaximumPacketSize=self.options['maximumPacketSize']), ...)")

def own(c, b):
    fn = b.func("MQTTBrokers.handleRequest"); where = "%s:%d: MQTTBrokers.handleRequest" % (fn.module.rel, fn.node.lineno)
    cls = c.P.cls(fn.module.name, "MQTTBrokers")
    F = c.fold(most=800, steps=3000000)
    def go(f, data, limit, connected):
        seen, left = [], []
        sock, client = Model("socket", fileno=lambda f, a, k: 7), Model("client", lastPacket=0, id="me")
        def end(f, a, k):
            names = ("self", "sock", "packet", "sendWillMessage", "reasonCode", "properties")
            d = dict(zip(names, a)); d.update(k); seen.append(d.get("reasonCode")); o.attrs["clients"].pop(sock, None)
        def handled(f, a, k): left.append(a[1]); return False
        f.stubs.update({"MQTTBrokers.disconnect": end, "MQTTBrokers.handlePacket": handled, "getPacket": lambda f, a, k: data})
        lock = Model("lock", acquire=lambda f, a, k: True, release=lambda f, a, k: None)
        lock.attrs.update(__enter__=lambda f, a, k: lock, __exit__=lambda f, a, k: None)
        o = Obj(cls); o.attrs.update(clients={sock: client} if connected else {}, mscfile=None, options={"visual": False, "maximumPacketSize": limit}, lock=lock)
        try: r = f.call(f.getattr(o, "handleRequest"), sock)
        except Raised as e: r = e
        return r, seen, len(left)
    flags = {6: 2, 8: 2, 10: 2}
    large, fits = [], []
    for n in (2, 126, 127, 128, 16383, 16384):
        if large: break    # what is wrong may be long to follow
        for t in range(1, 16):
            body = bytes(n)
            data = bytes((t * 16 + flags.get(t, 0),) + remaining(n)) + body
            for connected in ((True, False) if n in (2, 128) else (True,)):
                for limit in (len(data) - 1, len(data) - 2, 20 if len(data) > 21 else len(data) - 1):
                    rs = F.run(lambda f: go(f, data, limit, connected)); lost(rs); c.count("packets folded")
                    for r, _, _ in rs:
                        what = "a packet of type %d and %d bytes with a maximum of %d" % (t, len(data), limit)
                        if not isinstance(r, tuple): large.append("%s: %s" % (what, say(r))); continue
                        r, seen, left = r
                        if left: large.append(what + " is handled")
                        elif isinstance(r, Raised) or not r: large.append("%s: the connection goes on" % what if not isinstance(r, Raised) else "%s: %s" % (what, say(r)))
                        elif seen != ["Packet too large"]: large.append("%s ends the connection with %s" % (what, seen))
    for n in (5, 126, 127, 128, 129, 16383, 16384):
        data = bytes((0x30,) + remaining(n)) + b"\0\1a\0" + b"x" * (n - 4)
        for limit in (len(data), len(data) + 1, LARGEST):
            rs = F.run(lambda f: go(f, data, limit, True)); lost(rs); c.count("packets folded")
            for r, _, _ in rs:
                what = "a PUBLISH of %d bytes with a maximum of %d" % (len(data), limit)
                if not isinstance(r, tuple) or isinstance(r[0], Raised): fits.append("%s: %s" % (what, say(r if not isinstance(r, tuple) else r[0])))
                elif r[1] or r[2] != 1: fits.append("%s is not handled" % what)
    c.ob("V5.own.large", not large, where, "; ".join(large[:3]))
    c.ob("V5.own.fits", not fits, where, "; ".join(fits[:3]))
