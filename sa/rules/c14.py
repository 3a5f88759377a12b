from ..brokers import both
from ..query import *
from ..query import event_op
from ..loops import *
from ..interp import names_in
from .c10 import SEND, ordinary
from .c13 import ids

ROOM = "len(self.outbound) < self.receiveMaximum"
DRAINED = "not self.queued or not (%s)" % ROOM

def drained(p):
    "nothing waits, or no quota is left, when the function is done"
    if not p.at_end(DRAINED): return "it may end with a message waiting although quota is free"

def setting(c, oid, conn, guards, attrs, expect):
    "after a successful CONNECT the session's attribute holds the expected value"
    n = [0]
    def test(p):
        cs = [e for e in p.events if e.kind == "call" and e.name == "Brokers.connect"]
        if not cs: return
        n[0] += 1
        obj = cs[-1].args[0]
        v = p.heap.get((obj, attrs))
        if v is None: return "%s is not set" % attrs
        if not unify(conn.T(expect), v, {}, None): return "%s is %s, expected %s" % (attrs, show(v), expect)
    c.each(oid, conn, guards, test)
    c.ob(oid + ".reached", n[0] > 0, conn.where, "" if n[0] else "no successful CONNECT")

def check(c):
    c.rule("quota", "a message enters the unacknowledged ones, and is sent, only while fewer than the client's Receive Maximum are unacknowledged and the client is connected")
    c.rule("drain", "whatever makes room (a finished exchange, a message dropped, a new connection) ends with nothing waiting or no quota left; each message taken from the queue is sent once")
    c.rule("inbound", "a new QoS 1 or 2 PUBLISH at or above the broker's limit ends the connection with 'Receive maximum exceeded', nothing else happens; below it, or for a repetition, the connection is not ended")
    b = both(c)[1]
    v, ID = b.v, b.ID
    arr = b.fn("MQTTClients.publishArrived")
    q = "self.queued"
    c.only_if(v + ".quota.listed", arr, "ADD(self.outbound, _)", "self.connected and " + ROOM)
    c.only_if(v + ".quota.numbered", arr, "PUT(self.outmsgs, _, _)", "self.connected and " + ROOM)
    for n in (1, 2):
        c.exactly(v + ".quota.free.sent.qos%d" % n, arr, ["qos == %d" % n, "self.connected", ROOM], "respond(self.socket, New('Publishes'), ...)")
        c.never(v + ".quota.free.not-queued.qos%d" % n, arr, ["qos == %d" % n, "self.connected", ROOM], "MUT(self.queued)")
        for w, g in (("full", ["self.connected", "not (%s)" % ROOM]), ("away", ["not self.connected"])):
            c.exactly(v + ".quota.%s.queued.qos%d" % (w, n), arr, ["qos == %d" % n] + g, "ADD(self.queued, New('Publishes'))")
            c.exactly(v + ".quota.%s.queued-once.qos%d" % (w, n), arr, ["qos == %d" % n] + g, "MUT(self.queued)")
            c.never(v + ".quota.%s.not-sent.qos%d" % (w, n), arr, ["qos == %d" % n] + g, SEND)
    c.never(v + ".quota.qos0-not-counted", arr, ["qos == 0"], "ADD(self.outbound, _)")
    def shrunk(p):
        "messages leave the unacknowledged ones only if they were put there on the same path, or the queue is served afterwards"
        f = p.fn; ob = f.T("self.outbound")
        fl = p.flat()
        for i, o in enumerate(fl):
            op, cont, a = event_op(o.ev)
            if op in ("REMOVE", "POP", "CLEAR") and norm(cont) == norm(ob):
                own = op == "REMOVE" and any(event_op(x.ev)[0] == "ADD" and norm(event_op(x.ev)[1]) == norm(ob) and strip(event_op(x.ev)[2][0]) == strip(a[0]) and x.stack == o.stack for x in fl[:i])
                if not own:
                    m = drained(p)
                    if m: return m
    for n in ("puback", "pubcomp", "resend", "publishArrived"):
        f = b.fn("MQTTClients." + n)
        c.each(v + ".drain." + n, f, [], shrunk, skip_raised=False)
        if n != "publishArrived":
            c.only_if(v + ".quota." + n + ".listed", f, "ADD(self.outbound, _)", ROOM, atleast=0)
            c.only_if(v + ".quota." + n + ".taken", f, "POP(self.queued)", ROOM)
            def taken(p):
                fn = p.fn; sp = fn.pat("respond(self.socket, v_x, ...)"); qt = norm(fn.T("self.queued"))
                for o in p.flat():
                    if o.ev.kind != "loop": continue
                    for ed in edges_of(o.ev.loop):
                        pops = [e for e in ed.events if event_op(e)[0] in ("POP", "REMOVE") and norm(event_op(e)[1]) == qt]
                        if not pops: continue
                        if len(pops) > 1: return "several messages are taken from the queue for one that is sent"
                        if pops[0].name != "popfirst" and not (pops[0].kind == "mut" and pops[0].args and pops[0].args[0] == ("const", 0)): return "the message taken is not the first one waiting (%s)" % pops[0]
                        sent = [e for e in ed.events if sp.match(e) is not None]
                        if len(sent) != 1: return "a message taken from the queue is sent %d times" % len(sent)
                        if not any(x == qt for x in subterms(norm(sent[0].args[1]))): return "another message is sent than the one taken from the queue"
                for e in p.events:
                    if event_op(e)[0] in ("POP", "CLEAR", "REMOVE") and norm(event_op(e)[1]) == qt: return "a message is taken from the queue outside the loop serving it"
            c.each(v + ".drain." + n + ".sent-once", f, [], taken)
    res = b.fn("MQTTClients.resend")
    c.each(v + ".drain.resumed", res, [], drained)
    E = "EACH(self.outbound)"
    def limited(p):
        for m in p.find("respond(_, %s, ...)" % E):
            if not any("receiveMaximum" in names_in(k[1]) for k in m.conds): return "an unfinished message is sent again whatever the client's Receive Maximum on the new connection (%s)" % m.where
    c.each(v + ".resend.within-quota", res, [E + ".fh.QoS == 1"], limited)
    known = "msgid in self.outmsgs"
    c.each(v + ".drain.puback.served", b.fn("MQTTClients.puback"), [known, "self.outmsgs[msgid].fh.QoS == 1"], drained)
    c.each(v + ".drain.pubcomp.served", b.fn("MQTTClients.pubcomp"), [known, "self.outmsgs[msgid].fh.QoS == 2", "self.outmsgs[msgid].qos2state == 'PUBCOMP'"], drained)
    # the client's limit
    conn = b.connect(sets=["receiveMaximum", "ReceiveMaximum"], calls=["connect", "respond"], about=["ReceiveMaximum", "receiveMaximum"], inline_init=["MQTTClients"])
    setting(c, v + ".limit.announced", conn, ["hasattr(packet.properties, 'ReceiveMaximum')"], "receiveMaximum", "packet.properties.ReceiveMaximum")
    setting(c, v + ".limit.default", conn, ["not hasattr(packet.properties, 'ReceiveMaximum')"], "receiveMaximum", "65535")
    ok = ["packet.ProtocolName == 'MQTT'", "packet.ProtocolVersion == 5", "sock not in self.clients"]
    c.exactly(v + ".inbound.announced", conn, ok + ["self.options['receiveMaximum'] < 65535"], "respond(sock, New('Connacks', properties__ReceiveMaximum=self.options['receiveMaximum']), ...)")
    c.mentions(v + ".limit.elsewhere", [b.mods[0], b.mods[1]], ("receiveMaximum",), arr.I.functions | res.I.functions | conn.I.functions | {b.func("MQTTClients.__init__").qual})
    # the broker's own limit
    pub = b.fn("MQTTBrokers.publish", ["Brokers.publish", "MQTTBrokers.disconnect"])
    end = "self.disconnect(sock, ...)"
    room = "len(self.clients[sock].inbound) < self.options['receiveMaximum']"
    new = "packet.%s not in self.clients[sock].inbound" % ID
    for n in (1, 2):
        g = ordinary(b, "packet.fh.QoS == %d" % n)
        gx = g + ["not (%s)" % room] + ([new] if n == 2 else [])
        c.exactly(v + ".inbound.exceeded.qos%d.ended" % n, pub, gx, end)
        def why(p):
            for e in p.events:
                if e.kind == "call" and e.name == "MQTTBrokers.disconnect" and ("const", "Receive maximum exceeded") not in e.args + tuple(x for k, x in e.kw): return "the reason given is not 'Receive maximum exceeded' (%s)" % e
        c.each(v + ".inbound.exceeded.qos%d.reason" % n, pub, gx, why)
        c.never(v + ".inbound.exceeded.qos%d.nothing-else" % n, pub, gx, ["self.broker.publish(_, ...)", "MUT(self.clients[sock].inbound)", SEND])
        c.never(v + ".inbound.within.qos%d" % n, pub, g + [room], end)
    c.never(v + ".inbound.repeated", pub, ordinary(b, "packet.fh.QoS == 2", "packet.%s in self.clients[sock].inbound" % ID), end)
    c.never(v + ".inbound.qos0", pub, ordinary(b, "packet.fh.QoS == 0"), end)
