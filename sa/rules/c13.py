from ..brokers import both
from ..loops import *
from ..base import holds
from ..query import event_op, strip
from ..terms import *
from ..dom import *
from .c10 import SEND

OUT = ("outbound", "outmsgs")

def ids(c, b, oid, f):
    "identifiers: absent from outmsgs, 1..65535, the one put in the packet, message in both stores"
    om, ob = f.T("self.outmsgs"), f.T("self.outbound")
    n = [0]
    def test(p):
        fl = p.flat()
        for i, o in enumerate(fl):
            op, cont, a = event_op(o.ev)
            if op == "PUT" and norm(cont) == norm(om):
                n[0] += 1
                k, pub = a
                if not absent(o.conds, k, om):
                    ln = interval(("len", om), erase(o.conds), lambda t: None)
                    if b.five or ln[0] < 65535: return "an identifier that may be in use is given (%s)" % o.ev
                prev = [x.ev for x in fl[:i] if x.ev.kind == "setattr" and x.ev.name == b.ID and strip(x.ev.base) == strip(pub) and x.stack == o.stack[:len(x.stack)]]
                if not prev or prev[-1].args[0] != k: return "the message is filed under another identifier than the one it carries (%s)" % o.ev
                if any(x.ev.kind == "setattr" and x.ev.name == b.ID and strip(x.ev.base) == strip(pub) and x.ev.args[0] != k for x in fl[i:] if x.stack == o.stack): return "the identifier is changed after filing"
                adds = [x.ev for x in fl if event_op(x.ev)[0] == "ADD" and norm(event_op(x.ev)[1]) == norm(ob) and strip(event_op(x.ev)[2][0]) == strip(pub) and x.stack == o.stack]
                if len(adds) != 1: return "the message is put on the list of unfinished messages %d times" % len(adds)
                lo, hi = interval(k, o.conds, msgid_base)
                if lo < 1 or hi > 65535: return "the identifier may be %s..%s" % (lo, hi)
            if op == "ADD" and norm(cont) == norm(ob):
                pub = strip(a[0])
                q = [x for x in fl if event_op(x.ev)[0] == "PUT" and norm(event_op(x.ev)[1]) == norm(om) and strip(event_op(x.ev)[2][1]) == pub and x.stack == o.stack]
                if not q and f.assume(erase(o.conds), ["v.fh.QoS != 0"], extra={"v": pub}) and not zero(f, o.conds, pub, p): return "a QoS 1 or 2 message is put on the list without an identifier (%s)" % o.ev
            if o.ev.kind == "setattr" and o.ev.name == "msgid" and o.ev.base == ("param", "self"):
                lo, hi = interval(o.ev.args[0], o.conds, msgid_base)
                if lo < 1 or hi > 65535: return "the next identifier may be %s..%s (%s)" % (lo, hi, o.ev)
    c.each(oid, f, [], test, skip_raised=False)
    return n[0]
def zero(f, conds, pub, p):
    "the message's QoS is known to be 0: it was set from a parameter known to be 0"
    for (t, nm), v in p.heap.items():
        if nm == "QoS" and t[0] in ("attr", "new") and strip(t[1] if t[0] == "attr" else t) == pub:
            return not f.assume(erase(conds), ["v != 0"], extra={"v": v})
    return False
def msgid_base(t):
    x = t
    while x[0] == "ver": x = x[1]
    return (1, 65535) if x == ("attr", ("param", "self"), "msgid") else None

def check(c):
    c.rule("identifier", "each message filed as unfinished gets an identifier proven absent from the unfinished ones at that moment, in 1..65535 (induction over every assignment of the counter), equal to the one in the packet, and is put on both stores exactly once")
    c.rule("completion", "decision table of PUBACK, PUBREC, PUBCOMP over (known, QoS, state): exactly the message with that identifier leaves both stores, or nothing changes")
    c.rule("resend", "on resuming, every unfinished message is sent once: PUBLISH with DUP, or PUBREL with its identifier")
    c.rule("untouched", "no other handler changes the unfinished messages; all functions that mention the stores are among those analysed")
    for b in both(c):
        v, ID = b.v, b.ID
        fs = {}
        arr = b.fn("MQTTClients.publishArrived")
        n = ids(c, b, v + ".identifier.arrived", arr)
        c.ob(v + ".identifier.exists", n > 0, arr.where, "" if n else "no message is filed")
        conn = ["self.connected"] + (["len(self.outbound) < self.receiveMaximum"] if b.five else [])
        for q in (1, 2):
            g = ["qos == %d" % q] + (conn if b.five else [])
            c.exactly(v + ".identifier.filed.qos%d" % q, arr, g, "PUT(self.outmsgs, _, New('Publishes'))")
            c.exactly(v + ".identifier.listed.qos%d" % q, arr, g, "ADD(self.outbound, New('Publishes'))")
            c.never(v + ".first-send-not-dup.qos%d" % q, arr, g, "respond(_, New('Publishes', fh__DUP=1), ...)")
            c.exactly(v + ".sent.qos%d" % q, arr, ["qos == %d" % q] + conn, "respond(self.socket, New('Publishes', fh__QoS=qos), ...)")
        def unreceived(p):
            for o in p.flat():
                op, cont, a = event_op(o.ev)
                if op == "ADD" and a and norm(cont) in [norm(("attr", ("param", "self"), n)) for n in ("outbound", "queued")]:
                    s = p.heap.get((strip(a[0]), "qos2state"))
                    if s is not None and s[0] == "const" and s != const("PUBREC"): return "a new QoS 2 message waits for %s (%s)" % (show(s), o.ev)
        c.each(v + ".completion.begins", arr, ["qos == 2"], unreceived)
        c.never(v + ".identifier.filed.qos0", arr, ["qos == 0"], "PUT(self.outmsgs, _, _)")
        kept = ["not self.connected"]
        for q in (1, 2):
            c.exactly(v + ".kept-while-away.qos%d" % q, arr, ["qos == %d" % q] + kept, ["ADD(self.outbound, New('Publishes'))"] if not b.five else ["ADD(self.queued, New('Publishes'))"])
        # exact effect of dropping a message that was discarded (MQTT 5 only): same message, same identifier
        rs = b.fn("MQTTClients.resend", ["MQTTClients.sendQueued"] if b.five else [])
        ids(c, b, v + ".identifier.resend", rs)
        if b.five:
            sq = b.fn("MQTTClients.sendQueued")
            ids(c, b, v + ".identifier.queued", sq)
        init = b.fn("MQTTClients.__init__", keep_respond=True)
        def start(p):
            s = [m for m in p.find("SET(self.msgid, v_x)")]
            lo, hi = interval(s[-1].b["v_x"], p.conds, msgid_base) if s else (0, 0)
            return None if s and 1 <= lo and hi <= 65535 else "the first identifier is not in 1..65535"
        c.each(v + ".identifier.start", init, [], start)
        # completion
        msg = "self.outmsgs[msgid]"
        known = "msgid in self.outmsgs"
        def removed(oid, f, g):
            opts = ["REMOVE(self.outmsgs, msgid)"]
            c.exactly(oid + ".id", f, g, opts)
            c.exactly(oid + ".message", f, g, ["REMOVE(self.outbound, self.outmsgs[msgid])"])
            c.exactly(oid + ".nothing-else", f, g, ["MUT(self.outmsgs)"])
            c.exactly(oid + ".nothing-else-listed", f, g, ["MUT(self.outbound)"])
        def same(oid, f, g):
            c.never(oid, f, g, ["MUT(self.outmsgs)", "MUT(self.outbound)", "SET(_.qos2state)", "SET(_.%s)" % ID, "SET(_.QoS)"])
        op = ["MQTTClients.sendQueued"]
        ack = b.fn("MQTTClients.puback", op)
        removed(v + ".puback.qos1", ack, [known, msg + ".fh.QoS == 1"])
        same(v + ".puback.not-qos1", ack, [known, msg + ".fh.QoS != 1"])
        same(v + ".puback.unknown", ack, ["not (%s)" % known])
        rec = b.fn("MQTTClients.pubrec")
        exp = [known, msg + ".fh.QoS == 2", msg + ".qos2state == 'PUBREC'"]
        c.exactly(v + ".pubrec.state", rec, exp, "SET(self.outmsgs[msgid].qos2state, 'PUBCOMP')")
        c.never(v + ".pubrec.kept", rec, [], ["MUT(self.outmsgs)", "MUT(self.outbound)"])
        for i, w in enumerate(("unknown", "not-qos2", "twice")):
            same(v + ".pubrec." + w, rec, exp[:i] + ["not (%s)" % exp[i]])
        comp = b.fn("MQTTClients.pubcomp", op)
        exp = [known, msg + ".fh.QoS == 2", msg + ".qos2state == 'PUBCOMP'"]
        removed(v + ".pubcomp.expected", comp, exp)
        for i, w in enumerate(("unknown", "not-qos2", "too-early")):
            same(v + ".pubcomp." + w, comp, exp[:i] + ["not (%s)" % exp[i]])
        # the handlers hand the packet's own identifier to the client of the connection
        for h, f in (("puback", ack), ("pubrec", rec), ("pubcomp", comp)):
            hf = b.fn("MQTTBrokers." + h, ["MQTTClients." + h])
            c.exactly(v + "." + h + ".identifier", hf, [], "self.clients[sock].%s(packet.%s)" % (h, ID))
            c.exactly(v + "." + h + ".once", hf, [], "_.%s(_)" % h)
            fs[h] = hf
        # resend
        E = "EACH(self.outbound)"
        cont = "self.outbound"
        pub = "respond(self.socket, %s, ...)" % E
        rel = "respond(self.socket, New('Pubrels', %s=%s.%s), ...)" % (ID, E, ID)
        anyp = "respond(_, _, ...)"
        for name, g, want in (("qos1", [E + ".fh.QoS == 1"], pub), ("qos2.unreceived", [E + ".fh.QoS == 2", E + ".qos2state == 'PUBREC'"], pub), ("qos2.received", [E + ".fh.QoS == 2", E + ".qos2state != 'PUBREC'"], rel)):
            c.for_each(v + ".resend." + name, rs, [], cont, g, want)
            c.for_each(v + ".resend." + name + ".one-packet", rs, [], cont, g, anyp)
            def dup(p, E=E):
                for m in p.find(pub):
                    prev = [x for x in p.flat() if x.ev.kind == "setattr" and x.ev.name == "DUP" and strip(x.ev.base) == ("attr", m.ev.args[1], "fh")]
                    before = [x for x in p.events[:p.events.index(m.ev)] if x.kind == "setattr" and x.name == "DUP"]
                    if not before or before[-1].args[0] not in (("const", 1), ("const", True)): return "the message is resent without the duplicate flag"
            if want is pub: c.for_each(v + ".resend." + name + ".dup", rs, [], cont, g, pub, test=dup)
            def ident(p):
                for o in p.flat():
                    if o.ev.kind == "setattr" and o.ev.name in (ID, "QoS", "data", "topicName", "qos2state") and strip(o.ev.base)[0] != "new": return "a message is changed before it is resent (%s)" % o.ev
            c.for_each(v + ".resend." + name + ".same", rs, [], cont, g, pub, test=ident)
        if not b.five: # QoS 0 messages wait among them too
            def forgotten(p):
                fl = p.flat()
                if any(o.ev.kind == "call" and o.ev.name.split(".")[-1] == "respond" and rs.assume(erase(o.conds), [E + ".fh.QoS == 0"]) for o in fl) and not any(event_op(o.ev)[0] and norm(event_op(o.ev)[1]) == norm(("attr", ("param", "self"), "outbound")) for o in fl if event_op(o.ev)[1] is not None) \
                    and not any(o.ev.kind == "setattr" and o.ev.name == "outbound" for o in fl): return "a QoS 0 message is sent again at every reconnection: it is never taken off the list"
            c.each(v + ".resend.qos0.once", rs, [], forgotten)
        # the connect handler resends, once, on the success path only
        analysed = set()
        for f in (arr, rs, ack, rec, comp, init) + tuple(fs.values()): analysed |= f.I.functions
        for h, opq in (("publish", ["Brokers.publish", "MQTTBrokers.disconnect"]), ("pubrel", ["Brokers.publish"]), ("subscribe", ["Brokers.subscribe"]), ("unsubscribe", ["Brokers.unsubscribe"]), ("pingreq", ()),
                       ("disconnect", ["Brokers.disconnect", "Brokers.terminate"])):
            f = b.fn("MQTTBrokers." + h, opq)
            c.untouched(v + "." + h + ".untouched", f, "outbound", "outmsgs", "msgid")
            analysed |= f.I.functions
        if b.five: analysed |= b.fn("MQTTClients.sendQueued").I.functions
        c.mentions(v + ".uses", [b.mods[0], b.mods[1]], ("outbound", "outmsgs", "msgid"), analysed)
