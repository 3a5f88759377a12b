"""Messages to one client leave in the order they arrived."""
from ..brokers import both
from ..query import *
from ..query import event_op
from ..terms import *
from ..loops import *
from .c14 import drained, ROOM
from .c18 import accepted, ID

LISTS = ("outbound", "queued")
METHODS = ("publishArrived", "resend", "puback", "pubrec", "pubcomp", "pubrel")

def of(t):
    "the name of the client's list the term is (a version of)"
    t = norm(strip(t)) if t is not None else ("?",)
    return t[2] if t[0] == "attr" and t[2] in LISTS and t[1] == ("param", "self") else None

def check(c):
    c.rule("behind", "a message is put behind all others, in the list of unfinished messages and in that of waiting ones; neither list is otherwise rearranged, replaced or emptied")
    c.rule("first", "what is taken from the waiting messages is the first of them, and it is sent before another is taken")
    c.rule("no-overtaking", "a message is sent at once only when none can be waiting: while there is room, and whatever makes room serves the waiting ones until there is none")
    c.rule("resend", "on resuming, the unfinished messages are sent again in the order of their list, before any waiting one; nothing is published to the client between its coming back and that")
    c.rule("elsewhere", "no other function of the broker touches the two lists")
    for b in both(c):
        v = b.v
        fs = {n: b.fn("MQTTClients." + n) for n in METHODS}
        n = [0]
        def behind(p):
            for o in p.flat():
                e = o.ev
                op, cont, a = event_op(e) or (None, None, ())
                if e.kind in ("setattr", "delattr") and e.name in LISTS and strip(e.base)[0] != "new":
                    if e.kind == "setattr" and grown(p, e): n[0] += 1; continue
                    if e.kind == "setattr" and less(e): continue
                    return "%s (%s)" % (e, e.where)
                l = of(cont)
                if l is None: continue
                if op == "ADD":
                    n[0] += 1
                    if e.name == "insert" or e.name == "appendleft": return "a message is put before others: %s" % e
                elif op == "POP" and l == "outbound": return "the unfinished messages are changed: %s" % e
                elif op in ("REMOVE", "POP"): pass
                else: return "the %s messages are changed: %s" % ("waiting" if l == "queued" else "unfinished", e)
        for name, f in fs.items(): c.each("%s.behind.%s" % (v, name), f, [], behind, skip_raised=False)
        c.ob(v + ".behind.looked-at", n[0] > 0, b.mods[0], "" if n[0] else "no message is kept")
        # waiting ones
        if b.five:
            k = [0]
            def first(p):
                for o in p.flat():
                    e = o.ev
                    op, cont, a = event_op(e) or (None, None, ())
                    if of(cont) != "queued": continue
                    if op == "POP":
                        k[0] += 1
                        if e.name != "popfirst" and not (e.args and e.args[0] == const(0)): return "the message taken is not the first one waiting: %s" % e
                    elif op == "REMOVE":
                        k[0] += 1
                        if not (a and norm(a[0]) in (norm(p.fn.T("self.queued[0]")), const(0))): return "the message taken is not the first one waiting: %s" % e
            def at_once(p):
                "between taking a message and sending it no other is sent or taken"
                for o in p.flat():
                    if o.ev.kind != "loop": continue
                    for ed in edges_of(o.ev.loop):
                        taken = None
                        for e in ed.events:
                            op, cont, a = event_op(e) or (None, None, ())
                            if op in ("POP", "REMOVE") and of(cont) == "queued":
                                if taken is not None: return "a second message is taken before the first is sent"
                                taken = e
                            if e.kind == "call" and e.name == "respond" and taken is not None:
                                if not any(norm(x) == norm(p.fn.T("self.queued")) for x in subterms(norm(e.args[1]))): return "%s is sent first" % show(e.args[1])
                                taken = None
                        if taken is not None and ed.ctrl is None: return "a message is taken that is not sent"
            for name, f in fs.items():
                c.each("%s.first.%s" % (v, name), f, [], first, skip_raised=False)
                c.each("%s.first.sent.%s" % (v, name), f, [], at_once)
            c.ob(v + ".first.looked-at", k[0] > 0, b.mods[0], "" if k[0] else "no message is taken from those waiting")
            arr = fs["publishArrived"]
            c.only_if(v + ".no-overtaking.arrived", arr, "respond(self.socket, New('Publishes'), ...)", "self.connected and (%s or not self.queued)" % ROOM)
            known = "msgid in self.outmsgs"
            for name, g in (("puback", [known, "self.outmsgs[msgid].fh.QoS == 1"]), ("pubcomp", [known, "self.outmsgs[msgid].fh.QoS == 2", "self.outmsgs[msgid].qos2state == 'PUBCOMP'"]), ("resend", [])):
                c.each("%s.no-overtaking.%s" % (v, name), fs[name], g, drained)
        # resuming
        res = fs["resend"]
        def inorder(p):
            for o in p.flat():
                if o.ev.kind != "loop": continue
                it = o.ev.loop.it
                if not any(norm(x) in (norm(res.T("self.outbound")), norm(res.T("self.outmsgs"))) for x in subterms(norm(it))): continue
                w = wrappers(it) if norm(unwrap(it)) == norm(res.T("self.outbound")) else wrappers(it) or "in another order (%s)" % show(it)
                if w: return "the unfinished messages are gone through %s" % w
        c.each(v + ".resend.order", res, [], inorder, skip_raised=False)
        def before(p):
            gone = False
            for o in p.flat():
                e = o.ev
                if e.kind == "loop" and norm(unwrap(e.loop.it)) == norm(res.T("self.outbound")): gone = True
                op, cont, a = event_op(e) or (None, None, ())
                if op in ("POP", "REMOVE") and of(cont) == "queued":
                    if not gone and not p.entails("len(self.outbound) == 0"): return "waiting messages are sent before the unfinished ones"
                    if any(x.ev.kind == "loop" and norm(unwrap(x.ev.loop.it)) == norm(res.T("self.outbound")) and o.stack[:len(x.stack) + 1] == x.stack + (x.ev,) for x in p.flat() if len(o.stack) > len(x.stack)): return "waiting messages are sent between the unfinished ones"
        c.each(v + ".resend.before-waiting", res, [], before, skip_raised=False)
        conn = b.connect(sets=["connected"], muts=["clients"], calls=["connect", "respond", "resend", "publish", "sendWillMessage", "disconnect"], about={"clients", "ClientIdentifier"})
        def resumed(p):
            back, sent, n = None, False, 0
            for e in p.events:
                if e.kind != "call": continue
                nm = e.name.split(".")[-1]
                if e.name == "Brokers.connect": back = e
                elif nm == "resend":
                    n += 1
                    if back is None: return "the unfinished messages are sent again before the client is connected"
                    if strip(e.base) != strip(back.args[0]): return "the unfinished messages of another client are sent again"
                elif back is not None and n == 0 and nm in ("publish", "sendWillMessage", "disconnect"): return "%s happens before the unfinished messages are sent again" % e
            if back is not None and n != 1: return "the unfinished messages are sent again %d times" % n
        c.each(v + ".resend.connect", conn, accepted(b), resumed)
        lists = ("outbound", "queued") if b.five else ("outbound",)
        seen = set().union(*[f.I.functions for f in fs.values()])
        analysed = seen | {b.func("MQTTClients.__init__").qual} | conn.I.functions | extra(c, b)
        c.mentions(v + ".elsewhere", [b.mods[0], b.mods[1]], lists, analysed)

def extra(c, b):
    out = set()
    for h, opq in (("publish", ["Brokers.publish", "MQTTBrokers.disconnect"]), ("pubrel", ["Brokers.publish"]), ("subscribe", ["Brokers.subscribe"]), ("unsubscribe", ["Brokers.unsubscribe"]), ("disconnect", ["Brokers.disconnect", "Brokers.terminate"])):
        f = b.fn("MQTTBrokers." + h, opq)
        c.untouched(b.v + ".elsewhere." + h, f, *LISTS)
        out |= f.I.functions
    return out

def grown(p, e):
    "the list is replaced by itself with something behind it"
    t = strip(e.args[0])
    return t[0] == "cat" and of(t[1][0] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1]) == e.name
def less(e):
    "the list without its first element (which was taken before)"
    t = strip(e.args[0])
    return t[0] == "slice" and of(t[1]) == e.name and e.name == "queued" and t[2] == const(1)
def wrappers(t):
    while True:
        if t[0] in ("ver", "copy"): t = t[1]
        elif t[0] == "attr": return None
        elif t[0] == "call" and t[1] in ("list", "tuple", "iter", "enumerate") and t[2]: t = t[2][0]
        elif t[0] in ("call", "range") and t[1] == "range": return None
        elif t[0] == "slice": t = t[1]
        elif t[0] == "reversed" or t[0] == "call" and t[1] == "reversed": return "backwards"
        elif t[0] == "call": return "in another order (%s)" % t[1]
        else: return None
