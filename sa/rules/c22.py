"""Message expiry: expired messages are dropped, others carry the time left."""
from ..brokers import both
from ..query import *
from ..query import event_op
from ..terms import *
from ..loops import *
from .c18 import accepted
from .c10 import ordinary

MEI, RT = "MessageExpiryInterval", "receivedTime"
HAS_M = "hasattr(packet.properties, '%s')" % MEI
PUB = "packet.fh.PacketType == 3"
NOW = "time.monotonic()"
SENDS = ("send", "handlePacket", "sendall")

def check(c):
    c.rule("dropped", "a PUBLISH whose interval is not longer than the whole seconds since its arrival is not sent, whatever it is sent over; any other is not dropped for that reason, and nothing without an interval is")
    c.rule("left", "the interval in a PUBLISH sent is the one kept with it less the whole seconds since the arrival kept with it")
    c.rule("deadline", "sending never changes the sum of the interval and the arrival time kept with a message, so that sending it again counts the same wait once")
    c.rule("arrival", "the arrival time is taken when the PUBLISH comes (a will's when it is published) and goes with interval and message, unchanged, through routing, the retained store, the queue and the packets kept until PUBREL")
    c.rule("elsewhere", "nothing else reads or changes the interval, or sets the arrival time")
    b = both(c)[1]
    sent(c, b); kept(c, b)

def sent(c, b):
    f = b.view("respond", sets=[MEI, RT], calls=("pack",) + SENDS, about=[MEI, RT, "monotonic"], opaque=["MQTTBrokers.handlePacket"], keep_respond=True)
    pk, props = f.T("packet"), f.T("packet.properties")
    waited = "int(%s - packet.%s)" % (NOW, RT)
    late = ["%s >= packet.properties.%s" % (waited, MEI), "%s - packet.%s >= packet.properties.%s" % (NOW, RT, MEI)]
    fresh = ["%s < packet.properties.%s" % (waited, MEI), "%s - packet.%s < packet.properties.%s" % (NOW, RT, MEI)]
    sends = lambda p: [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] in SENDS]
    packs = lambda p: [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "pack"]
    can = lambda p, gs: all(f.assume(p.conds, [g]) for g in gs)
    n = [0, 0]
    def dropped(p):
        if sends(p):
            n[0] += 1
            if can(p, late): return "it is sent although its interval has passed"
    c.each("V5.dropped", f, [PUB, HAS_M], dropped, skip_raised=False)
    def goes(p):
        if not packs(p) and not sends(p):
            n[1] += 1
            if can(p, fresh): return "it is dropped although its interval has not passed"
    c.each("V5.not-dropped", f, [PUB, HAS_M], goes, skip_raised=False)
    c.ob("V5.both-ways", n[0] > 0 and n[1] > 0, f.where, "" if n[0] and n[1] else "no way of respond %s" % ("drops a message" if n[0] else "sends a message"))
    c.each("V5.no-interval", f, [PUB, "not " + HAS_M], lambda p: None if packs(p) or sends(p) else "it is dropped without having an interval")
    c.each("V5.other-packets", f, ["packet.fh.PacketType != 3"], lambda p: None if packs(p) or sends(p) else "a packet of another type is dropped")
    want = norm(f.T("packet.properties.%s - %s" % (MEI, waited)))
    def left(p):
        for e in packs(p) + sends(p):
            o = e.args[0] if e.name.split(".")[-1] != "pack" else e.base if e.base is not None else e.args[0]
            if strip(o) != pk: continue
            v = e.snap.get((props, MEI)) if e.snap else None
            v = norm(v) if v is not None else norm(f.T("packet.properties." + MEI))
            if v != want: return "the interval sent is %s" % show(v)
    c.each("V5.left", f, [PUB, HAS_M], left)
    total = norm(f.T("packet.properties.%s + packet.%s" % (MEI, RT)))
    def deadline(p):
        m, r = p.heap.get((props, MEI)), p.heap.get((pk, RT))
        if m == ("deleted",): return "the interval is removed from the message kept"
        m = m if m is not None else f.T("packet.properties." + MEI)
        r = r if r is not None else f.T("packet." + RT)
        if norm(add(strip(m), strip(r))) != total: return "interval and arrival time are kept as %s and %s" % (show(m), show(r))
    c.each("V5.deadline", f, [PUB, HAS_M], deadline)
    def untouched(p):
        for (o, n_), v in p.heap.items():
            if n_ == MEI: return "an interval is set for a message without one"
    c.each("V5.none-made", f, [PUB, "not " + HAS_M], untouched)

def same(f, t, want): return t is not None and norm(t) == norm(f.T(want))

def kept(c, b):
    # arrival
    f = b.view("MQTTBrokers.publish", sets=[RT, MEI], calls=["publish"], muts=["inbound"], about=[RT], opaque=["Brokers.publish", "MQTTBrokers.disconnect", "Brokers.resolveAlias"] if b.has("Brokers.resolveAlias") else ["Brokers.publish", "MQTTBrokers.disconnect"])
    pk, now = f.T("packet"), norm(f.T(NOW))
    n = [0]
    def arrival(p):
        for o in p.flat():
            e = o.ev
            if e.kind == "call" and e.name == "Brokers.publish":
                n[0] += 1
                a = named(b, e)
                if a.get("receivedTime") is None or norm(a["receivedTime"]) != now: return "the arrival time is %s" % (show(a["receivedTime"]) if a.get("receivedTime") is not None else "not given")
                if not same(f, a.get("properties"), "packet.properties"): return "the properties handed on are %s" % (show(a["properties"]) if a.get("properties") is not None else "none")
            op = event_op(e)
            if op and op[0] == "PUT":
                if strip(op[2][1]) != pk: continue
                v = p.heap.get((pk, RT))
                if v is None or norm(v) != now: return "the message is kept without its arrival time"
    c.each("V5.arrival", f, [], arrival)
    c.ob("V5.arrival.looked-at", n[0] > 0, f.where, "" if n[0] else "nothing is published")
    f = b.view("MQTTBrokers.pubrel", sets=[RT, MEI], calls=["publish"], about=[RT], opaque=["Brokers.publish", "MQTTBrokers.disconnect"])
    def released(p):
        for o in p.flat():
            e = o.ev
            if e.kind == "call" and e.name == "Brokers.publish":
                a = named(b, e)
                want = {repr(norm(m[1])) for m in alts(a["topic"]) if m[0] == "attr"}
                for x, at in (("receivedTime", RT), ("properties", "properties")):
                    ts = alts(a.get(x))
                    if {repr(norm(t[1])) for t in ts if t[0] == "attr" and t[2] == at} != want or any(t[0] != "attr" for t in ts): return "%s is %s, not what was kept with the message" % (x, show(a.get(x, ("?",))))
    c.each("V5.released", f, [], released)
    f = b.view("Brokers.sendWillMessage", sets=[MEI, RT], calls=["publish"], opaque=["Brokers.publish"])
    def will(p):
        for o in p.flat():
            e = o.ev
            if e.kind == "call" and e.name == "Brokers.publish":
                a = named(b, e)
                if norm(a.get("receivedTime", ("?",))) != norm(f.T(NOW)): return "the will is published with the arrival time %s" % show(a.get("receivedTime", ("?",)))
    c.each("V5.arrival.will", f, [], will)
    # routing
    f = b.view("Brokers.publish", sets=[MEI, RT], calls=["publishArrived", "setRetained"], opaque=["MQTTClients.publishArrived", "SubscriptionEngines.setRetained"], given=["properties"])
    def handed(p):
        for o in p.flat():
            e = o.ev
            if e.kind in ("setattr", "delattr") and e.name in (MEI, RT): return "%s" % e
            if e.kind != "call": continue
            if e.name.endswith("setRetained"):
                a = named(b, e)
                if not same(f, a.get("receivedTime"), "receivedTime"): return "the arrival time stored is %s" % show(a.get("receivedTime", ("?",)))
                if core(a.get("properties")) != f.T("properties"): return "the properties stored are %s" % show(a.get("properties", ("?",)))
            elif e.name == "MQTTClients.publishArrived" and "__broker3" not in repr(e.base) and len(e.args) + len(e.kw) > 4:
                a = named(b, e)
                if not same(f, a.get("receivedTime"), "receivedTime"): return "the arrival time handed on is %s" % show(a.get("receivedTime", ("?",)))
                if core(a.get("properties")) != f.T("properties"): return "the properties handed on are %s" % show(a.get("properties", ("?",)))
    c.each("V5.routed", f, ["properties"], handed)
    f = b.view("Brokers.__doRetained__", sets=[MEI, RT], calls=["publishArrived"], opaque=["MQTTClients.publishArrived"])
    rec = lambda t: t[0] == "item" and strip(t[1])[0] in ("call", "meth") and "getRetained" in repr(strip(t[1])[:3])
    n2 = [0]
    def retained(p):
        for o in p.flat():
            e = o.ev
            if e.kind in ("setattr", "delattr") and e.name in (MEI, RT): return "%s" % e
            if e.kind == "call" and e.name == "MQTTClients.publishArrived":
                n2[0] += 1
                a = named(b, e)
                m = strip(a["msg"])
                if m[0] != "item": return "the message is %s" % show(m)
                r = strip(a.get("receivedTime", ("?",)))
                if not (r[0] == "item" and norm(r[1]) == norm(m[1]) and r[2] == const(2)): return "the arrival time is %s, not the one stored" % show(r)
                for q in alts(a.get("properties", ("?",))):
                    q = core(q)
                    if q[0] in ("new", "obj") or q == const(None): continue
                    if not (q[0] == "item" and norm(q[1]) == norm(m[1]) and q[2] == const(3)): return "the properties are %s, not those stored" % show(q)
    c.each("V5.retained", f, [], retained)
    def with_props(p):
        "a stored message with properties is sent with them"
        for o in p.flat():
            e = o.ev
            if e.kind == "call" and e.name == "MQTTClients.publishArrived":
                a = named(b, e)
                r = ("item", strip(a["msg"])[1], const(3))
                if all(core(x)[0] in ("new", "obj") for x in alts(a["properties"])) and f.assume(o.conds, ["r", "len(q) == 4"], extra={"r": r, "q": r[1]}) and f.assume(erase(o.conds), ["r", "len(q) == 4"], extra={"r": r, "q": r[1]}):
                    return "the properties stored are not used"
    c.each("V5.retained.properties", f, [], with_props)
    f = b.fn("SubscriptionEngines.setRetained")
    def stored(p):
        for o in p.flat():
            op = event_op(o.ev)
            if op and op[0] == "PUT":
                v = strip(op[2][1])
                if v[0] not in ("seq", "tuple"): return "what is stored is %s" % show(v)
                xs = v[2] if v[0] == "seq" else v[1]
                if len(xs) != 4 or norm(xs[2]) != norm(f.T("receivedTime")) or core(xs[3]) != f.T("properties"): return "what is stored is %s" % show(v)
    c.each("V5.stored", f, [], stored)
    f = b.view("MQTTClients.publishArrived", sets=["properties", MEI, RT], calls=["sendFirst"], muts=["queued"], opaque=["MQTTClients.sendFirst"], given=["properties"])
    n3 = [0]
    def kept_(p):
        for o in p.flat():
            e = o.ev
            if e.kind in ("setattr", "delattr") and e.name == MEI: return "%s" % e
            op = event_op(e)
            m = e.args[0] if e.kind == "call" and e.name == "MQTTClients.sendFirst" else op[2][0] if op and op[0] == "ADD" else None
            if m is None: continue
            n3[0] += 1
            if not same(f, p.heap.get((m, RT)), "receivedTime"): return "the arrival time kept is %s" % show(p.heap.get((m, RT), ("?",)))
            if core(p.heap.get((m, "properties"), ("?",))) != f.T("properties"): return "the properties kept are %s" % show(p.heap.get((m, "properties"), ("?",)))
    c.each("V5.kept", f, ["properties"], kept_)
    c.ob("V5.kept.looked-at", n3[0] > 1, f.where, "" if n3[0] > 1 else "no message is kept")
    # elsewhere
    I = b.view("respond", sets=[MEI, RT], calls=("pack",) + SENDS, about=[MEI, RT, "monotonic"], opaque=["MQTTBrokers.handlePacket"], keep_respond=True).I
    c.mentions("V5.elsewhere", b.mods, (MEI,), I.functions)
    for n_ in ("sendFirst", "resendPub"):
        c.untouched("V5.untouched." + n_, b.fn("MQTTClients." + n_, []), MEI, RT)

def core(t):
    "what was copied"
    t = strip(t) if t is not None else ("?",)
    while True:
        if t[0] == "call" and t[1].split(".")[-1] in ("deepcopy", "copy") and t[2]: t = strip(t[2][0])
        elif t[0] == "copy": t = strip(t[1])
        elif t[0] == "alt" and len(set(core(x) for x in t[1])) == 1: t = core(t[1][0] if isinstance(t[1], tuple) else list(t[1])[0])
        else: return t

def alts(t):
    t = strip(t) if t is not None else ("?",)
    return [y for x in t[1] for y in alts(x)] if t[0] == "alt" else [t]

def named(b, e):
    "the arguments of a call by the names of the callee's parameters (its receiver left out)"
    names = b.params.get(e.name) or b.params[[k for k in b.params if k.endswith("." + e.name.split(".")[-1])][0]]
    out = dict(zip(names[1:], e.args)); out.update(dict(e.kw))
    return out
