"""One recipient's copy of a message is independent of every other's."""
from ..brokers import both
from ..query import *
from ..query import event_op
from ..terms import *
from ..loops import *
from ..fold import Obj, Raised, Sym, Bytes
from .c08 import lost, say

FIELDS = ("SubscriptionIdentifier", "packetType", "TopicAlias", "MessageExpiryInterval", "topicName", "DUP", "QoS", "RETAIN", "properties", "UserProperty", "ReasonString", "ContentType",
          "ResponseTopic", "CorrelationData", "PayloadFormatIndicator", "packetIdentifier", "messageIdentifier", "fh", "data", "receivedTime", "qos2state")

def fresh(t, shallow=True):
    "the object was made here: a new one, or a copy"
    t = strip1(t)
    if t[0] in ("new", "obj", "const", "seq", "dict", "comp", "cat"): return True
    if t[0] == "copy": return t[2] == "deep" if len(t) > 2 else True
    if t[0] == "call" and t[1].split(".")[-1] == "deepcopy": return True
    if t[0] == "call" and t[1].split(".")[-1] in ("copy", "shallowcopy") and shallow: return True
    if t[0] == "call" and t[1] in ("list", "set", "dict", "min", "max"): return True
    if t[0] == "attr": return fresh(t[1], False)
    if t[0] == "alt": return all(fresh(x, shallow) for x in t[1])
    return False
def strip1(t):
    while t[0] == "ver": t = t[1]
    return t

def changes(p):
    "(event, what is changed) of everything changed on the path"
    for o in p.flat():
        e = o.ev
        if e.kind in ("setattr", "delattr"): yield e, e.base
        else:
            op = event_op(e)
            if op and op[0] and op[1] is not None: yield e, op[1]

def check(c):
    c.rule("own-message", "the message kept for a client, or sent to it, is made for this one delivery: message, fixed header and properties are new or copies")
    c.rule("no-sharing", "while a publication is handed out nothing is changed but what was made for that delivery: not the publication's properties, the retained message, or a subscription's options")
    c.rule("own-only", "a client's methods change the client's own messages only")
    c.rule("after", "once a publication was handed to the broker the connection's thread does not change its properties any more")
    c.rule("constructed", "no two packets, and no two property lists, share a part that can be changed")
    v3, v5 = both(c)
    constructed(c, v3); constructed(c, v5)
    safe = shallow_safe(c, v5)
    for b in (v3, v5):
        v = b.v
        arr = b.view("MQTTClients.publishArrived", sets=FIELDS, calls=["respond"], muts=["queued", "outbound", "outmsgs"])
        copies, kept = [True], [0]
        def own(p):
            for o in p.flat():
                e = o.ev
                op = event_op(e)
                m = None
                if e.kind == "call" and e.name == "respond": m = e.args[1]
                elif op and op[0] == "ADD": m = op[2][0]
                elif op and op[0] == "PUT": m = op[2][1]
                if m is None: continue
                m = strip1(m)
                if m[0] != "new": 
                    if any(x[0] == "attr" and x[2] in ("queued", "outbound", "outmsgs") for x in subterms(norm(m))): continue
                    if m[0] == "param" and m[1] == "self": continue
                    return "the message is %s, not one made for this delivery" % show(m)
                kept[0] += 1
                pr = p.heap.get((m, "properties"))
                if pr is not None and not fresh(pr, safe): copies[0] = False
                fh = p.heap.get((m, "fh"))
                if fh is not None and not fresh(fh, safe): return "the fixed header is %s" % show(fh)
        c.each(v + ".own-message", arr, [], own)
        c.ob(v + ".own-message.looked-at", kept[0] > 0, arr.where, "" if kept[0] else "no message is made")
        def owned(t):
            t = strip1(t)
            if fresh(t, safe): return True
            if t[0] == "alt": return all(owned(x) for x in t[1])
            n = norm(t)
            if n == ("param", "self") or n[0] == "attr" and n[1] == ("param", "self"): return True
            return any(x[0] == "attr" and x[2] in ("queued", "outbound", "outmsgs", "inbound") and norm(x[1]) == ("param", "self") for x in subterms(n))
        for name in ("publishArrived", "resend", "puback", "pubrec", "pubcomp"):
            f = arr if name == "publishArrived" else b.view("MQTTClients." + name, sets=FIELDS, muts=["queued", "outbound", "outmsgs"])
            def only(p):
                for e, t in changes(p):
                    if b.five and name == "publishArrived" and norm(t) == ("param", "properties") and strip1(t)[0] == "param": copies[0] = False; continue
                    if not owned(t): return "%s (%s)" % (e, e.where)
            c.each("%s.own-only.%s" % (v, name), f, [], only, skip_raised=False)
        PROPS = tuple(x for x in FIELDS if x != "QoS")
        fan = [("Brokers.publish", b.view("Brokers.publish", sets=PROPS, opaque=["MQTTClients.publishArrived"])),
               ("Brokers.__doRetained__", b.view("Brokers.__doRetained__", sets=FIELDS, opaque=["MQTTClients.publishArrived"]))]
        LIST = ["SubscriptionIdentifier", "UserProperty", "__options"]
        fan += [("Brokers.publish.lists", b.view("Brokers.publish", muts=LIST)), ("Brokers.__doRetained__.lists", b.view("Brokers.__doRetained__", muts=LIST)), ("Brokers.publish.options", b.view("Brokers.publish", sets=["QoS", "noLocal", "retainAsPublished", "retainHandling"])), ("Brokers.__doRetained__.options", b.view("Brokers.__doRetained__", sets=["QoS", "noLocal", "retainAsPublished", "retainHandling"]))]
        for name, f in fan:
            def shared(p):
                for e, t in changes(p):
                    if not fresh(t, safe): return "%s is changed (%s)" % (show(t), e.where)
            c.each("%s.no-sharing.%s" % (v, name), f, [], shared, skip_raised=False)
        if b.five and not copies[0]:
            # the client does not copy: every caller has to hand it properties of its own
            for bb in (v3, v5):
                for nm in ("Brokers.publish", "Brokers.__doRetained__"):
                    f = bb.view(nm, sets=FIELDS, calls=["publishArrived"], opaque=["MQTTClients.publishArrived"])
                    def given(p):
                        for o in p.flat():
                            e = o.ev
                            if e.kind == "call" and e.name.split(".")[-1] == "publishArrived":
                                pr = dict(e.kw).get("properties", e.args[3] if len(e.args) > 3 and (bb.five or len(e.args) > 4) else None)
                                if pr is not None and not fresh(pr, safe) and not (is_const(pr) and pr[1] in (None, True, False)): return "the properties handed over are %s, which others have too" % show(pr)
                    c.each("V5.own-message.properties.%s.%s" % (bb.v, nm), f, [], given)
        elif not copies[0]: c.ob(v + ".own-message.properties", False, arr.where, "the properties kept are those of others")
        for h in ("publish", "pubrel"):
            f = b.view("MQTTBrokers." + h, sets=FIELDS, calls=["publish"], muts=["UserProperty", "SubscriptionIdentifier"], opaque=["Brokers.publish", "MQTTBrokers.disconnect"])
            def after(p):
                gone = None
                for e in p.events:
                    if e.kind == "call" and e.name == "Brokers.publish": gone = [x for x in e.args if b.five]
                    t = e.base if e.kind in ("setattr", "delattr") else (event_op(e) or (None, None))[1]
                    if gone is not None and t is not None and any(norm(x) == norm(y) for x in subterms(norm(t)) for y in gone if norm(y)[0] == "attr" and norm(y)[2] == "properties"): return "%s after it was published (%s)" % (e, e.where)
            c.each("%s.after.%s" % (v, h), f, [], after, skip_raised=False)

def parts(v, seen):
    "the changeable objects reachable from a value"
    if isinstance(v, Obj):
        if id(v) in seen: return
        seen[id(v)] = v
        for x in v.attrs.values(): parts(x, seen)
    elif isinstance(v, (list, dict, set)):
        if id(v) in seen: return
        seen[id(v)] = v
        for x in (list(v.values()) if isinstance(v, dict) else list(v)): parts(x, seen)
    elif isinstance(v, tuple):
        for x in v: parts(x, seen)

def constructed(c, b):
    F = c.fold(most=50)
    M = c.P.mod(b.fmt)
    bad = []
    for name in ("Publishes", "Pubrels", "Pubrecs", "Pubacks", "Pubcomps"):
        cls = M.classes.get(name)
        if cls is None: continue
        def go(f):
            x, y = f.new(cls, [], {}), f.new(cls, [], {})
            a, bb = {}, {}
            parts(x, a); parts(y, bb)
            return [k for k in a if k in bb and changeable(a[k])], a
        for r, _, _ in F.run(go):
            if not isinstance(r, tuple): bad.append("%s: %s" % (name, say(r))); continue
            if r[0]: bad.append("two %s share %r" % (name, r[1][r[0][0]]))
    c.count("packet classes constructed", 5)
    c.ob(b.v + ".constructed", not bad, b.fmt, "; ".join(str(x)[:200] for x in bad[:2]))
def changeable(v):
    "tables that the format's classes only read do not count"
    return isinstance(v, Obj)

def shallow_safe(c, b):
    "whether setting a property never changes a list in place, so that a shallow copy is as good as a deep one"
    cls = c.P.mod(b.fmt).classes.get("Properties")
    F = c.fold(most=50)
    def go(f):
        p = f.new(cls, [3], {})
        f.setattr(p, "UserProperty", ("a", "b"))
        l = f.getattr(p, "UserProperty"); n = len(l)
        f.setattr(p, "UserProperty", ("c", "d"))
        return n, len(l), f.getattr(p, "UserProperty") is not l
    try: rs = F.run(go)
    except Exception: return False
    return all(isinstance(r, tuple) and r == (1, 1, True) for r, _, _ in rs)
