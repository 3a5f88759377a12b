"""Every packet type is handled, and every hand-over between parts fits."""
import ast
from ..brokers import both
from ..query import *
from ..loops import *
from ..routing import *
from ..fold import Obj, Raised, Lost, Endless, Model, Ext
from ..locks import LockFlow
from ..names import unbound, missing, own_attributes, misfits
from ..world import Stream, remaining, unknown
from .. import regex
from . import c09
from .c08 import say
from .c15 import V5Router, is_min, is_own_list

SCOPE = ("mqtt.brokers.V311", "mqtt.brokers.V5", "mqtt.brokers.listeners", "mqtt.brokers.start", "mqtt.brokers.coverage", "mqtt.clients", "mqtt.formats", "mqtt.proxy", "mqtt.restart")
SKIP = {"unit_tests"}

def check(c):
    c.rule("names", "each name used is bound somewhere, each attribute of a module or class used exists, and so does each attribute of self that is read")
    c.rule("calls", "each call of a function, method or constructor of this repository passes arguments it accepts")
    c.rule("handled", "each packet type a client may send is decoded and handled by the broker without an error of the program, with the answer it is to have")
    c.rule("wired", "the brokers made by start.run are given each other, and share one store of subscriptions and one of retained messages")
    c.rule("crossing", "a publication is given to each matching subscriber of the other protocol version once (once per subscription when overlapping deliveries are not merged), by a call its client accepts, with topic, payload and the lower QoS")
    c.part("calls", lint, c)
    c.part("wired", wired, c)
    for b in both(c): c.part("%s.crossing" % b.v, crossing, c, b)
    for b in both(c): c.part("%s.handled" % b.v, handled, c, b)

def lint(c):
    run = c.P.func(c09.START, "run")
    _, locks, kinds, memo = c09.world(c, run)[0]
    attrs, globs, objs = c09.holders(memo, locks)
    fields, names = {}, {}
    for o in objs:
        for a, v in o.attrs.items():
            if isinstance(v, Obj): fields.setdefault((o.cls.qual, a), set()).add(v.cls)
    for (_, m, n), v in memo.items():
        if isinstance(v, Obj): names.setdefault((m, n), set()).add(v.cls)
    L = LockFlow(c.P, ("mqtt",), set(), set(), {}, {}, set(), (), fields, names)
    mods = [m for m in L.mods if m.name.startswith(SCOPE)]
    total = [0, 0]
    for m in mods:
        short = m.name.replace("mqtt.", "", 1); bad, n = [], 0
        for f in (unbound, missing):
            r, k = f(m, SKIP); n += k; bad += [(x[2], "%s: %s does not exist" % (x[0] or "the module", x[1])) for x in r]
        for cl in m.classes.values():
            r, k = own_attributes(cl, L.mods, SKIP); n += k; bad += [(x[2], "%s: nothing gives the object %s" % (x[0], x[1])) for x in r]
        c.ob("names." + short, not bad, "%s:%d" % (m.rel, bad[0][0] if bad else 1), "; ".join(x for _, x in bad[:4]))
        r, k = misfits(m, L, SKIP)
        c.ob("calls." + short, not r, "%s:%d" % (m.rel, r[0][2] if r else 1), "; ".join("%s: %s does not fit: %s" % (x[0], x[1], x[3]) for x in r[:4]))
        total[0] += n; total[1] += k
    c.count("uses of names", total[0]); c.count("calls", total[1])
    c.ob("calls.found", total[1] > 500 and total[0] > 2000, "interoperability/mqtt", "only %d calls and %d names are found" % (total[1], total[0]) if total[1] <= 500 else "")

def wired(c):
    run = c.P.func(c09.START, "run"); where = "%s:%d: run" % (run.module.rel, run.node.lineno)
    made = c09.world(c, run)
    _, locks, kinds, memo = made[0]
    attrs, globs, objs = c09.holders(memo, locks)
    def one(cls): return [o for o in objs if o.cls.qual == cls]
    B = {v: one("mqtt.brokers.%s.Brokers.Brokers" % v) for v in ("V311", "V5")}
    bad = []
    for v, o in (("V311", "V5"), ("V5", "V311")):
        if len(B[v]) != 1 or len(B[o]) != 1: raise AnalysisBroken("the brokers of %s are not found" % v)
        others = [x for x in B[v][0].attrs.values() if isinstance(x, Obj) and x.cls.name == "Brokers"]
        if not any(x is B[o][0] for x in others): bad.append("the %s broker does not know the %s broker" % (v, o))
    se = {v: [x for x in B[v][0].attrs.values() if isinstance(x, Obj) and x.cls.name == "SubscriptionEngines"] for v in B}
    if any(len(x) != 1 for x in se.values()): raise AnalysisBroken("the stores of the brokers are not found")
    def stores(o):
        out = {}
        def go(v, depth=0):
            if isinstance(v, (dict, list)) and depth < 3:
                out[id(v)] = v
                for y in (v.values() if isinstance(v, dict) else v): go(y, depth + 1)
        for x in o.attrs.values(): go(x)
        return out
    a, b = stores(se["V311"][0]), stores(se["V5"][0])
    top = lambda o: [x for x in o.attrs.values() if isinstance(x, (dict, list))]
    for v, o in (("V311", "V5"), ("V5", "V311")):
        for n, x in se[v][0].attrs.items():
            if isinstance(x, (dict, list)) and id(x) not in stores(se[o][0]): bad.append("%s of the %s store is not shared with the other broker" % (n, v))
    shared = [x for i, x in a.items() if i in b]
    if len(shared) < 3: bad.append("the stores of the brokers have %d containers in common" % len(shared))
    c.ob("wired", not bad, where, "; ".join(bad[:3]))

def crossing(c, b):
    r = V5Router(b) if b.five else Routing(b)
    other = both(c)[0 if b.five else 1]
    target = other.func("MQTTClients.publishArrived") if hasattr(other, "func") else None
    names = other.params["MQTTClients.publishArrived"][1:]
    for single in (1, 0):
        for retained in (0, 1):
            for many in (0, 1):
                kw = dict(mine=0, many=many)
                f = r.publish(single=single, retained=retained, opaque=["Brokers.getClient"], **kw)
                name = "%s.crossing.%s.%s.%s" % (b.v, "merged" if single else "each", "retained" if retained else "plain", "many" if many else "one")
                c.each(name + ".recipients", f, ["len(topic) > 0"] if b.five else [], lambda p: r.judge(p, f, True, single, lambda it: is_own_list(r, b, f, it)))
                c.each(name + ".content", f, [], lambda p: content(r, b, other, names, f, p))

def content(r, b, other, names, f, p):
    for d in deliveries(p.events):
        base = norm(d.ev.base)
        # the client that the other broker knows by this identifier
        ids = [x for x in subterms(base) if r.is_client(x, f)]
        if not ids: return "the message is given to %s, not to the matching client" % show(base)
        brokers = [x for x in subterms(base) if x[0] == "attr" and x[1] == ("param", "self") and x[2] != r.registry()]
        if not brokers: return "the message is not given to a client of the other broker, but to %s" % show(base)
        args, kw = list(d.ev.args), dict(d.ev.kw)
        while args and any(k in names and names.index(k) < len(args) for k in kw) and args[-1][0] == "const": args.pop()   # defaults of another publishArrived
        a = {n: args[i] if i < len(args) else kw.get(n) for i, n in enumerate(names)}
        if norm(a["topic"] or NONE) != norm(f.T("topic")): return "the topic is %s" % (show(a["topic"]) if a["topic"] else "missing")
        if norm(a["msg"] or NONE) != norm(f.T("message")): return "the payload is %s" % (show(a["msg"]) if a["msg"] else "missing")
        q = a["qos"]
        if q is None: return "there is no QoS"
        def sub(t):
            return any(r.is_client(x, f) for x in subterms(t)) or any(norm(unwrap(l.it)) == e[1] for e in subterms(t) if e[0] == "elem" for l, _ in d.stack)
        if not is_min(q, sub, norm(f.T("qos")), d.conds): return "the QoS is %s, expected the lower of the publication's and the subscription's" % show(q)
        if len(args) > len(names): return "%d arguments are given to publishArrived, which takes %d" % (len(args), len(names))
        need = len(names) - len(other.func("MQTTClients.publishArrived").node.args.defaults)
        for i, n in enumerate(names[:need]):
            if a[n] is None: return "publishArrived is not given %s" % n
        for k in kw:
            if k not in names: return "publishArrived has no parameter %s" % k
            if names.index(k) < len(args): return "publishArrived is given %s twice" % k

def packets(five):
    "(what is sent after the CONNECT, the types of what is answered, whether the connection goes on, text)"
    def pk(t, fl, body): return (t * 16 + fl,) + remaining(len(body)) + tuple(body)
    s = lambda x: (0, len(x)) + tuple(x.encode())
    id, pr = (0, 9), (0,) if five else ()
    rc = (0, 0) if five else ()
    data = unknown("payload", 2)
    pub = lambda q, fl=0: pk(3, q * 2 + fl, s("a/b") + (id if q else ()) + pr + data)
    sub = lambda q: pk(8, 2, id + pr + s("a/+") + (q,))
    out = [([pub(0)], [], True, "PUBLISH QoS 0"), ([pub(1)], [4], True, "PUBLISH QoS 1"), ([pub(2)], [5], True, "PUBLISH QoS 2"), ([pub(0, 1)], [], True, "PUBLISH retained"),
           ([pub(2), pk(6, 2, id)], [5, 7], True, "PUBLISH QoS 2 and PUBREL"), ([pub(2), pub(2, 8), pk(6, 2, id)], [5, 5, 7], True, "PUBLISH QoS 2 twice and PUBREL"),
           ([pk(4, 0, id)], [], True, "PUBACK for nothing"), ([pk(7, 0, id)], [], True, "PUBCOMP for nothing"),
           ([sub(0)], [9], True, "SUBSCRIBE"), ([sub(2), sub(1)], [9, 9], True, "SUBSCRIBE twice"), ([pk(10, 2, id + pr + s("a/+"))], [11], True, "UNSUBSCRIBE"), ([sub(1), pk(10, 2, id + pr + s("a/+"))], [9, 11], True, "SUBSCRIBE and UNSUBSCRIBE"),
           ([pk(12, 0, ())], [13], True, "PINGREQ"), ([pk(14, 0, ())], [], False, "DISCONNECT"),
           ([sub(0), pub(1)], [9, {3, 4}], True, "SUBSCRIBE and PUBLISH to oneself"), ([sub(1), pub(0)], [9, 3], True, "SUBSCRIBE and PUBLISH QoS 0 to oneself"),
           ([pub(1, 1), sub(0)], [4, {3, 9}], True, "PUBLISH retained and SUBSCRIBE"),
           ([sub(1), pub(1), pk(4, 0, (0, 1))], [9, {3, 4}], True, "a message of QoS 1 to oneself, acknowledged"),
           ([sub(2), pub(2), pk(6, 2, id), pk(5, 0, (0, 1)), pk(7, 0, (0, 1))], [9, {3, 5, 7}, 6], True, "a message of QoS 2 to oneself, completed")]
    if five:
        out += [([pk(4, 0, id + (0,))], [], True, "PUBACK with a reason code"), ([pk(4, 0, id + rc)], [], True, "PUBACK with properties"), ([pk(14, 0, (0,))], [], False, "DISCONNECT with a reason code"), ([pk(14, 0, (4, 0))], [], False, "DISCONNECT with will"),
                ([pk(14, 0, (0, 5, 17, 0, 0, 0, 0))], [], False, "DISCONNECT with a session expiry interval")]
    return out

def handled(c, b):
    fn = b.func("MQTTBrokers.handleRequest"); where = "%s:%d: MQTTBrokers.handleRequest" % (fn.module.rel, fn.node.lineno)
    cls = c.P.cls(fn.module.name, "MQTTBrokers")
    def open_socket(t):
        "sockets are open, and the text of a packet in the log is short"
        def has(x, y): return x == y or isinstance(x, tuple) and any(has(z, y) for z in x)
        if has(t, "[closed]"): return t[0] == "==" and has(t, -1) if t[0] in ("==", "!=") else False
        if t[0] in ("<", "<=", ">", ">=") and has(t, "str") and has(t, "len"): return (t[0] in ("<", "<=")) != isinstance(t[1], int)
    F = c.fold(most=800, steps=3000000, oracle=open_socket)
    no = lambda f, a, k: None
    def clock(f, a, k): raise Raised(AttributeError("module 'time' has no attribute 'clock'"))
    def go(f, texts, pubrel):
        lock = Model("lock", acquire=lambda f, a, k: True, release=no, __exit__=no); lock.attrs["__enter__"] = lambda f, a, k: lock
        trouble = []
        def trace(f, a, k): trouble.append("an error of the program was caught")
        f.stubs.update({"threading.Thread.__init__": no, "threading.Thread.start": no, "time.monotonic": lambda f, a, k: 1000, "time.time": lambda f, a, k: 1000, "time.process_time": lambda f, a, k: 1, "time.clock": clock,
                        "traceback.print_exc": trace, "threading.RLock": lambda f, a, k: lock})
        f.stubs.update(regex.stubs(regex.constant))
        options = dict(visual=False, persistence=False, overlapping_single=True, dropQoS0=True, zero_length_clientids=True, publish_on_pubrel=pubrel, topicAliasMaximum=2, maximumPacketSize=256, receiveMaximum=20, serverKeepAlive=60)
        o = f.new(cls, [], {"options": options, "lock": lock, "sharedData": {}})
        other = Model("the other broker", broker=Model("broker", getClient=no)); 
        con = (0, 4) + tuple(b"MQTT") + ((5, 2, 0, 60, 0) if b.five else (4, 2, 0, 60)) + (0, 1) + tuple(b"c")
        con = (16,) + remaining(len(con)) + con
        sent, ends = [], []
        for t in [con] + texts:
            s = socks.setdefault(0, None)
            if s is None: s = socks[0] = Stream((), splits=0); s.model.attrs["websockets"] = False
            s.cells, s.pos = tuple(t), 0
            n = len(s.sent)
            ends.append(f.call(f.getattr(o, "handleRequest"), s.model))
            sent += kinds(s.sent[n:])
        return sent, ends, trouble
    bad, n = [], 0
    for texts, want, on, what in packets(b.five):
        for pubrel in (False, True):
            def start(f):
                socks.clear()
                return go(f, texts, pubrel)
            socks = {}
            for r in F.run(start):
                r = r[0]; n += 1
                if isinstance(r, Lost): raise r
                if not isinstance(r, tuple): bad.append("%s: %s" % (what, say(r))); continue
                sent, ends, trouble = r
                if not same(sent, [2] + want): bad.append("%s is answered with packets of types %s, expected %s" % (what, sent[1:], want))
                elif any(ends[:-1]): bad.append("%s: the connection ends before the last packet" % what)
                elif bool(ends[-1]) != (not on): bad.append("%s: the connection %s" % (what, "goes on" if on is False else "ends"))
                elif trouble: bad.append("%s: %s" % (what, trouble[0]))
    c.count("exchanges folded", n)
    c.ob("%s.handled" % b.v, not bad, where, "; ".join(bad[:4]))

def same(sent, want):
    "sets in what is wanted stand for packets in any order"
    i = 0
    for w in want:
        k = len(w) if isinstance(w, set) else 1
        got = sent[i:i + k]; i += k
        if sorted(got) != sorted(w if isinstance(w, set) else [w]): return False
    return i == len(sent)

def kinds(cs):
    out, i = [], 0
    while i < len(cs):
        if not isinstance(cs[i], int): raise AnalysisBroken("what is sent is not known")
        out.append(cs[i] >> 4); n, m, i = 0, 1, i + 1
        while True:
            n += (cs[i] & 127) * m; m *= 128; i += 1
            if not cs[i - 1] & 128: break
        i += n
    return out
