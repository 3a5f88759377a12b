"""The test clients complete QoS handshakes and deliver once."""
from ..brokers import both
from ..query import *
from ..terms import *
from ..fold import Raised, Lost, Endless, Model, Obj, cells
from ..world import Stream, unknown
from .c08 import say
from .c20 import TYPES

def check(c):
    c.rule("reply", "each PUBLISH, PUBREC and PUBREL that is accepted is answered with one packet of the right type with its identifier; no other packet is answered")
    c.rule("deliver", "a message is given to the application once: QoS 0 and 1 when it arrives, QoS 2 when it is released; what is given is what arrived")
    c.rule("keep", "a message sent is kept until PUBACK (QoS 1) or PUBCOMP (QoS 2), or PUBREC with an error; nothing else removes it")
    c.rule("id", "the next identifier is one that no message kept has; when there is none it is an error")
    c.rule("send", "what is sent in pieces is sent whole and in order")
    c.rule("publish", "a message of QoS 1 or 2 is kept under its identifier before it is sent")
    c.rule("asked", "what is sent for a call is the packet that carries what the call was given, and the identifier returned")
    for b in both(c):
        r = Receiver(c, b)
        c.part(b.v + ".receive", receive, c, r)
        c.part(b.v + ".publish", publish, c, r)
        c.part(b.v + ".ids", ids, c, r)
        c.part(b.v + ".sendtosocket", sending, c, r)
        c.part(b.v + ".session", session, c, r)
        c.part(b.v + ".asked", asked, c, r)

class Receiver:
    def __init__(self, c, b):
        self.c, self.b, self.v = c, b, b.v
        self.internal, self.main = "mqtt.clients.%s.internal" % b.v, "mqtt.clients.%s.main" % b.v
        self.ID = b.ID
        self._fn = None
    def interp(self, opaque=()):
        return self.c.interp(scope=[self.internal], opaque=self.b.formatfns | {"unpackPacket", "getPacket"} | set(opaque), pure=set(), attr_types={}, elem_types={}, focus=None, about=None, aliases={}, extraise=lambda n: [])
    @property
    def fn(self):
        if self._fn: return self._fn
        rc = self
        class F(Fn):
            packet = None
            def state(self):
                st = Fn.state(self)
                if self.packet: st.frames[-1]["packet"] = self.packet
                return st
        f = F(self.interp(), self.c.P.func(self.internal, "Receivers.receive"), ["self", "callback"])
        self.c.count("functions summarised")
        found = {e.ret if e.ret is not None else None for p in f.paths for e in p.events if e.kind == "call" and e.name.split(".")[-1] == "unpackPacket"} - {None}
        if not found: found = {x for p in f.paths for k in p.conds for x in subterms(k) if x and x[0] in ("call", "ret") and x[1].split(".")[-1] == "unpackPacket"}
        if len(found) != 1: raise AnalysisBroken("%s: the packet received is not found" % f.where)
        f.packet = found.pop()
        F0 = self.c.fold(most=10, steps=200000)
        o = F0.run(lambda g: g.new(self.c.P.cls(self.internal, "Receivers"), [Model("socket")], {}))
        if len(o) != 1 or not isinstance(o[0][0], Obj): raise AnalysisBroken("%s: no receiver can be made: %s" % (f.where, say(o[0][0])))
        self.kinds = {n: v.cls.name for n, v in o[0][0].attrs.items() if isinstance(v, Obj)}
        self._fn = f
        return f
    def sent(self, p):
        "[(index, class, identifier)] of the packets sent"
        out = []
        for i, e in enumerate(p.events):
            if e.kind == "loop":
                for o in p.flat():
                    if o.ev.kind == "call" and o.stack and is_send(o.ev): raise AnalysisBroken("packets are sent in a loop")
            if not (e.kind == "call" and is_send(e)): continue
            base, args = e.base, e.args
            if e.name.split(".")[-1] == "sendtosocket": base, args = args[0], args[1:]
            if norm(base) != self.fn.T("self.socket"): out.append((i, "to another socket", None)); continue
            t = strip(args[0])
            if t[0] not in ("call", "ret") or t[1].split(".")[-1] != "pack" or not t[2]: raise AnalysisBroken("what is sent is not a packet: %s" % show(t))
            x = strip(t[2][0])
            if x[0] == "new": out.append((i, x[1].split(".")[-1], attr_in(x, self.ID, e.snap)))
            elif x[0] == "attr" and x[1] == ("param", "self") and x[2] in self.kinds: out.append((i, self.kinds[x[2]], attr_in(x, self.ID, e.snap)))
            else: raise AnalysisBroken("it is not known what is sent: %s" % show(x))
        return out

def is_send(e): return e.name.split(".")[-1] in ("send", "sendall", "sendtosocket")

def called(p, name):
    "[(index, event)] of the calls of a method of the callback"
    cb = ("param", "callback")
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name.split(".")[-1] == name and e.base is not None and norm(e.base) == cb]

def changes(r, p, name):
    "[(index, operation, arguments)] of what happens to one of the receiver's tables"
    t, out = r.fn.T("self." + name), []
    for i, e in enumerate(p.events):
        if e.kind == "loop":
            for o in p.flat():
                op, base, args = event_op(o.ev)
                if o.stack and op and norm(base) == t: raise AnalysisBroken("self.%s is changed in a loop" % name)
        op, base, args = event_op(e)
        if op and norm(base) == t: out.append((i, op, args))
        if e.kind == "setattr" and e.base is not None and norm(e.base) == ("param", "self") and e.name == name: out.append((i, "SET", e.args))
    return out

def receive(c, r):
    f, v, ID = r.fn, r.v, r.ID
    T = lambda s: norm(f.T(s))
    pid = T("packet.%s" % ID)
    ty = lambda n: "packet.fh.%s == %d" % (r.b.TYPE, TYPES.index(n) + 1)
    some = "packet is not None"
    def reply(cls):
        def test(p):
            s = r.sent(p)
            if len(s) != 1: return "%d packets are sent" % len(s)
            if s[0][1] != cls: return "%s is sent, not %s" % (s[0][1], cls)
            if s[0][2] is None or norm(s[0][2]) != pid: return "the %s has the identifier %s" % (cls, show(s[0][2]) if s[0][2] else "of another packet")
        return test
    def silent(p):
        s = r.sent(p)
        if s: return "%s is sent" % s[0][1]
    def same(name):
        def test(p):
            if changes(r, p, name): return "self.%s is changed" % name
        return test
    def given(q, source):
        "publishArrived is called once, with what source holds"
        want = [T(source + ".topicName"), T(source + ".data"), None, T(source + ".fh.RETAIN"), T("packet.%s" % ID)]
        alts = {4: {T(source + "." + ID), pid}}
        def test(p):
            n = called(p, "publishArrived")
            if len(n) != 1: return "publishArrived is called %d times" % len(n)
            a = n[0][1].args
            if len(a) < 5: return "publishArrived is given only %d arguments" % len(a)
            for k, w in enumerate(want):
                g = norm(a[k])
                if k == 2: good = g in (("const", q), T(source + ".fh.QoS"))
                elif k in alts: good = g in alts[k]
                else: good = g == w
                if not good: return "publishArrived is given %s as its argument %d" % (show(a[k]), k + 1)
            if r.b.five and (len(a) < 6 or norm(a[5]) != T(source + ".properties")): return "publishArrived is not given the properties of the message"
        return test
    def returned(q, source):
        def test(p):
            if called(p, "publishArrived"): return "publishArrived is called"
            t = p.ret
            if t is None or t[0] != "seq" or len(t[2]) < 3: return "the message is not returned, but %s" % (show(t) if t else "nothing")
            for k, w in enumerate((T(source + ".topicName"), T(source + ".data"))):
                if norm(t[2][k]) != w: return "%s is returned instead of %s" % (show(t[2][k]), show(w))
            if norm(t[2][2]) not in (("const", q), T(source + ".fh.QoS")): return "the QoS returned is %s" % show(t[2][2])
        return test
    def nothing(p):
        if called(p, "publishArrived"): return "publishArrived is called"
    def verdict(p, name="publishArrived"):
        "whether the application accepted the message: True, False or None"
        n = called(p, name)
        if not n: return None
        for k, d in p.conds.items():
            if k[0] in ("b", "v") and any(x and x[0] in ("call", "ret") and str(x[1]).split(".")[-1] == name for x in subterms(k[1])):
                b = truth(d)
                if b is not None: return b
        return None
    def when(want, *tests):
        def test(p):
            if verdict(p) is not want: return None
            for t in tests:
                m = t(p)
                if m: return m
        return test
    def ordered(first, second, msg):
        def test(p):
            a, b = first(p), second(p)
            if a and b and min(b) < max(a): return msg
        return test
    sends = lambda p: [i for i, _, _ in r.sent(p)]
    arrivals = lambda p: [i for i, _ in called(p, "publishArrived")]
    def removed(name):
        def test(p):
            ch = changes(r, p, name)
            if len(ch) != 1 or ch[0][1] not in ("REMOVE", "POP") or norm(ch[0][2][0]) != pid: return "the message is not removed from self.%s (%s)" % (name, ", ".join(x[1] for x in ch) or "nothing happens")
        return test
    def told(p):
        n = called(p, "published")
        if len(n) != 1 or norm(n[0][1].args[0]) != pid: return "the application is told %d times that the message is published" % len(n)
    def untold(p):
        if called(p, "published"): return "the application is told that a message is published"
    def both_of(*tests):
        def test(p):
            for t in tests:
                m = t(p)
                if m: return m
        return test
    each = lambda name, guards, *tests: c.each("%s.%s" % (v, name), f, [some] + guards, both_of(*tests))
    # messages received
    P = [ty("publish"), "not self.paused"]
    keepout = same("outMsgs")
    each("publish.qos0.callback", P + ["packet.fh.QoS == 0", "callback is not None"], silent, given(0, "packet"), same("inMsgs"), keepout)
    each("publish.qos0.returned", P + ["packet.fh.QoS == 0", "callback is None"], silent, returned(0, "packet"), same("inMsgs"), keepout)
    each("publish.qos1.callback", P + ["packet.fh.QoS == 1", "callback is not None"], given(1, "packet"), same("inMsgs"), keepout, when(False, silent), when(True, reply("Pubacks")), ordered(arrivals, sends, "the PUBACK is sent before the application has the message"), decided(verdict))
    each("publish.qos1.returned", P + ["packet.fh.QoS == 1", "callback is None"], returned(1, "packet"), reply("Pubacks"), same("inMsgs"), keepout)
    stored = lambda p: [i for i, op, a in changes(r, p, "inMsgs") if op == "PUT" and norm(a[0]) == pid and norm(a[1]) == norm(f.packet)]
    def kept(p):
        ch = changes(r, p, "inMsgs")
        known = p.entails and any(k[0] == "b" and "inMsgs" in repr(k) for k in p.conds)
        if not ch and known: return None           # kept already
        if len(ch) != 1 or not stored(p): return "the message is not kept under its identifier"
    each("publish.qos2", P + ["packet.fh.QoS == 2"], reply("Pubrecs"), nothing, kept, keepout, ordered(stored, sends, "the PUBREC is sent before the message is kept"))
    known = "packet.%s in self.inMsgs" % ID
    msg = "self.inMsgs[packet.%s]" % ID
    rel = [ty("pubrel")]
    each("pubrel.callback", rel + [known, "callback is not None"], given(2, msg), keepout, when(True, removed("inMsgs"), reply("Pubcomps")), when(False, silent, same("inMsgs")), ordered(arrivals, sends, "the PUBCOMP is sent before the application has the message"), decided(verdict))
    each("pubrel.returned", rel + [known, "callback is None"], returned(2, msg), keepout, removed("inMsgs"), reply("Pubcomps"))
    each("pubrel.unknown", rel + ["not (%s)" % known], reply("Pubcomps"), nothing, same("inMsgs"), keepout, lambda p: "something is returned" if p.ret not in (None, NONE) else None)
    # messages sent
    mine = "packet.%s in self.outMsgs" % ID
    q = lambda n: "self.outMsgs[packet.%s].fh.QoS == %d" % (ID, n)
    cb = ["hasattr(callback, 'published')"]
    each("puback", [ty("puback"), mine, q(1)] + cb, removed("outMsgs"), told, silent, same("inMsgs"))
    good = ["packet.reasonCode.value < 128"] if r.b.five else []
    each("pubrec", [ty("pubrec"), mine, q(2)] + good, reply("Pubrels"), keepout, same("inMsgs"), untold)
    if r.b.five: each("pubrec.error", [ty("pubrec"), mine, q(2), "packet.reasonCode.value >= 128"] + cb, removed("outMsgs"), silent, same("inMsgs"))
    each("pubcomp", [ty("pubcomp"), mine, q(2)] + cb, removed("outMsgs"), told, silent, same("inMsgs"))
    def quiet(p):
        return both_of(silent, keepout, same("inMsgs"), untold)(p)
    for t, n in (("puback", 2), ("pubrec", 1), ("pubcomp", 1)):
        c.each("%s.%s.other.%d" % (v, t, n), f, [some, ty(t), mine, q(n)], quiet, skip_raised=False)
        c.each("%s.%s.unknown" % (v, t), f, [some, ty(t), "not (%s)" % mine], lambda p: both_of(same("inMsgs"), keepout, untold)(p), skip_raised=False)
    for t in ("suback", "unsuback", "disconnect", "pingresp"):
        c.each("%s.%s.quiet" % (v, t), f, [some, ty(t)], lambda p: both_of(same("inMsgs"), keepout, untold, nothing, silent)(p), skip_raised=False)

def truth(d):
    from ..dom import YES, NO
    if d == YES: return True
    if d == NO: return False
    s = repr(d)
    return True if s == "T" else False if set(s) <= set("FN") else None

def decided(verdict):
    "what follows depends on what the application said"
    def test(p):
        if called(p, "publishArrived") and verdict(p) is None: return "what the application says about the message makes no difference"
    return test

def publish(c, r):
    I = c.interp(scope=[r.main], opaque=r.b.formatfns | {"sendtosocket", "Client.__nextMsgid"}, pure=set(), attr_types={}, elem_types={}, focus=None, about=None, aliases={}, extraise=lambda n: [])
    f = Fn(I, c.P.func(r.main, "Client.publish"), ["self", "topic", "payload", "qos", "retained"] + (["properties"] if r.b.five else []))
    c.count("functions summarised")
    sends = lambda p: [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name.split(".")[-1] in ("sendtosocket", "send", "sendall")]
    def packet(p):
        s = sends(p)
        if len(s) != 1: return "%d packets are sent" % len(s)
        t = strip(s[0][1].args[-1])
        x = strip(t[2][0]) if t[0] in ("call", "ret") and t[2] else t
        if x[0] != "new" or x[1].split(".")[-1] != "Publishes": return "%s is sent" % show(x)
        return s[0], x
    def val(x, path, snap):
        for n in path:
            x = attr_in(x, n, snap)
            if x is None: return None
        return norm(x)
    def test(keep):
        def t(p):
            m = packet(p)
            if isinstance(m, str): return m
            (i, e), x = m
            want = [(("topicName",), norm(f.T("topic"))), (("fh", "QoS"), norm(f.T("qos"))), (("fh", "RETAIN"), norm(f.T("retained")))]
            for path, w in want:
                g = val(x, path, e.snap)
                if g != w and not (g and g[0] == "const" and w in [y for k in p.conds for y in subterms(k)]): return "the packet's %s is %s" % (path[-1], show(g) if g else "not set")
            d = val(x, ("data",), e.snap)
            if d is None or norm(f.T("payload")) not in list(subterms(d)): return "the packet's payload is %s" % (show(d) if d else "not set")
            ident = val(x, (r.ID,), e.snap)
            puts = [(j, ev) for j, ev in enumerate(p.events) if event_op(ev)[0] == "PUT" and event_op(ev)[1][0] == "attr" and event_op(ev)[1][2] == "outMsgs"]
            if not keep:
                if puts: return "a message of QoS 0 is kept"
                return
            if len(puts) != 1 or puts[0][0] > i: return "the message is not kept before it is sent"
            k, m = event_op(puts[0][1])[2]
            if norm(m) != norm(x): return "another message is kept, %s" % show(m)
            if ident is None or norm(k) != ident: return "the message is kept under %s, but its identifier is %s" % (show(k), show(ident) if ident else "not set")
            new = [y for y in subterms(ident) if y and y[0] in ("call", "ret") and str(y[1]).split(".")[-1].endswith("nextMsgid")]
            if not new or ident not in new: return "the identifier is %s" % show(ident)
            if p.ret is None or norm(p.ret) != ident: return "the identifier is not returned"
        return t
    c.each(r.v + ".publish.qos0", f, ["qos == 0"], test(False))
    for q in (1, 2): c.each("%s.publish.qos%d" % (r.v, q), f, ["qos == %d" % q], test(True))

def ids(c, r):
    fn = c.P.func(r.main, "Client.__nextMsgid"); where = "%s:%d: Client.__nextMsgid" % (fn.module.rel, fn.node.lineno)
    cls, rc = c.P.cls(r.main, "Client"), c.P.cls(r.internal, "Receivers")
    F = c.fold(most=4, steps=6000000)
    def go(f, at, used):
        o, x = Obj(cls), Obj(rc)
        x.attrs.update(outMsgs={i: "m" for i in used}, inMsgs={})
        o.attrs.update({"msgid": at, "_Client__receiver": x, "__receiver": x})
        return f.call(f.getattr(o, "__nextMsgid"), ), o.attrs["msgid"]
    def ask(at, used):
        rs = F.run(lambda f: go(f, at, used)); c.count("states folded")
        if len(rs) != 1: raise Lost("the next identifier is not determined")
        if isinstance(rs[0][0], Lost):
            if len(used) > 60000: return Endless("no identifier is found")
            raise rs[0][0]
        return rs[0][0]
    bad, nexts, at = [], {}, 1
    # every state the counter can come to when nothing is in use
    while at not in nexts and not bad:
        v = ask(at, ())
        if not isinstance(v, tuple): bad.append("after %d: %s" % (at, say(v)))
        elif not isinstance(v[0], int) or not 1 <= v[0] <= 65535: bad.append("after %d the identifier is %r" % (at, v[0]))
        elif v[1] in nexts and v[1] != 1 and nexts[v[1]] == v[0]: break
        else: nexts[at] = v[0]; at = v[1]
    every = set(nexts.values())
    if not bad and len(every) < 60000: bad.append("only %d identifiers are ever used" % len(every))
    if not bad:
        lo, hi = min(every), max(every)
        for at in list(range(lo, lo + 6)) + [300, 65000] + list(range(hi - 6, hi + 1)):
            used, x = set(), at
            for _ in range(4):
                v = ask(at, used)
                if not isinstance(v, tuple): bad.append("after %d: %s" % (at, say(v))); break
                if v[0] in used: bad.append("after %d, %d is used again" % (at, v[0])); break
                if not isinstance(v[0], int) or not 1 <= v[0] <= 65535: bad.append("after %d the identifier is %r" % (at, v[0])); break
                used.add(v[0])
        for at in (lo, 300, hi):
            v = ask(at, every - {299})
            if not isinstance(v, tuple) or v[0] != 299: bad.append("after %d, when only 299 is free: %s" % (at, say(v) if not isinstance(v, tuple) else "%r is used" % (v[0],)))
        v = ask(300, every)
        if not isinstance(v, Raised): bad.append("when none is free: %s" % (say(v) if not isinstance(v, tuple) else "%r is used" % (v[0],)))
    c.ob(r.v + ".id", not bad, where, "; ".join(bad[:3]))

def sending(c, r):
    fn = c.P.func(r.main, "sendtosocket"); where = "%s:%d: sendtosocket" % (fn.module.rel, fn.node.lineno)
    bad = []
    for n in (0, 1, 2, 5):
        F = c.fold(most=400, steps=200000)
        data = unknown("data", n)
        def go(f):
            from ..fold import Bytes, norm as nb
            s = Stream((), splits=0, cut_send=4)
            f.call(("fn",) and f_of(f, fn), s.model, nb(Bytes(data)))
            return s
        for v, _, _ in F.run(go):
            c.count("schedules of partial sends folded")
            if isinstance(v, Lost): raise v
            if not isinstance(v, Stream): bad.append("%d bytes: %s" % (n, say(v)))
            elif tuple(v.sent) != data: bad.append("of %d bytes, when they are sent in pieces, these are sent: %s" % (n, [data.index(x) for x in v.sent]))
    c.ob(r.v + ".send.whole", not bad, where, "; ".join(bad[:3]))

def f_of(f, fn):
    from ..fold import Fn as FF
    return FF(fn)

def session(c, r):
    "connecting without a clean start keeps what the client has, on the new socket"
    I = c.interp(scope=[r.main], opaque=r.b.formatfns | {"sendtosocket", "unpackPacket", "getPacket", "Receivers.__init__"}, pure=set(), attr_types={}, elem_types={}, focus=None, about=None, aliases={}, extraise=lambda n: [])
    fn = c.P.func(r.main, "Client.connect")
    f = Fn(I, fn, None)
    c.count("functions summarised")
    clean = "cleanstart" if r.b.five else "cleansession"
    sets = lambda p: [(i, e) for i, e in enumerate(p.events) if e.kind == "setattr" and e.name.endswith("__receiver")]
    def keeps(p):
        if sets(p): return "the receiver, and with it the messages, is replaced"
        s = [e for e in p.events if e.kind == "setattr" and e.name == "socket"]
        if len(s) != 1: return "the receiver does not use the new socket"
    def makes(p):
        s = sets(p)
        if len(s) != 1 or strip(s[0][1].args[0])[0] != "new": return "no new receiver is made"
    rec = "self.__receiver"
    c.each(r.v + ".session.kept", f, ["not " + clean, rec + " is not None"], keeps)
    c.each(r.v + ".session.fresh", f, [clean], makes)

def asked(c, r):
    "the bytes sent for the calls of an application, against the standard's"
    cls, rc = c.P.cls(r.main, "Client"), c.P.cls(r.internal, "Receivers")
    five, fmt = r.b.five, "mqtt.formats." + ("MQTTV5.MQTTV5" if r.b.five else "MQTTV311.MQTTV311")
    s16 = lambda x: len(x).to_bytes(2, "big") + x
    pr = b"\0" if five else b""
    whole = lambda first, body: bytes([first, len(body)]) + body
    F = c.fold(most=60, steps=400000)
    def go(f, name, args, kw):
        sent, sock = [], Model("socket", settimeout=lambda f, a, k: None, connect=lambda f, a, k: None, close=lambda f, a, k: None)
        def out(f, a, k): sent.append((sock, a[0])); return len(cells(a[0]))
        sock.attrs.update(send=out, sendall=out)
        f.stubs.update({"sendtosocket": lambda f, a, k: sent.append((a[0], a[1])), "socket.socket": lambda f, a, k: sock, "create_connection": lambda f, a, k: sock, "getPacket": lambda f, a, k: b"x", "start_new_thread": lambda f, a, k: 1,
                        "unpackPacket": lambda f, a, k: Model("answer", fh=Model("fh", PacketType=2, MessageType=2), returnCode=0, sessionPresent=False, flags=0, reasonCode=Model("code", value=0, getName=lambda f, a, k: "Success"))})
        o = f.new(cls, ["cl"], {})
        if name != "connect":
            x = f.new(rc, [sock], {})
            o.attrs.update({"_Client__receiver": x, "__receiver": x, "sock": sock})
        v = f.call(f.getattr(o, name), *[y(f) if callable(y) else y for y in args], **{k: y(f) if callable(y) else y for k, y in kw.items()})
        return v, sent, sock
    def option(q, n, a, h): return (lambda f: f.new(c.P.cls(fmt, "SubscribeOptions"), [], {"QoS": q, "noLocal": n, "retainAsPublished": a, "retainHandling": h})) if five else q
    fs = [("a/+", (1, True, False, 2)), ("b", (0, False, True, 0)), ("c/#", (2, False, False, 1))]
    opt = lambda q, n, a, h: bytes([q | (n << 2 | a << 3 | h << 4 if five else 0)])
    ID = lambda v: v.to_bytes(2, "big") if isinstance(v, int) and 0 < v < 65536 else b"??"
    cases = [("subscribe", ([n for n, _ in fs], lambda f: [option(*o)(f) if five else option(*o) for _, o in fs]), {}, lambda v: whole(0x82, ID(v) + pr + b"".join(s16(n.encode()) + opt(*o) for n, o in fs))),
             ("unsubscribe", (["a/+", "b"],), {}, lambda v: whole(0xa2, ID(v) + pr + s16(b"a/+") + s16(b"b")))]
    for q in (0, 1, 2):
        for ret in (False, True):
            for data in (b"pay", b"") + (("pay",) if five else ()):
                raw = data if isinstance(data, bytes) else data.encode()
                cases.append(("publish", ("t/u", data), {"qos": q, "retained": ret}, lambda v, q=q, ret=ret, raw=raw: whole(0x30 | q << 1 | ret, s16(b"t/u") + (ID(v) if q else b"") + pr + raw)))
    for clean in (False, True):
        for alive in (0, 61, 0x1234):
            for will in (None, (0, False), (1, True), (2, False), (0, True)):
                for user, pw in ((None, None), ("us", None), ("us", b"pw")):
                    if alive and (will or user) and not (alive == 61 and will == (1, True)): continue
                    kw = {("cleanstart" if five else "cleansession"): clean, "keepalive": alive}
                    fl, body = clean << 1, s16(b"cl")
                    if will:
                        kw.update(willFlag=True, willTopic="w/t", willMessage=b"wm", willQoS=will[0], willRetain=will[1])
                        fl |= 4 | will[0] << 3 | will[1] << 5; body += pr + s16(b"w/t") + s16(b"wm")
                    if user: kw["username"] = user; fl |= 128; body += s16(user.encode())
                    if pw: kw["password"] = pw; fl |= 64; body += s16(pw)
                    cases.append(("connect", (), kw, lambda v, fl=fl, body=body, alive=alive: whole(0x10, s16(b"MQTT") + bytes([5 if five else 4, fl]) + alive.to_bytes(2, "big") + pr + body)))
    bad = {}
    for name, args, kw, want in cases:
        rs = F.run(lambda f: go(f, name, args, kw)); c.count("calls of an application folded")
        for v, _, _ in rs:
            if isinstance(v, Lost): raise v
            if not isinstance(v, tuple): bad.setdefault(name, "%s(%s): %s" % (name, kw, say(v))); continue
            v, sent, sock = v
            if len(sent) != 1 or sent[0][0] is not sock: bad.setdefault(name, "%d packets are sent for %s(%s)" % (len(sent), name, kw)); continue
            got, exp = sent[0][1], want(v)
            if name == "publish" and kw["qos"] == 0: pass
            try: g = bytes(cells(got))
            except TypeError: raise Lost("what is sent is not known")
            if g != exp: bad.setdefault(name, "for %s(%s), %s is sent instead of %s" % (name, ", ".join("%s=%r" % x for x in kw.items()), g.hex(" "), exp.hex(" ")))
    for name in ("connect", "subscribe", "unsubscribe", "publish"):
        fn = cls.find(name)
        c.ob("%s.asked.%s" % (r.v, name), name not in bad, "%s:%d: Client.%s" % (cls.module.rel, fn.node.lineno, name), bad.get(name, ""))
