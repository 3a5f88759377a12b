from ..fold import Fold, Raised, Lost, Endless, Sym, Bytes, BA, Obj, Model, Unclear, norm, cells, show
from ..world import Stream, unknown, remaining

PROXIES = {"proxy": ("mqtt.proxy.mqttsas", "MyHandler"), "window": ("mqtt.proxy.wmqttsas", "MyHandler"), "restart": ("mqtt.restart.netproxy", "MQTTHandler")}
def say(v): return "%s is raised" % v.name if isinstance(v, Raised) else "an endless loop (%s)" % v if isinstance(v, Endless) else repr(v)[:80]

CONNECT = (0x10, 0x0e, 0, 4, 0x4d, 0x51, 0x54, 0x54, 4, 2, 0, 60, 0, 2, 0x61, 0x62)
CONNECT5 = (0x10, 0x10, 0, 4, 0x4d, 0x51, 0x54, 0x54, 5, 2, 0, 60, 0, 0, 3, 0x61, 0x62, 0x63)
PUBLISH = (0x32, 0x07, 0, 1, 0x61, 0, 9, 0x62, 0x63)
ODD = (0x3b, 0x87, 0x00, 0, 1, 0x61, 0, 9, 0x62, 0x63)          # a length written with more bytes than needed
NONSENSE = (0xf7, 0x03, 0xff, 0xfe, 0xfd)                       # nothing that can be shown
CONNACK = (0x20, 2, 0, 0)
PUBACK = (0x40, 2, 0, 9)
def pub(topic, data): return (0x30, 2 + len(topic) + len(data), 0, len(topic)) + tuple(topic) + tuple(data)
TO_BROKER = (CONNECT, (0xc0, 0), (0x82, 6, 0, 1, 0, 1, 0x61, 1), (0xa2, 5, 0, 2, 0, 1, 0x61), (0x34, 6, 0, 1, 0x61, 0, 3, 0x62), (0x62, 2, 0, 3), (0x40, 2, 0, 4), (0x50, 2, 0, 5), (0x70, 2, 0, 5),
             pub(b"MQTTSAS topics", b"TERMINATE"), pub(b"MQTTSAS topic", b"TERMINATED"), (0x30, 3, 0, 1, 0x61), (0xe0, 0))
TO_CLIENT = (CONNACK, (0xd0, 0), (0x90, 3, 0, 1, 1), (0xb0, 2, 0, 2), (0x50, 2, 0, 3), (0x70, 2, 0, 3), (0x33, 6, 0, 1, 0x61, 0, 4, 0x62), (0x3c, 6, 0, 1, 0x61, 0, 5, 0x62), (0x62, 2, 0, 5), pub(b"MQTTSAS topic", b"TERMINATE"), (0xe0, 0))
LONG = (0x30,) + remaining(300) + unknown("p", 300)

def terminate(t):
    "the way a test asks for the connection to be cut (a topic of its own) is left out"
    def has(x, s): return x == s or isinstance(x, tuple) and any(has(y, s) for y in x)
    if t[0] == "==" and has(t, "MQTTSAS topic"): return False
    if t[0] == "in" and "closed" in t[1:]: return False
    if t[0] == "==" and -1 in t[1:] and any(isinstance(x, tuple) and x and x[0] == ".find" for x in t[1:]): return True
    return None

class Conn:
    "one connection through a proxy"
    def __init__(self, f, cls, c2b, b2c, splits, after=None, cut=2):
        self.c = Stream(c2b, "client", splits, after, cut); self.b = Stream(b2c, "broker", splits, after, cut)
        self.h = Obj(cls); self.h.attrs.update(request=self.c.model, client_address=("c", 1))
        self.ended = False
    def ready(self, s): return s.pos < len(s.cells)

class Run:
    def __init__(self, f, c, key, conns, shown, calm=False):
        self.f, self.conns, self.now, self.waits, self.calm = f, conns, None, 0, calm
        m, cn = PROXIES[key]; self.mod = c.P.mod(m)
        self.socks = {id(s.model): (s, k) for k in conns for s in (k.c, k.b)}
        def socket(f, a, k): return self.now.b.model
        f.stubs = {"select.select": self.select, "socket.socket": socket, "create_connection": lambda f, a, k: self.now.b.model, "timestamp": lambda f, a, k: "now"}
        if shown is not None: f.stubs["unpackPacket"] = self.show; self.shown = shown
        for n, v in (("brokerhost", "h"), ("brokerport", 1883), ("myport", 1884), ("myWindow", Model("window", **{"*": lambda f, a, k: None})), ("control_broker", None)): f.memo[("%glob", self.mod.name, n)] = v
    def show(self, f, a, k):
        "a packet that can be shown is not repacked: what it would be packed to differs from what came"
        if not self.calm and f.choose("show", [True, False]) is False: raise Raised(ValueError("malformed"))
        return Model("packet", fh=Model("header", MessageType=3 if self.shown == "PUBLISH" else 1, PacketType=3), topicName="t", data=b"d", ClientIdentifier="x", pack=lambda f, a, k: norm(Bytes(unknown("repacked", 9))))
    def select(self, f, a, k):
        self.waits += 1
        if self.waits > 60: raise Endless("nothing more is read")
        on = list(a[0])
        for s in on:
            if id(s) not in self.socks: raise Unclear("select on %r" % (s,))
            if self.socks[id(s)][0].closed: raise Raised(ValueError("file descriptor cannot be a negative integer (-1)"))
        gone = [self.socks[id(s)][0].model.name for s in on if self.socks[id(s)][0].empty]
        if gone: raise Endless("the %s has closed, and the other side stays open" % gone[0])
        # another connection is served while this one waits
        for k in self.conns:
            if k.h is not None and not k.ended and k is not self.now and self.now is self.conns[0] and self.waits > 1: self.serve(k)
        live = [s for s in on if self.socks[id(s)][0].pos < len(self.socks[id(s)][0].cells)]
        if len(live) == 2 and not (self.calm and self.now is not self.conns[0]): live = f.choose("ready", [live, live[:1], live[1:]])
        if not live:
            left = [s for s in on if not self.socks[id(s)][0].empty]
            if not left: raise Endless("the end of both streams is not noticed")
            live = left if len(left) == 1 or self.calm else f.choose("end", [left[:1], left[1:]])
        return (live, [], [])
    def serve(self, k):
        was, self.now = self.now, k
        k.ended = True
        cls = k.h.cls
        try: self.f.call(self.f.getattr(k.h, "handle"))
        except Raised as e: k.out = e
        k.c.closed = True                              # the server closes the request when the handler returns
        self.now = was
    def go(self):
        self.serve(self.conns[0])
        return self

def check(c):
    c.rule("passed", "every byte read from one side is sent to the other, once and in order, whether or not the packet can be shown, and nothing else is")
    c.rule("closed", "when one side has closed, both are closed, and what came from it before has been passed on")
    c.rule("own peer", "bytes of one connection never go to another's sockets, also when several are served at a time")
    for key, (m, cn) in PROXIES.items():
        cls = c.P.cls(m, cn); fn = cls.find("handle"); where = "%s:%d: %s.handle" % (cls.module.rel, fn.node.lineno, cn)
        F = c.fold(oracle=terminate, most=6000, steps=3000000)
        def ways(what):
            rs = F.run(what); c.count("connections folded", len(rs))
            for r in rs:
                if isinstance(r[0], Lost): raise r[0]
            return rs
        def got(bad, r, conns_of=None):
            if not isinstance(r, Run): bad.append(say(r)); return False
            return True
        def flow():
            bad, unclosed = [], []
            for up, down, shown, splits in (((CONNECT, PUBLISH), (CONNACK,), None, 0), ((CONNECT5, ODD), (CONNACK, PUBACK), None, 0), ((CONNECT, NONSENSE, PUBLISH), (NONSENSE, CONNACK), None, 0),
                                            ((LONG,), (LONG,), "PUBLISH", 1), ((CONNECT,), (CONNACK,), "CONNECT", 3), ((PUBLISH, PUBACK), (), "PUBLISH", 2), ((), (CONNACK, PUBLISH), "PUBLISH", 2), ((), (), None, 0)):
                u, d = sum(up, ()), sum(down, ())
                for r, asked, _ in ways(lambda f: Run(f, c, key, [Conn(f, cls, u, d, splits)], shown).go()):
                    if not got(bad, r): continue
                    k = r.conns[0]
                    for s, o, name in ((k.c, k.b, "client"), (k.b, k.c, "broker")):
                        if tuple(o.sent) != s.cells[:s.pos]: bad.append("of the %d bytes %r read from the %s, %r is passed on" % (s.pos, Bytes(s.cells[:min(s.pos, 12)]), name, Bytes(o.sent[:12])))
                    if not k.b.closed: unclosed.append("the connection to the broker is left open")
                    if not (k.c.empty or k.b.empty): bad.append("the connection is ended before either side closes, after %d and %d bytes" % (k.c.pos, k.b.pos))
                    for s, name in ((k.c, "client"), (k.b, "broker")):
                        if s.empty and s.pos < len(s.cells): bad.append("bytes before the end of the stream from the %s are lost" % name)
                if len(bad) > 3: break
            for up, down in ((TO_BROKER, ()), ((), TO_CLIENT), ((CONNECT5, (0xc0, 0), (0xe0, 2, 0, 0), (0xf0, 2, 0, 0)), ())):   # every type of packet there is
                for r, asked, _ in ways(lambda f: Run(f, c, key, [Conn(f, cls, sum(up, ()), sum(down, ()), 0)], None, calm=True).go()):
                    if not got(bad, r): continue
                    k = r.conns[0]
                    for s, o, name, ps in ((k.c, k.b, "client", up), (k.b, k.c, "broker", down)):
                        if tuple(o.sent) == s.cells: continue
                        n = next((i for i in range(len(s.cells)) if tuple(o.sent[:i + 1]) != s.cells[:i + 1]), len(s.cells))
                        bad.append("of the packets from the %s, those up to %d bytes are passed on, then %r instead of %r" % (name, n, Bytes(o.sent[n:n + 6]), Bytes(s.cells[n:n + 6])))
            c.ob(key + ".passed", not bad, where, "; ".join(bad[:2])); c.ob(key + ".closed", not unclosed, where, "; ".join(unclosed[:1]))
        c.part(key + ".passed", flow)
        def errors():
            bad = []
            for up, down in ((CONNECT + PUBLISH[:5], CONNACK), (CONNECT, CONNACK[:1]), (PUBLISH, CONNACK)):
                for exc in (ConnectionError("reset"), TimeoutError("timed out"), None):
                    for r, asked, _ in ways(lambda f: Run(f, c, key, [Conn(f, cls, up, down, 1, exc)], "PUBLISH").go()):
                        if not got(bad, r): continue
                        if not r.conns[0].b.closed: bad.append("the connection to the broker is left open after an error")
                        k = r.conns[0]
                        for s, o, name in ((k.c, k.b, "client"), (k.b, k.c, "broker")):
                            if tuple(o.sent) != s.cells[:len(o.sent)]: bad.append("%r is sent that was not received" % (Bytes(o.sent[:12]),))
            c.ob(key + ".errors", not bad, where, "; ".join(bad[:2]))
        c.part(key + ".errors", errors)
        def several():
            bad = []; P2 = (0x30, 0x05, 0, 1, 0x7a, 0x79, 0x78)
            for r, asked, _ in ways(lambda f: Run(f, c, key, [Conn(f, cls, CONNECT + PUBLISH, CONNACK, 0), Conn(f, cls, CONNECT5 + P2, CONNACK + PUBACK, 0)], "PUBLISH", True).go()):
                if not got(bad, r): continue
                for i, k in enumerate(r.conns):
                    for s, o, name in ((k.c, k.b, "client"), (k.b, k.c, "broker")):
                        if tuple(o.sent) != s.cells[:s.pos]: bad.append("with two connections, of the %d bytes read from the %s %s, %r is passed on to its peer" % (s.pos, ("first", "second")[i], name, Bytes(o.sent[:12])))
                    if not k.b.closed: bad.append("with two connections, one to the broker is left open")
            c.ob(key + ".several", not bad, where, "; ".join(bad[:2]))
        c.part(key + ".several", several)
