import base64, hashlib
from ..fold import Fold, Raised, Lost, Endless, Sym, Bytes, BA, Obj, Model, ModelCall, Unclear, norm, cells, show
from ..world import Stream, unknown, remaining

GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
LISTEN = "mqtt.brokers.listeners.TCPListeners"

def say(v): return "%s is raised" % v.name if isinstance(v, Raised) else "an endless loop (%s)" % v if isinstance(v, Endless) else repr(v)[:80]
def no_packet(v): return v is None or isinstance(v, Raised)
def lost(rs):
    for r in rs:
        if isinstance(r[0], Lost): raise r[0]

def open_(t):
    "the socket is not a closed one"
    if t[0] == "==" and -1 in t[1:] and any(isinstance(x, tuple) and x and x[0] == ".find" for x in t[1:]): return True
    if t[0] == "in" and isinstance(t[1], str) and "closed" in t[1]: return False
    return None

def check(c):
    c.rule("whole", "a packet whose bytes arrive in any pieces is returned whole, and no byte behind it is read")
    c.rule("end", "wherever the stream ends, the read ends with an error or no packet, after finitely many reads")
    c.rule("length", "a length of more than four bytes is refused")
    c.rule("socket", "the buffering socket hands on the stream's bytes in order, each once, never more than asked for")
    c.rule("frames", "a websocket frame is read with its length and mask, pings are answered, and what is sent is framed as RFC 6455 says for every size")
    c.rule("handler", "the connection handler passes the whole stream to the broker of the CONNECT's version and closes the connection when it ends")
    for v, m in (("V5", "mqtt.formats.MQTTV5.MQTTV5"), ("V311", "mqtt.formats.MQTTV311.MQTTV311")): reader(c, v, c.P.func(m, "getPacket"), mqtt)
    reader(c, "SN", c.P.func("mqtt.formats.MQTTSN.MQTTSN", "getPacket"), sn)
    sockets(c)
    handler(c)

def mqtt(n): return (0x30,) + remaining(n)
def sn(n): return ((n + 1,) if n + 1 < 256 else (1, (n + 3) // 256, (n + 3) % 256))

def reader(c, v, fn, head):
    where = "%s:%d: getPacket" % (fn.module.rel, fn.node.lineno)
    F = c.fold(oracle=open_, most=3000)
    def ways(cs, **k):
        def go(f):
            s = Stream(cs, **k); r = f.call(fn, s.model)
            return r, s.pos
        c.count("reads folded"); rs = F.run(go); lost(rs); return rs
    sizes = [1, 2, 3, 127, 254, 255, 300, 65000] if head is sn else [0, 1, 2, 3, 127, 128, 129, 300, 16383, 16384, 2097152]
    def whole():
        bad = []
        for n in sizes:
            h = head(n); body = unknown("body", n) if n < 1000 else tuple(i * 7 % 251 for i in range(n))
            p = h + body; tail = unknown("next", 5) if n < 1000 else (1, 2, 3)
            for r, _, _ in ways(p + tail, splits=4 if n < 1000 else 2 if n < 20000 else 0):
                if not isinstance(r, tuple): bad.append("a packet of %d bytes: %s" % (len(p), say(r)))
                elif not isinstance(r[0], (bytes, Bytes)): bad.append("a packet of %d bytes: the result is %r" % (len(p), r[0]))
                elif r[1] != len(p): bad.append("a packet of %d bytes: %d bytes are read" % (len(p), r[1]))
                elif cells(r[0]) != p: bad.append("a packet of %d bytes: the result is not the packet" % len(p))
                if bad: break
        c.ob("%s.whole" % v, not bad, where, "; ".join(bad[:3]))
    c.part(v + ".whole", whole)
    def end():
        bad = []
        for n in ((1, 5, 300) if head is sn else (0, 1, 5, 130, 20000)):
            p = head(n) + (unknown("body", n) if n < 1000 else (7,) * n)
            for t in range(len(p)) if len(p) < 140 else list(range(8)) + [len(p) // 2, len(p) - 1]:
                for r, _, _ in ways(p[:t], splits=2):
                    if not no_packet(r[0] if isinstance(r, tuple) else r): bad.append("%d of %d bytes, then the end of the stream: %s" % (t, len(p), say(r[0] if isinstance(r, tuple) else r)))
                if len(bad) > 2: break
        c.ob("%s.end" % v, not bad, where, "; ".join(bad[:3]))
    c.part(v + ".end", end)
    def length():
        if head is sn: return
        bad = []
        for h in ((0x80,) * 4 + (0,), (0x80,) * 4 + (1,), (0xff,) * 4 + (0x7f,), (0x80,) * 5 + (1,), (0xff,) * 9):
            for r, _, _ in ways((0x30,) + h + (7,) * 300, splits=0):
                if not no_packet(r[0] if isinstance(r, tuple) else r): bad.append("a length of %d bytes is accepted" % len(h))
        c.ob("%s.length" % v, not bad, where, "; ".join(bad[:3]))
    c.part(v + ".length", length)

def xor(a, b):
    return {Sym(("^", a.term, b.term), int), Sym(("^", b.term, a.term), int)} if isinstance(a, Sym) and isinstance(b, Sym) else {a ^ b}
def frame(payload, op=2, mask=None, fin=True, form=None, masked=True):
    n = len(payload); form = form or (0 if n < 126 else 2 if n < 65536 else 8)
    ln = (n,) if form == 0 else ((126,) + tuple(n.to_bytes(2, "big")) if form == 2 else (127,) + tuple(n.to_bytes(8, "big")))
    return ((0x80 if fin else 0) | op, ln[0] | (0x80 if masked else 0)) + ln[1:] + (tuple(mask) if masked else ()) + tuple(payload)

def sockets(c):
    cls = c.P.cls(LISTEN, "BufferedSockets"); where = "%s: class BufferedSockets" % cls.module.rel
    F = c.fold(oracle=open_, most=3000, steps=12000000)
    def make(f, s, ws=False):
        o = f.apply(cls, [s.model], {})
        if ws: f.setattr(o, "websockets", True)
        return o
    def ways(what): c.count("socket uses folded"); rs = F.run(what); lost(rs); return rs
    def recv(f, o, n): 
        r = f.call(f.getattr(o, "recv"), n)
        if not isinstance(r, (bytes, Bytes)): raise Unclear("recv gives %r" % (r,))
        return cells(r)
    def plain():
        bad = []; data = unknown("d", 24)
        def go(f):
            s = Stream(data, splits=5); o = make(f, s); got, asked, done = [], 0, ()
            def take(n):
                r = recv(f, o, n)
                if len(r) > n: bad.append("recv(%d) gives %d bytes" % (n, len(r)))
                return r
            a = take(1); f.call(f.getattr(o, "rebuffer"), norm(Bytes(a)))
            if not f.truth(f.call(f.getattr(o, "pending"))): bad.append("bytes put back are not pending")
            done += take(1); a = take(4); b = take(3)
            f.call(f.getattr(o, "rebuffer"), norm(Bytes(a + b)))
            for n in (2, 9, 1, 30, 30):
                r = take(n); done += r
                if not r and len(done) < len(data): bad.append("the end of the stream is reported after %d of %d bytes" % (len(done), len(data)))
            for _ in range(8): done += take(30)
            end = recv(f, o, 5)
            return done, end
        for r, _, _ in ways(go):
            if not isinstance(r, tuple): bad.append(say(r))
            elif r[0] != data: bad.append("the bytes arrive as %r" % (Bytes(r[0][:12]),))
            elif r[1]: bad.append("there is something behind the end")
        c.ob("socket.plain", not bad, where, "; ".join(bad[:3]))
    c.part("socket.plain", plain)
    def frames(known):
        bad = []
        for n in (0, 1, 2, 5, 125, 126, 127, 128, 255, 256, 300, 65535, 65536, 65537):
            big = n > 1000
            if big and not known: break
            big = known
            pay = tuple(i * 5 % 241 for i in range(n)) if big else unknown("p", n)
            mask = (17, 34, 68, 136) if big else unknown("m", 4)
            p2, m2 = ((9, 200, 33), (1, 2, 4, 8)) if big else (unknown("q", 3), unknown("k", 4))
            def go(f):
                s = Stream(frame(pay, mask=mask) + frame(p2, mask=m2), splits=0 if n > 1000 else 1 if big else 3); o = make(f, s, True)
                out = ()
                while len(out) < n:
                    r = recv(f, o, min(n if big else max(1, n // 2), n - len(out)))
                    if not r: return out, s.sent
                    out += r
                while len(out) < n + 3:
                    r = recv(f, o, 1)
                    if not r: break
                    out += r
                return out, s.sent
            want = [xor(p, mask[i % 4]) for i, p in enumerate(pay)] + [xor(p, m2[i]) for i, p in enumerate(p2)]
            for r, _, _ in ways(go):
                if not isinstance(r, tuple): bad.append("a frame of %d bytes: %s" % (n, say(r)))
                elif len(r[0]) != len(want) or any(x not in w for x, w in zip(r[0], want)): bad.append("a frame of %d bytes is read wrongly" % n)
                elif r[1]: bad.append("something is sent while a frame is read")
                if bad: break
        c.ob("frames.%s" % ("sizes" if known else "read"), not bad, where, "; ".join(bad[:3]))
    c.part("frames.sizes", frames, True); c.part("frames.read", frames, False)
    def control():
        bad = []; pay, mask = unknown("p", 4), unknown("m", 4)
        want = [xor(p, mask[i % 4]) for i, p in enumerate(pay)]
        for op, cp in ((9, unknown("c", 3)), (9, ()), (9, unknown("c", 125)), (10, unknown("c", 3)), (10, ())):
            cm = unknown("n", 4)
            for mid in (False, True):
                def go(f):
                    ctl = frame(cp, op, cm)
                    s = Stream((frame(pay[:2], mask=mask, fin=False) + ctl + frame(pay[2:], 0, mask[2:] + mask[:2])) if mid else (ctl + frame(pay, mask=mask)), splits=2)
                    o = make(f, s, True); out = ()
                    while len(out) < 4:
                        r = recv(f, o, 4 - len(out))
                        if not r: break
                        out += r
                    return out, tuple(s.sent)
                pong = [xor(p, cm[i % 4]) for i, p in enumerate(cp)]
                for r, _, _ in ways(go):
                    if not isinstance(r, tuple): bad.append("%s among the data: %s" % ("ping" if op == 9 else "pong", say(r)))
                    elif len(r[0]) != 4 or any(x not in w for x, w in zip(r[0], want)): bad.append("%s changes the data" % ("ping" if op == 9 else "pong"))
                    elif op == 10 and r[1]: bad.append("a pong is answered")
                    elif op == 9 and (r[1][:2] != (0x8a, len(cp)) or len(r[1]) != len(cp) + 2 or any(x not in w for x, w in zip(r[1][2:], pong))): bad.append("a ping is answered with %r" % (Bytes(r[1][:8]),))
        c.ob("frames.control", not bad, where, "; ".join(bad[:3]))
        bad = []
        for what, fr in (("a close frame", frame((), 8, mask)), ("a close frame with a reason", frame(unknown("c", 2), 8, mask)), ("an unmasked frame", frame(pay, masked=False))):
            def go(f):
                s = Stream(fr, splits=2); o = make(f, s, True); return recv(f, o, 4)
            for r, _, _ in ways(go):
                if not isinstance(r, Raised) and r != (): bad.append("%s: %s" % (what, say(r)))
        c.ob("frames.refused", not bad, where, "; ".join(bad[:3]))
    c.part("frames.control", control)
    def end():
        bad = []
        for n in (0, 2, 130):
            fr = frame(unknown("p", n), mask=unknown("m", 4))
            for t in list(range(min(len(fr), 14))) + ([len(fr) - 1] if len(fr) > 14 else []):
                def go(f):
                    s = Stream(fr[:t], splits=2); o = make(f, s, True); return recv(f, o, 1)
                for r, _, _ in ways(go):
                    if not isinstance(r, Raised) and r != (): bad.append("%d of %d bytes of a frame, then the end of the stream: %s" % (t, len(fr), say(r)))
        c.ob("frames.end", not bad, where, "; ".join(bad[:3]))
    c.part("frames.end", end)
    def send(ws):
        bad = []
        for n in (1, 2, 125, 126, 127, 255, 256, 65535, 65536, 70000):
            pay = tuple(i * 5 % 241 for i in range(n)) if n > 1000 else unknown("p", n)
            def go(f):
                s = Stream((), cut_send=2); o = make(f, s, ws); f.call(f.getattr(o, "send"), norm(Bytes(pay))); return tuple(s.sent)
            want = (frame(pay, masked=False) if ws else pay)
            for r, _, _ in ways(go):
                if r != want: bad.append("%d bytes: %s" % (n, say(r) if not isinstance(r, tuple) else "%d bytes are sent, starting %r" % (len(r), Bytes(r[:10]))))
                if bad: break
        c.ob("send.%s" % ("frames" if ws else "plain"), not bad, where, "; ".join(bad[:3]))
    c.part("send.frames", send, True); c.part("send.plain", send, False)

CONNECT = {5: (0x10, 0x0d, 0, 4, 0x4d, 0x51, 0x54, 0x54, 5), 4: (0x10, 0x0c, 0, 4, 0x4d, 0x51, 0x54, 0x54, 4)}
def handler(c, only=None):
    m = c.P.mod(LISTEN); cls = c.P.cls(LISTEN, "WebSocketTCPHandler"); fn = c.P.func(LISTEN, "WebSocketTCPHandler.handle"); sb = c.P.func(LISTEN, "setBrokers")
    where = "%s:%d: WebSocketTCPHandler.handle" % (m.rel, fn.node.lineno)
    def sha1(f, a, k):
        d = a[0]
        if isinstance(d, BA): d = bytes(d.cells)
        if not isinstance(d, bytes): raise Unclear("digest of the unknown")
        return Model("sha1", digest=lambda f, a, k: hashlib.sha1(d).digest(), hexdigest=lambda f, a, k: hashlib.sha1(d).hexdigest())
    class Run:
        def __init__(self, f, stream, answers, idle=0, rude=False, quiet=0, total=0):
            self.s, self.took, self.idle, self.kept, self.answers, self.rude = stream, [], idle, [], list(answers), rude
            self.rounds, self.quiet, self.total, self.unread, self.left, self.waits = 0, quiet, total, [], None, []
            def handle(v):
                def h(f, a, k):
                    act = self.answers.pop(0) if self.answers else True
                    got = ()
                    n = act[1] if isinstance(act, tuple) else None
                    while n is None or len(got) < n:
                        r = f.call(f.getattr(a[0], "recv"), 1)
                        if not len(cells(r)): break
                        got += cells(r)
                    self.took.append((v, got))
                    act = act[0] if isinstance(act, tuple) else act
                    if isinstance(act, Raised): raise act
                    return act
                return h
            b3 = Model("broker3", handleRequest=handle(4), keepalive=lambda f, a, k: self.kept.append(4)); b5 = Model("broker5", handleRequest=handle(5), keepalive=lambda f, a, k: self.kept.append(5))
            def select(f, a, k):
                self.rounds += 1; self.waits.append(a[3] if len(a) > 3 else None)
                if self.rounds > 60: raise Endless("the connection is never left")
                if self.quiet and stream.pos >= len(stream.cells): # nothing arrives: only what the other end sends makes the socket ready
                    self.quiet -= 1
                    left = self.total - sum(len(g) for _, g in self.took)
                    if len(a) < 4 or a[3] != 0 or left == self.left: self.unread.append(left)
                    self.left = left
                    return ([], [], [])
                if self.idle: self.idle -= 1; return ([], [], [])
                return (list(a[0]), [], [])
            def shutdown(f, a, k): raise Raised(OSError("not connected"))
            if self.rude: stream.model.attrs["shutdown"] = shutdown
            f.stubs = {"select.select": select, "sha1": sha1, "b64encode": lambda f, a, k: base64.b64encode(bytes(cells(a[0])))}
            f.call(sb, b3, b5)
            f.memo[("%glob", m.name, "server")] = Model("server", terminate=False)
            self.h = Obj(cls); self.h.attrs["request"] = stream.model; self.h.attrs["client_address"] = ("c", 1)
        def go(self, f):
            try: f.call(fn, self.h)
            except Raised as e: self.out = e
            return self
    F = c.fold(oracle=open_, most=3000, steps=3000000)
    def ways(what):
        c.count("connections folded")
        rs = F.run(what); lost(rs)
        return [r[0] for r in rs]
    def passed():
        bad = []
        for v, p in CONNECT.items():
            data = p + unknown("rest", 9)
            for plan in ([True], [(False, 14), (False, 2), True], [(False, len(p) + 9), True]):
                for idle in (0, 2):
                    for r in ways(lambda f: Run(f, Stream(data, splits=3), plan, idle).go(f)):
                        if not isinstance(r, Run): bad.append(say(r)); continue
                        if any(x != v for x, _ in r.took): bad.append("a CONNECT of version %d goes to the other broker" % v)
                        elif sum((g for _, g in r.took), ()) != data: bad.append("the broker reads %r of the stream %r" % (Bytes(sum((g for _, g in r.took), ())[:14]), Bytes(data[:14])))
                        elif len(r.took) != len(plan): bad.append("%d requests are handled instead of %d" % (len(r.took), len(plan)))
                        elif not r.s.closed: bad.append("the connection is not closed at the end")
                        elif idle and not {4, 5} & set(r.kept): bad.append("keep alive is not looked at while nothing arrives")
        c.ob("handler.passed", not bad, where, "; ".join(bad[:3]))
    if not only or "passed" in only: c.part("handler.passed", passed)
    def idle():
        bad = []
        for v, p in CONNECT.items():
            for n in (0, 1, 3):
                for r in ways(lambda f: Run(f, Stream(p + (0,) * 6, splits=0), [(False, len(p)), True], n).go(f)):
                    if not isinstance(r, Run): bad.append(say(r)); continue
                    if any(not isinstance(t, (int, float)) or t > 1.5 for t in r.waits): bad.append("the connection may wait %s for data" % r.waits)
                    if r.kept.count(v) < n: bad.append("of %d times nothing arrived its broker looks at the connection %d times" % (n, r.kept.count(v)))
        c.ob("handler.idle", not bad, where, "; ".join(bad[:3]))
    if not only or "idle" in only: c.part("handler.idle", idle)
    def ends():
        bad = []
        for v, p in CONNECT.items():
            for t in range(len(p) + 1):
                for rude in (False, True):
                  for r in ways(lambda f: Run(f, Stream(p[:t], splits=2), [False] * 3 + [True], rude=rude).go(f)):
                    if not isinstance(r, Run): bad.append("%d bytes of a CONNECT, then the end of the stream: %s" % (t, say(r)))
                    elif not r.s.closed: bad.append("the connection is not closed after %d bytes of a CONNECT and the end of the stream" % t)
        for p in ((0x20, 2, 0, 0), (0xc0, 0), (0,), (0x10, 0x0c, 0, 4, 0x4d, 0x51, 0x54, 0x54, 9, 2, 0, 0), (0x10, 12, 0, 6, 1, 2, 3, 4, 5, 6, 3, 7, 7)):
            for r in ways(lambda f: Run(f, Stream(p, splits=1), [True]).go(f)):
                if not isinstance(r, Run): bad.append("%r: %s" % (Bytes(p), say(r)))
                elif not r.s.closed: bad.append("the connection is not closed after %r" % (Bytes(p),))
                elif r.took: bad.append("%r is given to a broker" % (Bytes(p),))
        c.ob("handler.ends", not bad, where, "; ".join(bad[:3]))
    if not only or "ends" in only: c.part("handler.ends", ends)
    def errors():
        bad = []
        X5, X3 = c.P.cls("mqtt.formats.MQTTV5.MQTTV5", "MQTTException"), c.P.cls("mqtt.formats.MQTTV311.MQTTV311", "MQTTException")
        def exc(f, k):
            if k in ("V5", "V3"): return Raised(f.new(X5 if k == "V5" else X3, ["text"], {}))
            return Raised(k())
        for k in ("V5", "V3", AssertionError, UnicodeError, TimeoutError, ConnectionError, OSError, ValueError, KeyError, IndexError):
            for r in ways(lambda f: Run(f, Stream(CONNECT[5] + (0,) * 4, splits=0), [exc(f, k), True]).go(f)):
                if not isinstance(r, Run): bad.append("%s from the broker: %s" % (k, say(r)))
                elif not r.s.closed: bad.append("the connection is not closed after %s" % k)
                elif len(r.took) != 1: bad.append("the connection is served on after %s" % k)
        c.ob("handler.errors", not bad, where, "; ".join(bad[:3]))
    if not only or "errors" in only: c.part("handler.errors", errors)
    def upgrade():
        bad = []; key = b"dGhlIHNhbXBsZSBub25jZQ=="
        want = base64.b64encode(hashlib.sha1(key + GUID).digest())
        for name in (b"Sec-WebSocket-Key", b"sec-websocket-key"):
            req = b"GET /mqtt HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\n" + name + b": " + key + b"\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n"
            pay = CONNECT[5] + tuple(range(6)); mask = (1, 2, 3, 4)
            data = tuple(req) + frame([p ^ mask[i % 4] for i, p in enumerate(pay)], mask=mask)
            for splits in (0, 2):
                for r in ways(lambda f: Run(f, Stream(data, splits=splits), [(True, len(pay))]).go(f)):
                    if not isinstance(r, Run): bad.append(say(r)); continue
                    head, _, rest = bytes(r.s.sent).partition(b"\r\n\r\n") if all(isinstance(x, int) for x in r.s.sent) else (b"", 0, 0)
                    lines = head.split(b"\r\n"); hs = {l.split(b":")[0].strip().lower(): l.split(b":", 1)[1].strip() for l in lines[1:] if b":" in l}
                    if b"\r\n\r\n" not in bytes(r.s.sent) or not lines[0].startswith(b"HTTP/1.1 101") or hs.get(b"sec-websocket-accept") != want or hs.get(b"upgrade", b"").lower() != b"websocket" or hs.get(b"connection", b"").lower() != b"upgrade" or hs.get(b"sec-websocket-protocol") != b"mqtt" or rest:
                        bad.append("the upgrade is answered with %r" % bytes(head[:200]))
                    elif [g for _, g in r.took] != [pay]: bad.append("after the upgrade the broker reads %r" % ([Bytes(g[:12]) for _, g in r.took],))
                    elif not r.s.closed: bad.append("the connection is not closed at the end")
        n = len(CONNECT[5])
        for r in ways(lambda f: Run(f, Stream(data, splits=1), [(False, n), (False, 4), (True, 2)], quiet=6, total=len(pay)).go(f)):
            if not isinstance(r, Run): bad.append(say(r))
            elif any(x > 0 for x in r.unread): bad.append("packets that came in one frame with another wait for the network")
            elif sum((g for _, g in r.took), ()) != pay: bad.append("of several packets in a frame the broker reads %r" % ([Bytes(g[:12]) for _, g in r.took],))
        req = b"GET / HTTP/1.1\r\nHost: h\r\n"
        for t in (1, 3, 20, len(req)):
            for r in ways(lambda f: Run(f, Stream(tuple(req[:t]), splits=1), [True]).go(f)):
                if not isinstance(r, Run): bad.append("the end of the stream within the upgrade: %s" % say(r))
                elif not r.s.closed or r.took: bad.append("the end of the stream within the upgrade does not close the connection")
        c.ob("handler.upgrade", not bad, where, "; ".join(bad[:3]))
    if not only or "upgrade" in only: c.part("handler.upgrade", upgrade)
