"""Keep alive: silent clients are cut off after one and a half times their keep alive time, others never."""
import ast
from ..brokers import both
from ..query import *
from ..terms import *
from .c18 import accepted, cases, connecting, me
from .c08 import handler
from .c20 import TYPES

CL = "self.clients[sock]"

def clock(t):
    t = strip(t)
    return t[0] in ("call", "ret") and isinstance(t[1], str) and t[1].split(".")[-1] in ("monotonic", "time", "perf_counter", "process_time") and t[1].split(".")[-1]

def check(c):
    c.rule("cut", "a client with a keep alive time whose last packet is more than one and a half times that long ago is disconnected with its will, and only such a client")
    c.rule("last", "the time of the last packet is set by the same clock, after each packet of the client that was handled and by nothing else")
    c.rule("effective", "the keep alive time of a connection is that of its CONNECT, or the smaller one of the broker, which is announced exactly then")
    c.rule("looked-at", "while nothing arrives each second both brokers look at the connection")
    for b in both(c):
        c.part(b.v + ".cut", cut, c, b)
        effective(c, b)
    handler(c, ("passed", "idle"))

def cut(c, b):
    v = b.v
    ka = b.fn("MQTTBrokers.keepalive", ["MQTTBrokers.disconnect"])
    conn = ["sock in self.clients", CL + " is not None", CL + ".lastPacket is not None"]
    end = "self.disconnect(sock, ...)"
    c.never(v + ".cut.not-connected", ka, ["sock not in self.clients"], "self.disconnect(_, ...)")
    c.never(v + ".cut.none", ka, conn + [CL + ".keepalive == 0"], "self.disconnect(_, ...)")
    last, time = norm(ka.T(CL + ".lastPacket")), norm(ka.T(CL + ".keepalive"))
    used, seen = set(), [0]
    def right(p):
        gone = p.find("self.disconnect(_, ...)")
        if len(gone) > 1: return "it is disconnected %d times" % len(gone)
        if gone and strip(gone[0].ev.args[0]) != ("param", "sock"): return "another client is disconnected"
        if gone and not p.find("self.disconnect(sock, _, sendWillMessage=True)" if b.five else "self.disconnect(sock, _, terminate=True)"): 
            e = gone[0].ev
            w = [x for n, x in e.kw if n in ("sendWillMessage", "terminate")] or list(e.args[2:3])
            if not w or w[0] not in (TRUE, const(1)): return "it is disconnected without its will"
        lins = []
        for k, d in p.conds.items():
            if k[0] not in ("v", "d"): continue
            base, terms = to_lin(k[1])
            if any(clock(t) for t in terms): lins.append((k[1], base, terms, d))
        if not lins: return "it is disconnected whatever the time" if gone else "it stays connected whatever the time"
        if len(lins) > 1: return None
        t, base, terms, d = lins[0]
        cf = {"clock": 0, "last": 0, "time": 0}
        for x, n in terms.items():
            if clock(x): cf["clock"] += n; used.add(clock(x))
            elif norm(x) == last: cf["last"] += n
            elif norm(x) == time: cf["time"] += n
            else: return "it depends on %s" % show(x)
        s = cf["clock"]
        if not s: return None
        if base or abs(cf["last"] / s + 1) > 1e-9 or abs(cf["time"] / s + 1.5) > 1e-9: return "the condition is on %s" % show(t)
        if not used <= {"monotonic", "perf_counter"}: return "the time is that of a clock (%s) which may be set, or stands still" % ", ".join(used)
        seen[0] += 1
        # the condition says where clock - last - 1.5*time is, times s
        lo, hi = getattr(d, "lo", None), getattr(d, "hi", None)
        lo = -INF if lo is None else lo; hi = INF if hi is None else hi
        if s < 0: lo, hi = -hi, -lo
        if gone and not lo >= 0: return "it is disconnected before the time is over"
        if not gone and not hi <= 0: return "it stays connected although the time is over"
    on = conn + [CL + ".keepalive > 0"]
    c.each(v + ".cut.when", ka, on, right)
    c.ob(v + ".cut.looked-at", seen[0] >= 2, ka.where, "" if seen[0] >= 2 else "the time of the last packet is not compared with the keep alive time")
    # the last packet
    hp = b.fn("MQTTBrokers.handlePacket", ["MQTTBrokers." + x for x in ("connect", "disconnect", "publish", "subscribe", "unsubscribe", "puback", "pubrec", "pubrel", "pubcomp", "pingreq")])
    def stamped(p):
        if p.raised is not None: return
        s = p.find("SET(self.clients[sock].lastPacket, v_t)")
        if not s: return "the time of the packet is not noted"
        ck = clock(s[-1].b["v_t"])
        if not ck: return "the time noted is %s" % show(s[-1].b["v_t"])
        if used and ck not in used: return "it is noted by another clock (%s) than the one looked at (%s)" % (ck, ", ".join(used))
    c.each(v + ".last.stamped", hp, ["sock in self.clients"], stamped)
    # who writes it: by what the analysis calls it
    fields = {"lastPacket"}
    bad, n = [], 0
    for m in {b.func("MQTTBrokers.keepalive").module, b.func("Brokers.publish").module}:
        for x in ast.walk(m.tree):
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)): continue
            for y in ast.walk(x):
                if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr in fields:
                    n += 1
                    ok = x.name in receiving(m) or x.name == "__init__"
                    if not ok: bad.append("%s:%d: %s sets it, and is not only run for a packet received" % (m.rel, y.lineno, x.name))
    c.count("sites that set the time", n)
    c.ob(v + ".last.only", not bad, ka.where, "; ".join(bad[:3]))

def receiving(m):
    "functions of the module which only run for a packet that was received: those that handle requests, and what is only called from them"
    calls = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.FunctionDef):
            for y in ast.walk(x):
                if isinstance(y, ast.Call):
                    n = y.func.attr if isinstance(y.func, ast.Attribute) else y.func.id if isinstance(y.func, ast.Name) else None
                    if n: calls.setdefault(n, set()).add(x.name)
    ok = {"handlePacket", "handleRequest"}
    for k in m.tree.body: # the handlers of the packet types, which handlePacket calls by name
        if isinstance(k, ast.ClassDef) and any(isinstance(x, ast.FunctionDef) and x.name == "handlePacket" for x in k.body): ok |= {x.name for x in k.body if isinstance(x, ast.FunctionDef)} & set(TYPES)
    more = True
    while more:
        more = False
        for n, by in calls.items():
            if n not in ok and by and by <= ok and any(isinstance(x, ast.FunctionDef) and x.name == n for x in ast.walk(m.tree)): ok.add(n); more = True
    return ok

def effective(c, b):
    v = b.v
    f = connecting(b, sets=["keepalive", "ServerKeepAlive"], about=["KeepAliveTimer", "serverKeepAlive", "keepalive"])
    K, S = "packet.KeepAliveTimer", b.opt("serverKeepAlive") if b.five else None
    def is_(expect, announced):
        def test(p):
            if me(p) is None: return
            x = p.heap.get((me(p), "keepalive"))
            if x is None: return "its keep alive time is that of its last connection"
            x = strip(x)
            if norm(x) != norm(f.T(expect)) and not (x[0] in ("call",) and x[1] == "min" and {norm(y) for y in x[2]} == {norm(f.T(K)), norm(f.T(S))}): return "its keep alive time is %s, expected %s" % (show(x), expect)
            if announced is None: return
            s = p.find("SET(_.ServerKeepAlive, v_t)")
            if announced and (not s or norm(s[-1].b["v_t"]) not in (norm(f.T(expect)), norm(x))): return "the keep alive time of the broker is not announced" if not s else "%s is announced" % show(s[-1].b["v_t"])
            if not announced and s: return "a keep alive time is announced which is not used"
        return test
    for name, g, resumed, clear in cases(b):
        g = accepted(b) + g
        if b.five:
            c.each(v + ".effective.client." + name, f, g + [K + " > 0", "%s > %s" % (S, K)], is_(K, False))
            c.each(v + ".effective.server." + name, f, g + [K + " > 0", "%s < %s" % (S, K)], is_(S, True))
            c.each(v + ".effective.none." + name, f, g + [K + " == 0"], is_(K, None))
        else: c.each(v + ".effective." + name, f, g, is_(K, None))
