import ast, re
from ..fold import Fold, Raised, Sym, Bytes, Unclear, norm
from ..project import Func, Class
from .c04 import PK

T = """0 Success: CONNACK PUBACK PUBREC PUBREL PUBCOMP UNSUBACK AUTH
0 Normal disconnection: DISCONNECT
0 Granted QoS 0: SUBACK
1 Granted QoS 1: SUBACK
2 Granted QoS 2: SUBACK
4 Disconnect with will message: DISCONNECT
16 No matching subscribers: PUBACK PUBREC
17 No subscription found|No subscription existed: UNSUBACK
24 Continue authentication: AUTH
25 Re-authenticate: AUTH
128 Unspecified error: CONNACK PUBACK PUBREC SUBACK UNSUBACK DISCONNECT
129 Malformed packet: CONNACK DISCONNECT
130 Protocol error: CONNACK DISCONNECT
131 Implementation specific error: CONNACK PUBACK PUBREC SUBACK UNSUBACK DISCONNECT
132 Unsupported protocol version: CONNACK
133 Client identifier not valid: CONNACK
134 Bad user name or password: CONNACK
135 Not authorized: CONNACK PUBACK PUBREC SUBACK UNSUBACK DISCONNECT
136 Server unavailable: CONNACK
137 Server busy: CONNACK DISCONNECT
138 Banned: CONNACK
139 Server shutting down: DISCONNECT
140 Bad authentication method: CONNACK DISCONNECT
141 Keep alive timeout: DISCONNECT
142 Session taken over: DISCONNECT
143 Topic filter invalid: SUBACK UNSUBACK DISCONNECT
144 Topic name invalid: CONNACK PUBACK PUBREC DISCONNECT
145 Packet identifier in use: PUBACK PUBREC SUBACK UNSUBACK
146 Packet identifier not found: PUBREL PUBCOMP
147 Receive maximum exceeded: DISCONNECT
148 Topic alias invalid: DISCONNECT
149 Packet too large: CONNACK DISCONNECT
150 Message rate too high: DISCONNECT
151 Quota exceeded: CONNACK PUBACK PUBREC SUBACK DISCONNECT
152 Administrative action: DISCONNECT
153 Payload format invalid: CONNACK PUBACK PUBREC DISCONNECT
154 Retain not supported: CONNACK DISCONNECT
155 QoS not supported: CONNACK DISCONNECT
156 Use another server: CONNACK DISCONNECT
157 Server moved: CONNACK DISCONNECT
158 Shared subscription not supported: SUBACK DISCONNECT
159 Connection rate exceeded: CONNACK DISCONNECT
160 Maximum connect time: DISCONNECT
161 Subscription identifiers not supported: SUBACK DISCONNECT
162 Wildcard subscription not supported: SUBACK DISCONNECT"""
TABLE = []       # (number, names, packets)
for l in T.split("\n"):
    n, r = l.split(" ", 1); names, pk = r.split(": ")
    TABLE.append((int(n), names.split("|"), pk.split()))
def allowed(p): return {n: names for n, names, pk in TABLE if p in pk}
def plain(s): return re.sub(r"[^a-z0-9]", "", re.sub(r"s\b", "", s.lower()))
USED = [p for p in PK if allowed(p)]

def check(c):
    c.rule("numbers", "for each packet type, exactly the numbers 0..255 the standard lists for it are accepted, and each keeps its number")
    c.rule("names", "looking up by number and by name are inverse within a packet type; a name of another packet type, or no name at all, is refused")
    c.rule("used", "every reason code the MQTT 5 broker puts in a packet, as it reaches the packet through calls and exceptions, is listed for that packet type")
    M = "mqtt.formats.MQTTV5.MQTTV5"
    cls = c.P.cls(M, "ReasonCodes"); where = "%s: class ReasonCodes" % cls.module.rel
    F = c.fold()
    def ways(what):
        c.count("reason code tables folded"); return F.run(what)
    def good(rs): return [r[0] for r in rs if not isinstance(r[0], Raised)]
    def fresh(f, p): return f.apply(cls, [PK[p], allowed(p)[min(allowed(p))][0]] if min(allowed(p)) or p in ("DISCONNECT", "SUBACK") else [PK[p]], {})
    tail = Bytes([Sym(("$t", i), int) for i in range(3)])
    known = {}
    def first_name(p):
        "a name the class accepts for p, to make one with"
        for n, names in sorted(allowed(p).items()):
            for nm in names:
                if good(ways(lambda f: f.apply(cls, [PK[p], nm], {}))): return nm
        return None
    def name_of(f, r):
        try: return f.call(f.getattr(r, "getName"))
        except Raised: return None
    def numbers(p):
        start, w = first_name(p), allowed(p)
        if start is None: return c.ob("names.%s" % p, False, where, "none of the standard's names is accepted for %s" % p)
        bad, badn = [], []
        for n in range(256):
            def read(f):
                r = f.apply(cls, [PK[p], start], {}); k = f.call(f.getattr(r, "unpack"), norm(Bytes((n,) + tail.cells)))
                return k, f.getattr(r, "value"), name_of(f, r), f.call(f.getattr(r, "pack"))
            def make(f):
                r = f.apply(cls, [PK[p]], {"identifier": n})
                return 1, f.getattr(r, "value"), name_of(f, r), f.call(f.getattr(r, "pack"))
            for how, what in (("received", read), ("given", make)):
                ok = good(ways(what))
                if (n in w) != bool(ok): bad.append("%d is %s when %s" % (n, "accepted" if ok else "refused", how))
                for k, v, nm, b in ok if n in w else ():
                    if k != 1 or v != n or b != bytes([n]): bad.append("%d becomes %r, written %r" % (n, v, b))
                    elif not isinstance(nm, str) or plain(nm) not in map(plain, w[n]): badn.append("%d is called %s" % (n, nm))
                    else: known[(p, n)] = nm
        c.ob("numbers.%s" % p, not bad, where, "%s: %s" % (p, "; ".join(bad[:5])))
        c.ob("called.%s" % p, not badn, where, "%s: %s" % (p, "; ".join(badn[:5])))
    for p in USED: c.part("numbers.%s" % p, numbers, p)
    def names(p):
        start = first_name(p)
        if start is None: return
        bad = []
        mine = {nm: n for (q, n), nm in known.items() if q == p}
        for nm in sorted({x for x in known.values()} | {"No such reason", ""}):
            def make(f):
                r = f.apply(cls, [PK[p], nm], {}); return f.getattr(r, "value"), f.call(f.getattr(r, "pack"))
            def sets(f):
                r = f.apply(cls, [PK[p], start], {}); f.call(f.getattr(r, "set"), nm); return f.getattr(r, "value"), f.call(f.getattr(r, "pack"))
            for what in (make, sets):
                ok = good(ways(what))
                if (nm in mine) != bool(ok): bad.append("'%s' is %s" % (nm, "accepted" if ok else "refused"))
                elif ok and any(r != (mine[nm], bytes([mine[nm]])) for r in ok): bad.append("'%s' becomes %r" % (nm, ok[0][0]))
        c.ob("names.%s" % p, not bad, where, "%s: %s" % (p, "; ".join(bad[:5])))
    for p in USED: c.part("names.%s" % p, names, p)
    c.part("used", used, c, F, known)

class Flow:
    """which constant texts reach which packet type's reason code: through local variables, parameters and exceptions"""
    def __init__(self, P, mods, types):
        self.P, self.types = P, types           # types: class -> packet type whose reason code its argument is
        self.fns = [f for m in mods for f in P.mod(m).all_functions_nested()]
        self.sinks = {}                         # (function node, parameter) -> {packet type}
        self.found, self.sites = {}, 0
    def rtype(self, e, f):
        "packet type number an expression names"
        r = f.module.resolve_expr(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if isinstance(e, ast.Attribute) and e.attr in PK: return e.attr
        if isinstance(e, ast.Constant) and isinstance(e.value, int): return next((p for p in PK if PK[p] == e.value), None)
        return None
    def local(self, f, name):
        return [(x.lineno, x.value) for x in ast.walk(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)]
    def packet_of(self, e, f, line):
        "packet types of the packet an expression denotes: the assignments to the variable that can reach the line"
        if isinstance(e, ast.Call):
            r = f.module.resolve_expr(e.func)
            return {self.types[r]} if isinstance(r, Class) and r in self.types else set()
        if isinstance(e, ast.Name):
            out = set()
            for v in reaching(f.node, e.id, line):
                if isinstance(v, ast.Call): out |= self.packet_of(v, f, line)
                elif isinstance(v, ast.Name) and v.id != e.id: out |= self.packet_of(v, f, v.lineno)
                elif isinstance(v, ast.IfExp): out |= self.packet_of(v.body, f, line) | self.packet_of(v.orelse, f, line)
            return out
        if isinstance(e, ast.IfExp): return self.packet_of(e.body, f, line) | self.packet_of(e.orelse, f, line)
        return set()
    def params(self, f):
        a = f.node.args; return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]
    def into(self, e, t, f, line, handler=None):
        "the text e reaches a reason code of packet type t"
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str): self.found[(f.module.rel, e.lineno, e.value, t)] = f
        elif isinstance(e, ast.IfExp): self.into(e.body, t, f, line); self.into(e.orelse, t, f, line)
        elif isinstance(e, ast.BoolOp):
            for x in e.values: self.into(x, t, f, line)
        elif isinstance(e, ast.Name):
            pos, kwo = self.params(f)
            if e.id in pos + kwo:
                s = self.sinks.setdefault((f.node, e.id), set())
                if t not in s: s.add(t); self.changed = True
                a = f.node.args
                for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(kwo, a.kw_defaults)):
                    if n == e.id and d is not None: self.into(d, t, f, line)
            for v in reaching(f.node, e.id, line):
                if not (isinstance(v, ast.Name) and v.id == e.id): self.into(v, t, f, v.lineno)
        elif isinstance(e, ast.Subscript):
            # error.args[0] of a caught exception
            b = e.value
            if isinstance(b, ast.Attribute) and b.attr == "args" and isinstance(b.value, ast.Name) and isinstance(e.slice, ast.Constant):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.ExceptHandler) and x.name == b.value.id and x.lineno <= line <= max(y.lineno for y in ast.walk(x) if hasattr(y, "lineno")):
                        for k in x.type.elts if isinstance(x.type, ast.Tuple) else [x.type]:
                            r = f.module.resolve_expr(k)
                            if isinstance(r, Class):
                                s = self.exc.setdefault((r, e.slice.value), set())
                                if t not in s: s.add(t); self.changed = True
            # a table of texts
            else:
                tab = b
                if isinstance(b, ast.Name): 
                    vs = reaching(f.node, b.id, line); r = f.module.resolve(b.id)
                    tab = vs[0] if vs else r[2] if isinstance(r, tuple) and r[0] == "const" else None
                if isinstance(tab, ast.Dict):
                    for v in tab.values: self.into(v, t, f, line)
                elif isinstance(tab, (ast.List, ast.Tuple)):
                    for v in tab.elts: self.into(v, t, f, line)
        elif isinstance(e, ast.NamedExpr): self.into(e.value, t, f, line)
    def callees(self, call, f):
        fn = call.func
        r = f.module.resolve_expr(fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if isinstance(r, Func): return [(r, 0)]
        if isinstance(r, Class):
            i = r.find("__init__"); return [(i, 1)] if i else []
        if isinstance(fn, ast.Name):
            return [(g, 0) for g in self.fns if g.name == fn.id and g.cls is None and g.outer is not None]
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == "self" and f.cls is not None and f.cls.find(fn.attr): return [(f.cls.find(fn.attr), 1)]
            return [(g, 1) for g in self.fns if g.name == fn.attr and g.cls is not None]
        return []
    def arg(self, call, name, index):
        for k in call.keywords:
            if k.arg == name: return k.value
        if index is not None and index < len(call.args) and not any(isinstance(x, ast.Starred) for x in call.args[:index + 1]): return call.args[index]
        return None
    def run(self):
        self.exc, self.changed = {}, True
        while self.changed:
            self.changed = False; self.found, self.sites = {}, 0
            for f in self.fns:
                for x in own(f.node):
                    if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Call):
                        r = f.module.resolve_expr(x.exc.func)
                        if isinstance(r, Class):
                            for (k, i), ts in list(self.exc.items()):
                                if k in r.mro() and i < len(x.exc.args):
                                    for t in list(ts): self.into(x.exc.args[i], t, f, x.lineno); self.sites += 1
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr == "value" and isinstance(t.value, ast.Attribute) and t.value.attr == "reasonCode":
                                for ty in self.packet_of(t.value.value, f, x.lineno): self.found[(f.module.rel, x.lineno, x.value.value, ty)] = f
                    if not isinstance(x, ast.Call): continue
                    r = f.module.resolve_expr(x.func) if isinstance(x.func, (ast.Name, ast.Attribute)) else None
                    if isinstance(r, Class) and r.name == "ReasonCodes":
                        t = self.rtype(self.arg(x, "packetType", 0), f) if self.arg(x, "packetType", 0) is not None else None
                        e = self.arg(x, "aName", 1)
                        if t and e is not None: self.into(e, t, f, x.lineno); self.sites += 1
                        if t and self.arg(x, "identifier", 2) is not None:
                            v = self.arg(x, "identifier", 2)
                            if isinstance(v, ast.Constant) and isinstance(v.value, int) and v.value >= 0: self.found[(f.module.rel, v.lineno, v.value, t)] = f
                        continue
                    if isinstance(r, Class) and r in self.types:
                        init = r.find("__init__"); names = init.params()[1:] if init else []
                        for n in [n for n in names if n.lower() == "reasoncode"]:
                            e = self.arg(x, n, names.index(n))
                            if e is not None: self.into(e, self.types[r], f, x.lineno); self.sites += 1
                        continue
                    if isinstance(x.func, ast.Attribute) and x.func.attr == "set" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "reasonCode" and len(x.args) == 1:
                        for t in self.packet_of(x.func.value.value, f, x.lineno): self.into(x.args[0], t, f, x.lineno); self.sites += 1
                        continue
                    for g, off in self.callees(x, f):
                        pos, kwo = self.params(g)
                        for n in pos + kwo:
                            for t in list(self.sinks.get((g.node, n), ())):
                                e = self.arg(x, n, pos.index(n) - off if n in pos else None)
                                if e is not None: self.into(e, t, f, x.lineno); self.sites += 1
        return self.found

def own(node):
    "the nodes of a function without those of functions inside it"
    out, work = [], list(ast.iter_child_nodes(node))
    while work:
        x = work.pop(); out.append(x)
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): work += list(ast.iter_child_nodes(x))
    return out

def reaching(fnode, name, line):
    "values assigned to a local variable that can reach a line (structured: an assignment in an enclosing block replaces earlier ones)"
    def binds(s): return isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets)
    def has(s): return s.lineno <= line <= s.end_lineno
    def block(b, cur):
        for s in b:
            if has(s) and not binds(s): return inner(s, cur), True
            if s.lineno > line: return cur, True
            cur = after(s, cur)
        return cur, False
    def blocks(s): return [getattr(s, k) for k in ("body", "orelse", "finalbody") if getattr(s, k, None)] + [h.body for h in getattr(s, "handlers", [])] + [c.body for c in getattr(s, "cases", [])]
    def inner(s, cur):
        if isinstance(s, (ast.For, ast.While)): cur = cur + [v for b in blocks(s) for v in block(b, [])[0]] if not all(x.lineno > line for b in blocks(s) for x in b) else cur
        if isinstance(s, ast.Try):
            for h in s.handlers + ([s] if s.finalbody else []):
                b = h.body if isinstance(h, ast.ExceptHandler) else s.finalbody
                if b and b[0].lineno <= line <= b[-1].end_lineno: return block(b, cur + [v for t in s.body for v in assigned(t)])[0]
        for b in blocks(s):
            if b and b[0].lineno <= line <= b[-1].end_lineno: return block(b, cur)[0]
        return cur
    def assigned(s): return [x.value for x in ast.walk(s) if binds(x)]
    def ends(b): return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
    def after(s, cur):
        if binds(s): return [s.value]
        if isinstance(s, ast.If):
            out = []
            for b in (s.body, s.orelse):
                if not ends(b): out += [v for v in whole(b, cur) if v not in out]
            return out
        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and blocks(s): return cur + assigned(s)
        return cur
    def whole(b, cur):
        for s in b: cur = after(s, cur)
        return cur
    return block(fnode.body, [])[0]

def used(c, F, known):
    P = c.P; M = "mqtt.formats.MQTTV5.MQTTV5"; m = P.mod(M)
    # which packet class carries which type's reason code
    types = {}
    for name, k in m.classes.items():
        if any(b == "Packets" for b in k.base_names()[1:]):
            try: rs = [r[0] for r in F.run(lambda f: f.getattr(f.getattr(f.apply(k, [], {}), "reasonCode"), "packetType"))]
            except Unclear: continue
            if len(rs) == 1 and isinstance(rs[0], int): types[k] = next((p for p in PK if PK[p] == rs[0]), None)
    types = {k: v for k, v in types.items() if v}
    mods = [n for n in P.modules if n.startswith(("mqtt.brokers.V5", "mqtt.brokers.listeners", "mqtt.clients.V5")) or n == M]
    W = Flow(P, mods, types)
    found = W.run()
    names = {}
    for n, nms, pk in TABLE:
        for p in pk: names.setdefault(p, set()).update(map(plain, nms))
    per = {}
    for (rel, line, v, t), f in sorted(found.items(), key=lambda x: x[0][:2]):
        ok = (v in allowed(t)) if isinstance(v, int) else plain(v) in names[t]
        k = "used.%s.%s" % (f.short, t); per.setdefault(k, []).append((ok, "%s:%d" % (rel, line), "%r is no reason code of %s" % (v, t)))
    for k, vs in per.items():
        bad = [v for v in vs if not v[0]]
        c.ob(k, not bad, (bad or vs)[0][1], bad[0][2] if bad else "")
    c.count("reason codes followed to their packets", len(found)); c.count("places a reason code passes", W.sites)
    if len(found) < 5: raise Unclear("only %d reason codes of the broker were found" % len(found))
