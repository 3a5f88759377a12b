"""Packet formats: the byte layout an encoder writes and a decoder reads, taken from their summaries and held against
the layouts of the standards, which are written down once and walked by both sides."""
from fractions import Fraction
from itertools import product
from . import interp
from .query import *
from .terms import *
from .dom import *
from .loops import edges_of
from .bits import ev, sat, leaves, allowed, bitvec, Unknown

PRIMS = {"writeUTF", "writeInt16", "writeInt32", "writeBytes", "readUTF", "readInt16", "readInt32", "readBytes", "FixedHeaders.pack", "FixedHeaders.unpack",
         "FixedHeaders.encode", "FixedHeaders.decode", "VBIs.encode", "VBIs.decode", "Properties.pack", "Properties.unpack", "Properties.isEmpty", "Properties.clear",
         "ReasonCodes.pack", "ReasonCodes.unpack", "ReasonCodes.getName", "ReasonCodes.set", "SubscribeOptions.pack", "SubscribeOptions.unpack"}
PURE = {"writeUTF", "writeInt16", "writeInt32", "writeBytes", "readInt16", "readInt32", "readBytes", "Properties.isEmpty", "ReasonCodes.getName"}
SUCCESS = {"Success", "Normal disconnection", "Granted QoS 0"}

def C(name, *a): return ("call", name, tuple(a), ())
HL, RL = C("HL"), C("RL")
END = add(HL, RL)
def U8(p): return C("byte", p)
def U16(p): return C("u16", p)
def U32(p): return C("u32", p)
def UTF(p): return C("utf", p)
def BIN(p): return C("bin", p)
def BUF(p): return C("from", p)
def W(p): return C("width", p)
def name_of(t): return t[1].split(".")[-1] if t[0] in ("call", "ret") else None

class Mismatch(Exception):
    "the code does something else than the layout says: the complaint"
class Fork(Exception):
    "the path does not decide this flag: both must be considered"
    def __init__(self, what): self.what = what
class Stop(Exception):
    "the path ends before this point"
class Murky(AnalysisBroken): pass

# ------------------------------------------------------------------ the layouts

def connect(w, five):
    w.utf("ProtocolName"); w.u8("ProtocolVersion")
    w.bits({"CleanStart" if five else "CleanSession": (1, 1), "WillFlag": (2, 1), "WillQoS": (3, 2), "WillRETAIN": (5, 1), "passwordFlag": (6, 1), "usernameFlag": (7, 1)})
    w.u16("KeepAliveTimer")
    if five: w.props("properties")
    w.utf("ClientIdentifier")
    if w.flag("WillFlag"):
        if five: w.props("WillProperties")
        w.utf("WillTopic"); w.bin("WillMessage")
    if w.flag("usernameFlag"): w.utf("username")
    if w.flag("passwordFlag"): w.bin("password")
    w.end()
def connack(w, five):
    if five: w.bits({"sessionPresent": (0, 1)}); w.reason("reasonCode"); w.props("properties")
    else: w.u8("flags"); w.u8("returnCode")
    w.end()
def publish(w, five):
    w.utf("topicName")
    if w.qos(): w.u16("packetIdentifier" if five else "messageIdentifier")
    if five: w.props("properties")
    w.rest("data")
def ack(w, five):
    w.u16("packetIdentifier" if five else "messageIdentifier")
    if five: w.tail("reasonCode", "properties")
    w.end()
def subscribe(w, five):
    w.u16("packetIdentifier" if five else "messageIdentifier")
    if five: w.props("properties")
    w.items("data", ("utf", "options" if five else "u8"))
    w.end()
def suback(w, five):
    w.u16("packetIdentifier" if five else "messageIdentifier")
    if five: w.props("properties")
    w.items("reasonCodes" if five else "data", ("reason" if five else "u8",))
    w.end()
def unsubscribe(w, five):
    w.u16("packetIdentifier" if five else "messageIdentifier")
    if five: w.props("properties")
    w.items("topicFilters" if five else "data", ("utf",))
    w.end()
def unsuback(w, five):
    if five: suback(w, True)
    else: w.u16("messageIdentifier"); w.end()
def empty(w, five): w.end()
def disconnect(w, five):
    if five: w.tail("reasonCode", "properties")
    w.end()
def auth(w, five):
    w.tail("reasonCode", "properties", True)
    w.end()

# name, class, type, flags of the header, layout
PACKETS = [("CONNECT", "Connects", 1, 0, connect), ("CONNACK", "Connacks", 2, 0, connack), ("PUBLISH", "Publishes", 3, None, publish),
           ("PUBACK", "Pubacks", 4, 0, ack), ("PUBREC", "Pubrecs", 5, 0, ack), ("PUBREL", "Pubrels", 6, 1, ack), ("PUBCOMP", "Pubcomps", 7, 0, ack),
           ("SUBSCRIBE", "Subscribes", 8, 1, subscribe), ("SUBACK", "Subacks", 9, 0, suback), ("UNSUBSCRIBE", "Unsubscribes", 10, 1, unsubscribe),
           ("UNSUBACK", "Unsubacks", 11, 0, unsuback), ("PINGREQ", "Pingreqs", 12, 0, empty), ("PINGRESP", "Pingresps", 13, 0, empty),
           ("DISCONNECT", "Disconnects", 14, 0, disconnect), ("AUTH", "Auths", 15, 0, auth)]
def packets(five): return [p for p in PACKETS if five or p[2] < 15]

# ------------------------------------------------------------------ reading a format module

class Formats:
    def __init__(self, c, five):
        self.c, self.five = c, five
        self.mod = "mqtt.formats.MQTTV5.MQTTV5" if five else "mqtt.formats.MQTTV311.MQTTV311"
        self.v = "V5" if five else "V311"
        interp.FINITE.update(QoS=(0, 1, 2, 3), WillQoS=(0, 1, 2, 3), retainHandling=(0, 1, 2, 3))    # what a packet may say
        self.I = c.interp(scope=[self.mod], opaque=set(PRIMS), pure=set(PURE), attr_types={}, elem_types={}, every_loop=True, induction=False)
        self._made = {}
    def cls(self, name): return self.c.P.cls(self.mod, name)
    def method(self, cname, mname):
        "the method an object of the class has, and the class"
        k = self.cls(cname)
        f = k.find(mname)
        if f is None: raise AnalysisBroken("%s has no method %s" % (cname, mname))
        return f, k
    def made(self, cname):
        "the constructor's effect without a buffer: [path]"
        if cname not in self._made:
            f, k = self.method(cname, "__init__")
            I = self.c.interp(scope=[self.mod], opaque=set(PRIMS) | {cname + ".unpack"}, pure=set(PURE), attr_types={}, elem_types={}, every_loop=True, induction=False)
            fn = Fn(I, f, selfcls=k)
            def pre(I_, st):
                for n, d in defaults(f).items(): st.frames[-1][n] = d
            fn._pre = pre
            self._made[cname] = (fn, [p for p in fn.paths if not p.raised])
        return self._made[cname]
    def settings(self, cname, fields):
        "what the constructor fixes besides the fields of the packet: {attribute: constant}"
        out = {}
        fn, ps = self.made(cname)
        for p in ps:
            for (b, a), v in p.heap.items():
                if b == ("param", "self") and is_const(v) and isinstance(v[1], int) and not isinstance(v[1], bool) and a not in fields: out.setdefault(a, set()).add(v)
        return {a: list(vs)[0] for a, vs in out.items() if len(vs) == 1}
    def fn(self, cname, mname, fields):
        f, k = self.method(cname, mname)
        fixed = self.settings(cname, fields)
        def pre(I, st):
            for a, v in fixed.items(): st.heap[(("param", "self"), a)] = v
        return Fn(self.I, f, selfcls=k, pre=pre)

def defaults(f):
    "the default values of a function's parameters that are plain constants"
    a, out = f.node.args, {}
    ps = a.posonlyargs + a.args
    for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if isinstance(d, ast.Constant): out[p.arg] = const(d.value)
        elif isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant): out[p.arg] = const(-d.operand.value)
    return out

SELF, BUFFER = ("param", "self"), ("param", "buffer")
FH = attr(SELF, "fh")
HEADER = {attr(FH, "DUP"): (False, True), attr(FH, "QoS"): (0, 1, 2, 3), attr(FH, "RETAIN"): (False, True)}

class Fields:
    "collects the attribute names a layout mentions"
    def __init__(self): self.names = set()
    def __getattr__(self, k):
        def f(*a):
            for x in a:
                if isinstance(x, str): self.names.add(x)
                elif isinstance(x, dict): self.names.update(x)
            return True
        return f
def fields_of(layout, five):
    f = Fields(); layout(f, five); return f.names

class Walk:
    "common to all walks: decisions taken about undecided flags"
    def __init__(self, decided): self.decided = decided
    def choose(self, what, may):
        "may: the truth values the path leaves open"
        may = set(may)
        if not may: raise Stop
        if len(may) == 1: return may.pop()
        if what in self.decided: return self.decided[what]
        raise Fork(what)

def walks(make, layout, five):
    "walk a layout for every combination of the flags the path leaves undecided"
    todo = [{}]
    while todo:
        d = todo.pop()
        w = make(d)
        try: layout(w, five)
        except Fork as f:
            todo += [dict(d, **{f.what: True}), dict(d, **{f.what: False})]; continue
        except Stop: w.stopped = True
        yield w

# ------------------------------------------------------------------ what an encoder writes

def flat_atoms(t):
    if t[0] == "cat":
        for x in t[1]: yield from flat_atoms(x)
    elif t[0] == "const" and isinstance(t[1], (bytes, bytearray)):
        for b in t[1]: yield ("u8", const(b))
    elif t[0] in ("call", "ret") and name_of(t) in ("bytes", "bytearray"):
        if not t[2]: return
        a = t[2][0]
        if a[0] == "seq":
            for x in a[2]: yield ("u8", x)
        elif a[0] in ("call", "ret", "cat"): yield from flat_atoms(a)
        else: yield ("raw", a)
    elif t[0] in ("call", "ret") and t[1] in ("writeInt16", "writeUTF", "writeBytes", "writeInt32"): yield ({"writeInt16": "u16", "writeUTF": "utf", "writeBytes": "bin", "writeInt32": "u32"}[t[1]], t[2][0])
    elif t[0] in ("call", "ret") and t[1] == "struct.pack":
        fmt = t[2][0][1] if t[2] and is_const(t[2][0]) else None
        W = {"B": "u8", "H": "u16", "I": "u32", "L": "u32"}
        if isinstance(fmt, str) and len(fmt) == len(t[2]) and fmt[0] in "!>" and all(x in W for x in fmt[1:]):
            for x, v in zip(fmt[1:], t[2][1:]): yield (W[x], v)
        elif fmt == "B" and len(t[2]) == 2: yield ("u8", t[2][1])
        else: yield ("raw", t)
    elif (t[0] == "meth" and t[2] or name_of(t)) == "to_bytes":
        v, n, order = (t[1], t[3], dict(t[4])) if t[0] == "meth" else (t[2][0], t[2][1:], dict(t[3]))
        n = n or tuple(order[k] for k in ("length",) if k in order)
        if n and n[0] in (const(1), const(2), const(4)) and (len(n) < 2 or n[1] == const("big")) and order.get("byteorder", const("big")) == const("big"): yield ({1: "u8", 2: "u16", 4: "u32"}[n[0][1]], v)
        else: yield ("raw", t)
    elif t[0] in ("call", "ret") and name_of(t) == "pack": yield (t[1].split(".")[0].lower() if "." in t[1] else "pack", t[2][0] if t[2] else None)
    elif t[0] == "meth" and t[2] == "pack": yield ("pack", t[1])
    elif t[0] == "copy": yield from flat_atoms(t[1])
    else: yield ("raw", t)

def atom_len(a):
    k, x = a
    if k == "u8": return const(1)
    if k == "u16": return const(2)
    if k == "u32": return const(4)
    return ("len", ("seq", "atom", (const(k), x)))
def total(atoms):
    s = const(0)
    for a in atoms: s = add(s, atom_len(a))
    return s
def length_term(t):
    "a length expression in terms of atoms"
    c, ts = to_lin(t)
    s = const(c)
    for x, k in ts.items():
        if x[0] == "len": s = add(s, scale(total(list(flat_atoms(x[1]))), k))
        else: s = add(s, scale(x, k))
    return s

class EncWalk(Walk):
    def __init__(self, p, atoms, decided, fn):
        Walk.__init__(self, decided)
        self.p, self.atoms, self.i, self.fn, self.stopped = p, atoms, 0, fn, False
    def next(self, want):
        if self.i >= len(self.atoms): raise Mismatch("%s is not written" % want)
        self.i += 1
        return self.atoms[self.i - 1]
    def clear(self, *atoms):
        "what is written must be understood before it can be called wrong"
        for k, x in atoms:
            if k == "raw" and x[0] not in ("attr", "param", "const"): raise Murky("%s: what is written is not understood: %s" % (self.fn.where, show(x)[:160]))
    def take(self, kind, name, what):
        a = self.next(what)
        if a[0] != kind: self.clear(a)
        if a[0] != kind or a[1] != attr(SELF, name): raise Mismatch("where %s belongs, %s is written" % (what, show_atom(a)))
    def utf(self, n): self.take("utf", n, "%s as a UTF-8 string" % n)
    def bin(self, n): self.take("bin", n, "%s as binary data" % n)
    def u16(self, n): self.take("u16", n, "%s as a two byte integer" % n)
    def u8(self, n): self.take("u8", n, "the byte %s" % n)
    def rest(self, n):
        self.take("raw", n, "the payload"); self.over()
    def props(self, n): self.take("properties", n, "the properties %s" % n)
    def reason(self, n): self.take("reasoncodes", n, "the reason code")
    def dom(self, leaf, full):
        return {e[leaf] for e in allowed(self.p.conds, {leaf: full})}
    def bits(self, spec):
        a = self.next("the byte of flags")
        if a[0] != "u8": self.clear(a)
        if a[0] != "u8": raise Mismatch("where the byte of flags belongs, %s is written" % show_atom(a))
        doms = {}
        for n, (sh, wd) in spec.items():
            leaf = attr(SELF, n)
            doms[leaf] = sorted(self.dom(leaf, range(1 << wd)))
            if n in self.decided: doms[leaf] = [v for v in doms[leaf] if bool(v) == self.decided[n]]
        for vs in product(*doms.values()):
            env = dict(zip(doms, vs))
            want = sum(int(env[attr(SELF, n)]) << sh for n, (sh, wd) in spec.items())
            try: got = ev(a[1], env)
            except Unknown: raise Murky("%s: flags %s" % (self.fn.where, show(a[1])[:200]))
            if got != want: raise Mismatch("the byte of flags is %s for %s; it must be %d" % (got, ", ".join("%s=%s" % (l[2], v) for l, v in env.items()), want))
    def flag(self, n):
        return self.choose(n, {bool(v) for v in self.dom(attr(SELF, n), (0, 1))})
    def qos(self):
        return self.choose("QoS", {bool(v) for v in self.dom(attr(FH, "QoS"), (0, 1, 2, 3))})
    def over(self):
        self.clear(*self.atoms[self.i:])
        if self.i < len(self.atoms): raise Mismatch("%s is written where the packet should end" % show_atom(self.atoms[self.i]))
    end = over
    def tail(self, rc, pr, both=False):
        left = self.atoms[self.i:]
        full = [("reasoncodes", attr(SELF, rc)), ("properties", attr(SELF, pr))]
        if left != full[:len(left)]: self.clear(*left)
        if left != full[:len(left)]: raise Mismatch("where the reason code and the properties belong, %s is written" % "; ".join(map(show_atom, left)))
        self.i = len(self.atoms)
        if len(left) < 2 and self.maybe_props(attr(SELF, pr)): raise Mismatch("the properties are left out though there may be some")
        if len(left) == 1 and both: raise Mismatch("the properties are left out behind a reason code")
        if not left and self.maybe_bad(attr(SELF, rc)): raise Mismatch("the reason code is left out though it may not be success")
    def maybe_props(self, r):
        for k, d in self.p.conds.items():
            t = k[1]
            if t[0] in ("call", "ret") and name_of(t) == "isEmpty" and t[2] and t[2][0] == r:
                try:
                    if not sat(k, d, {t: False}): return False
                except Unknown: pass
        return True
    def maybe_bad(self, r):
        for k, d in self.p.conds.items():
            t = k[1]
            if t[0] in ("call", "ret") and name_of(t) == "getName" and t[2] and t[2][0] == r and k[0] == "v" and d.inc is not None and d.inc <= SUCCESS: return False
            if t == attr(r, "value") and k[0] == "v" and (d.inc is not None and d.inc <= {0} or d.classes == {"F"}): return False
        return True
    def items(self, n, kinds):
        cont = attr(SELF, n)
        el = ("elem", cont)
        want = []
        for j, k in enumerate(kinds):
            x = item(el, const(j)) if len(kinds) > 1 else el
            want.append((k, x))
        def is_item(ats):
            if len(ats) != len(want): return False
            for (k, x), (ak, ax) in zip(want, ats):
                ks = {"options": ("subscribeoptions", "pack"), "reason": ("reasoncodes", "pack")}.get(k, (k,))
                if ak not in ks or ax != x: return False
            return True
        left = self.atoms[self.i:]
        if not left: self.i = len(self.atoms); return   # no element
        if kinds == ("u8",) and left == [("raw", cont)]: self.i = len(self.atoms); return
        if len(left) == 1 and left[0][0] == "raw" and left[0][1][0] == "meth" and left[0][1][1:3] == (const(b""), "join") and left[0][1][3][0][0] == "obj":
            return self.joined(n, left[0][1][3][0], cont, is_item)
        if left[0][0] == "raw" and left[0][1][0] == "acc" and self.i == 0: left = left[1:]; skipped = True
        else: skipped = False
        while left:
            if not is_item(left[:len(want)]): self.clear(*left[:len(want)])
            if not is_item(left[:len(want)]): raise Mismatch("for an element of %s, %s is written" % (n, "; ".join(map(show_atom, left[:len(want)]))))
            left = left[len(want):]
        self.i = len(self.atoms)
        ok = False
        for o in self.p.flat():
            if o.ev.kind != "loop" or not o.ev.loop.steps: continue
            it = norm(o.ev.loop.it)
            while it[0] == "reversed" or it[0] == "call" and it[1] in ("list", "tuple", "iter", "sorted", "set", "frozenset", "reversed", "enumerate") and it[2]: it = it[1] if it[0] == "reversed" else it[2][0]
            if it != cont: continue
            ok = True
            if not o.ev.loop.inorder: raise Mismatch("%s is written in another order" % n)
            for conds, evs, ctrl, upd, src in o.ev.loop.steps:
                if ctrl is not None and ctrl[0] == "raise": continue
                if ctrl is not None and ctrl[0] != "continue": raise Mismatch("not all of %s is written" % n)
                grown = [(a, b) for a, b in upd.values() if a is not None and b is not None and list(flat_atoms(b))[:len(list(flat_atoms(a)))] == list(flat_atoms(a))]
                if not any(is_item(list(flat_atoms(b))[len(list(flat_atoms(a))):]) for a, b in grown):
                    raise Mismatch("an element of %s can be written differently or not at all" % n)
        if not ok and not any(o.ev.kind == "loop" for o in self.p.flat()): raise Murky("%s: how %s is written is not understood" % (self.fn.where, n))
    def joined(self, n, lst, cont, is_item):
        "the elements are collected in a list first"
        self.i = len(self.atoms)
        for e in self.p.events:
            if e.kind == "mut" and e.base == lst: raise Murky("%s: how %s is written is not understood" % (self.fn.where, n))
        ls = [o.ev.loop for o in self.p.flat() if o.ev.kind == "loop" and any(e.kind == "mut" and e.base == lst for ed in o.ev.loop.edges for e in ed.events)]
        if not ls: return     # no element
        if len(ls) > 1 or norm(ls[0].it) != cont: raise Murky("%s: how %s is written is not understood" % (self.fn.where, n))
        for ed in edges_of(ls[0]):
            if ed.ctrl is not None and ed.ctrl[0] == "raise": continue
            if ed.ctrl is not None and ed.ctrl[0] != "continue": raise Mismatch("not all of %s is written" % n)
            ms = [e for e in ed.events if e.kind == "mut" and e.base == lst]
            ats = [a for e in ms for x in e.args for a in flat_atoms(x)]
            if any(e.name != "append" for e in ms): raise Murky("%s: how %s is written is not understood" % (self.fn.where, n))
            if not is_item(ats):
                self.clear(*ats)
                raise Mismatch("for an element of %s, %s is written" % (n, "; ".join(map(show_atom, ats))))
    def prefix(self):
        "an accumulated body stands for what was there before the loop"

def show_atom(a): return "%s(%s)" % (a[0], show(a[1])[:160] if a[1] is not None else "")

def body_of(p):
    "(header atom's length argument, the atoms after it) of an encoder's result"
    t = p.ret
    parts = list(flat_all(t))
    h = parts[0]
    if not (h[0] in ("ret", "call") and h[1].endswith("FixedHeaders.pack") and h[2][0] == FH and len(h[2]) > 1): raise Mismatch("the packet does not begin with its fixed header")
    return h[2][1], parts[1:]
def flat_all(t):
    if t[0] == "cat":
        for x in t[1]: yield from flat_all(x)
    else: yield t

def grounded(p, parts):
    "accumulated bodies written out: what was there before the loop, and any number of elements"
    out = []
    inits = {}
    for o in p.flat():
        if o.ev.kind == "loop" and o.ev.loop.init:
            for conds, evs, ctrl, upd, src in o.ev.loop.steps:
                for n, (a, b) in upd.items():
                    if a is not None and a[0] == "acc" and a[3] == n: inits[a] = o.ev.loop.init.get(n)
    def go(t):
        if t in inits and inits[t] is not None:
            for x in flat_all(inits[t]): yield from go(x)
        elif t[0] == "cat":
            for x in t[1]: yield from go(x)
        else: yield t
    for t in parts: out += list(go(t))
    return out
def subst_len(p, L):
    inits = {}
    for o in p.flat():
        if o.ev.kind == "loop" and o.ev.loop.init:
            for conds, evs, ctrl, upd, src in o.ev.loop.steps:
                for n, (a, b) in upd.items():
                    if a is not None and a[0] == "acc" and a[3] == n: inits[a] = o.ev.loop.init.get(n)
    return subst(L, inits)

def check_encoder(F, cname, layout):
    "complaints about the encoder of a class: [(message, path)]"
    five = F.five
    fn = F.fn(cname, "pack", fields_of(layout, five))
    out, n = [], 0
    for p in fn.paths:
        if p.raised: continue
        n += 1
        try:
            L, parts = body_of(p)
            raw = [a for t in parts for a in flat_atoms(t)]
            if length_term(L) != total(raw): raise Mismatch("the remaining length is %s, not the length of what follows" % show(L)[:200])
            atoms = [a for t in grounded(p, parts) for a in flat_atoms(t)]
            for w in walks(lambda d: EncWalk(p, atoms, d, fn), layout, five): pass
        except Mismatch as m: out.append((str(m), p))
    return fn, n, out

# ------------------------------------------------------------------ what a decoder reads

class View:
    "a path of a decoder with its terms rewritten to positions in the packet"
    def __init__(self, fn, p):
        self.fn, self.p = fn, p
        self.memo, self.acc, self.maxlens = {}, {}, []
        self.evs = []        # (event kind, canonical base, name, canonical args)
        self.loops = []
        self.flatten(p.events)
        self.conds = {}
        for k, d in p.conds.items():
            t = self.canon(k[1])
            k2 = (k[0], t)
            if k2 in self.conds:
                m = self.conds[k2].meet(d)
                self.conds[k2] = m
            else: self.conds[k2] = d
        self.heap = {k: self.canon(v) for k, v in p.heap.items()}
    def flatten(self, events):
        for e in events:
            if e.kind == "loop":
                L = e.loop
                self.accumulators(L)
                self.loops.append(L)
                self.evs.append(("loop", L, len(self.loops) - 1, ()))
            else: self.evs.append((e.kind, self.canon(e.base) if e.base else None, e.name, tuple(self.canon(a) for a in e.args)))
    def accumulators(self, L):
        if not L.steps: return
        q = C("pos", const(len(self.loops)))
        for conds, evs, ctrl, upd, src in L.steps:
            for n, (a, b) in upd.items():
                if a is not None and a[0] == "acc" and a not in self.acc and n in L.init and is_num(L.init[n]):
                    i = self.canon(L.init[n])
                    s = self.weight(i)
                    if s == 1: self.acc[a] = q
                    elif to_lin(i)[1].get(RL) == 1 and s == 0: self.acc[a] = add(END, q, -1)
        self.memo = {}
    def weight(self, t):
        return sum(c for x, c in to_lin(t)[1].items() if x == HL or x[:2] == ("call", "pos"))
    def pos(self, t):
        w = self.weight(t)
        if w == 1: return t
        c, ts = to_lin(t)
        if w == 0:
            if not ts and c >= 0: return t
            return add(END, t)
        raise Murky("%s: position %s is not understood" % (self.fn.where, show(t)[:200]))
    def canon(self, t):
        if t in self.memo: return self.memo[t]
        r = self.canon_(t)
        self.memo[t] = r
        return r
    def canon_(self, t):
        k = t[0]
        if t in self.acc: return self.acc[t]
        if k in ("const", "param", "glob", "fn", "cls", "mod", "ext", "acc"): return BUF(const(0)) if t == BUFFER else t
        if k in ("ret", "call") and t[1].endswith("FixedHeaders.unpack"):
            if t[2][0] != FH or t[2][1] != BUFFER: raise Murky("%s: the fixed header is not taken from the start of the packet" % self.fn.where)
            return HL
        if k == "attr" and t[2] == "remainingLength" and t[1] == FH: return RL
        if k == "lin":
            s = const(t[1])
            for x, c in t[2]: s = add(s, scale(self.canon(x), c))
            return self.joined(s)
        if k in ("copy", "ver"):
            return self.canon(t[1])
        def go(x):
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in TAGS: return self.canon(x)
                return tuple(go(y) for y in x)
            return x
        t = (k,) + tuple(go(x) for x in t[1:])
        def is_buf(x): return x[:2] == ("call", "from")
        if k == "slice" and is_buf(t[1]):
            lo = t[2]
            p = self.pos(lo) if t[1] == BUF(const(0)) else add(t[1][2][0], lo)
            if t[3] is None or self.pos(t[3]) == END: return BUF(p)
            return ("slice", BUF(const(0)), p, self.pos(t[3]))
        if k == "item" and is_buf(t[1]):
            return U8(self.pos(t[2]) if t[1] == BUF(const(0)) else add(t[1][2][0], t[2]))
        def exactly(x, n):
            "the position of a slice with n bytes at least"
            if is_buf(x): return x[2][0]
            if x[0] == "slice" and x[1] == BUF(const(0)) and x[3] is not None:
                d = add(x[3], x[2], -1)
                if is_const(d) and d[1] >= n: return x[2]
        if k in ("ret", "call") and t[1] in ("readInt16", "readInt32") and t[2] and t[2][0][0] == "slice":
            p = exactly(t[2][0], 2 if t[1] == "readInt16" else 4)
            if p is not None: return (U16 if t[1] == "readInt16" else U32)(p)
        if (k in ("ret", "call") and t[1] == "int.from_bytes" or k == "meth" and t[2] == "from_bytes"):
            a, kw = (t[2], dict(t[3])) if k != "meth" else (t[3], dict(t[4]))
            if a and a[0][0] == "slice" and a[0][1] == BUF(const(0)) and a[0][3] is not None and (a[1:2] or (kw.get("byteorder", const("big")),))[0] == const("big") and kw.get("signed", FALSE) == FALSE:
                d = add(a[0][3], a[0][2], -1)
                if is_const(d) and d[1] in (2, 4): return (U16 if d[1] == 2 else U32)(a[0][2])
        if k in ("ret", "call") and t[1] in ("readUTF", "readBytes", "readInt16", "readInt32") and t[2] and is_buf(t[2][0]):
            p = t[2][0][2][0]
            if t[1] == "readUTF" and len(t[2]) > 1: self.maxlens.append((p, t[2][1]))
            return {"readUTF": UTF, "readBytes": BIN, "readInt16": U16, "readInt32": U32}[t[1]](p)
        if k == "item" and t[1][:2] in (("call", "utf"), ("call", "bin")) and is_const(t[2]) and self.five():
            if t[2][1] == 0: return t[1]
            if t[2][1] == 1: return W(t[1][2][0])
        if k == "item" and t[1][:2] == ("call", "props") and t[2] == const(1): return W(t[1][2][0])
        if k == "item" and t[1][:2] == ("call", "props") and t[2] == const(0): return t[1][2][1]
        if k in ("ret", "call") and t[1].endswith("Properties.unpack") and len(t[2]) > 1 and is_buf(t[2][1]): return C("props", t[2][1][2][0], t[2][0])
        if k in ("ret", "call") and t[1].endswith(("ReasonCodes.unpack", "SubscribeOptions.unpack")): return const(1)
        if k == "len":
            x = t[1]
            if is_buf(x): return add(END, x[2][0], -1)
            if x[0] == "meth" and x[2] == "encode" and x[1][:2] == ("call", "utf") and x[3] in ((), (const("utf-8"),), (const("utf8"),)): return add(W(x[1][2][0]), const(2), -1)
            if x[0] == "call" and x[1] == "bytes" and len(x[2]) == 2 and x[2][0][:2] == ("call", "utf") and x[2][1] in (const("utf-8"), const("utf8")): return add(W(x[2][0][2][0]), const(2), -1)
            if x[:2] == ("call", "bin"): return add(W(x[2][0]), const(2), -1)
        return t
    def joined(self, t):
        "256 times a byte and the byte after it are a two byte integer"
        c, ts = to_lin(t)
        for x, k in ts.items():
            if k == 256 and x[:2] == ("call", "byte"):
                y = U8(add(x[2][0], const(1)))
                if ts.get(y) == 1: return add(add(add(t, scale(x, 256), -1), y, -1), U16(x[2][0]))
        return t
    def five(self): return True
    def equalities(self):
        out = []
        for (k, t), d in self.conds.items():
            if k in ("d", "v"):
                v = None
                if k == "d" and d.lo == d.hi: v = d.lo
                if k == "v" and d.inc is not None and len(d.inc) == 1 and isinstance(list(d.inc)[0], int): v = int(list(d.inc)[0])
                if k == "v" and d.inc is None and "T" not in d.classes: v = 0
                if v is not None and is_num(t): out.append(add(t, const(v), -1))
            if k == "b" and t[0] == "cmp" and (t[1] == "==" and d == YES or t[1] == "!=" and d == NO): out.append(add(t[2], t[3], -1))
        return [e for e in out if not is_const(e)]
    def zero(self, t):
        "do the path's equations imply that t is zero?"
        return in_span(t, self.equalities())

def is_num(t): return t[0] in ("lin", "acc", "attr", "call", "ret", "item", "len") or is_const(t) and isinstance(t[1], int) and not isinstance(t[1], bool)

def in_span(t, eqs):
    def vec(x):
        c, ts = to_lin(x)
        d = {k: Fraction(v) for k, v in ts.items()}
        if c: d[1] = Fraction(c)
        return d
    rows = []
    def reduce(v):
        v = dict(v)
        for piv, r in rows:
            if piv in v:
                f = v[piv] / r[piv]
                for k, x in r.items():
                    v[k] = v.get(k, 0) - f * x
                    if v[k] == 0: del v[k]
        return v
    for e in eqs:
        v = reduce(vec(e))
        ks = [k for k in v if k != 1]
        if ks: rows.append((ks[0], v))
        # keep earlier rows reduced
        if ks:
            piv, r = rows[-1]
            for i in range(len(rows) - 1):
                q, s = rows[i]
                if piv in s:
                    f = s[piv] / r[piv]
                    s = dict(s)
                    for k, x in r.items():
                        s[k] = s.get(k, 0) - f * x
                        if s[k] == 0: del s[k]
                    rows[i] = (q, s)
    return not reduce(vec(t))

LO = {"utf": 2, "bin": 2, "props": 1}
class DecWalk(Walk):
    "follows a layout along a path of a decoder; in strict mode the attributes must end up with what is there"
    def __init__(self, view, decided, strict=True):
        Walk.__init__(self, decided)
        self.v, self.P, self.strict, self.stopped = view, HL, strict, False
        self.utfs, self.u8s, self.widths = [], {}, {}
        self.end_at, self.rest_at, self.listed, self.u16s = None, None, None, {}
        self.tails = None
    def got(self, n): return self.v.heap.get((SELF, n))
    def need(self, n, val, what):
        if not self.strict: return
        g = self.got(n)
        if g != val:
            if g is not None and g[0] in ("call", "item", "from", "slice", "lin", "byte") or g is None or is_const(g): raise Mismatch("%s is not taken from %s but is %s" % (n, what, show(g)[:160] if g is not None else "left as it was"))
            raise Murky("%s: %s = %s" % (self.v.fn.where, n, show(g)[:200]))
    def utf(self, n):
        self.need(n, UTF(self.P), "the string at its place"); self.utfs.append((n, self.P)); self.widen("utf")
    def bin(self, n): self.need(n, BIN(self.P), "the binary data at its place"); self.widen("bin")
    def widen(self, k): self.widths[W(self.P)] = LO[k]; self.P = add(self.P, W(self.P))
    def u16(self, n): self.need(n, U16(self.P), "the two bytes at their place"); self.u16s[n] = U16(self.P); self.P = add(self.P, const(2))
    def u8(self, n): self.need(n, U8(self.P), "the byte at its place"); self.u8s[n] = U8(self.P); self.P = add(self.P, const(1))
    def values(self, leaf): return [e[leaf] for e in allowed(self.v.conds, {leaf: range(256)})]
    def bits(self, spec):
        leaf = U8(self.P)
        self.flags = {n: (leaf, sh, (1 << wd) - 1) for n, (sh, wd) in spec.items()}
        self.u8s["flags of the packet"] = leaf
        if self.strict:
            vals = self.values(leaf)
            for n, (sh, wd) in spec.items():
                g = self.got(n)
                if g is None: raise Mismatch("%s is not taken from the byte of flags" % n)
                for b in vals:
                    try: x = ev(g, {leaf: b})
                    except Unknown:
                        ls = [s for s in subterms(g) if s[:2] == ("call", "byte")]
                        if ls and leaf not in ls: raise Mismatch("%s is taken from another place than the byte of flags" % n)
                        raise Murky("%s: %s = %s" % (self.v.fn.where, n, show(g)[:200]))
                    if x != (b >> sh) & ((1 << wd) - 1): raise Mismatch("%s is %s when the byte of flags is %d" % (n, x, b))
        self.P = add(self.P, const(1))
    def flag(self, n):
        leaf, sh, m = self.flags[n]
        vals = self.values(leaf)
        for k, d in self.decided.items():
            if k in self.flags: vals = [b for b in vals if bool(b >> self.flags[k][1] & self.flags[k][2]) == d]
        return self.choose(n, {bool(b >> sh & m) for b in vals})
    def header(self): return allowed(self.v.conds, HEADER)
    def qos(self): return self.choose("QoS", {bool(e[attr(FH, "QoS")]) for e in self.header()})
    def props(self, n):
        if self.strict:
            hits = [e for e in self.v.evs if e[0] == "call" and e[2].endswith("Properties.unpack")]
            if not any(self.recv(e)[0] == attr(SELF, n) and self.recv(e)[1] == BUF(self.P) for e in hits):
                raise Mismatch("the properties %s are not read from their place (%s)" % (n, "; ".join(show(a)[:120] for e in hits for a in self.recv(e)) or "not read"))
        self.widths[W(self.P)] = 1
        self.P = add(self.P, W(self.P))
    def recv(self, e):
        "receiver and buffer of an unpack event"
        args = ((e[1],) if e[1] is not None and (not e[3] or e[3][0] != e[1]) else ()) + e[3]
        return args[:2] if len(args) > 1 else args + (None,) * (2 - len(args))
    def reason(self, n):
        if self.strict:
            hits = [e for e in self.v.evs if e[0] == "call" and e[2].endswith("ReasonCodes.unpack")]
            if not any(self.recv(e) == (attr(SELF, n), BUF(self.P)) for e in hits):
                raise Mismatch("the reason code is not read from its place")
        self.P = add(self.P, const(1))
    def rest(self, n):
        self.need(n, BUF(self.P), "what follows in the packet"); self.rest_at = self.P
    def end(self):
        self.end_at = self.P
    def tail(self, rc, pr, both=False):
        if self.strict:
            r = any(e[0] == "call" and e[2].endswith("ReasonCodes.unpack") for e in self.v.evs)
            q = any(e[0] == "call" and e[2].endswith("Properties.unpack") for e in self.v.evs)
            if q and not r: raise Mismatch("properties are read without a reason code before them")
            if r: self.reason(rc)
            if q: self.props(pr)
            self.tails = r + q
        else:
            n = 0
            if self.choose("reason code", (True, False)):
                n = 1; self.P = add(self.P, const(1))
                if self.choose("properties", (True,) if both else (True, False)):
                    n = 2; self.widths[W(self.P)] = 1; self.P = add(self.P, W(self.P))
            self.tails = n
    def items(self, n, kinds):
        self.listed = n
        if not self.strict:
            if self.v.loops: self.loop_at = self.P; raise Stop
            return
        g = self.got(n)
        loops = [(i, L) for i, L in enumerate(self.v.loops)]
        mine = []
        raw = self.v.p.heap.get((SELF, n))
        for i, L in loops:
            if any(e.kind == "mut" and e.base == raw for st in L.steps or () for e in st[1]): mine.append((i, L))
        if raw is None or raw[0] not in ("obj", "seq"): raise Mismatch("%s is not read" % n) if raw is None else Murky("%s: %s = %s" % (self.v.fn.where, n, show(raw)[:100]))
        if raw[0] == "seq" and raw[2]: raise Murky("%s: %s = %s" % (self.v.fn.where, n, show(raw)[:100]))
        if not mine: self.zero_items = True; return
        if len(mine) > 1: raise Murky("%s: several loops fill %s" % (self.v.fn.where, n))
        i, L = mine[0]
        Q = C("pos", const(i))
        if not any(v == Q or v == add(END, Q, -1) for v in self.v.acc.values()): raise Murky("%s: how far the loop has read is not understood" % self.v.fn.where)
        self.loop_zero = L.zero
        for a, m in self.v.acc.items():
            if not mentions(m, Q): continue
            i0 = self.v.canon(L.init[a[3]])
            at = i0 if m == Q else add(END, i0, -1)
            if at != self.P: raise Mismatch("the elements of %s are read from another place than the first one's (%s)" % (n, show(at)[:120]))
        for conds, evs, ctrl, upd, src in L.steps:
            if ctrl is not None and ctrl[0] == "raise": continue
            if ctrl is not None and ctrl[0] in ("break", "return"): raise Mismatch("reading the elements of %s can stop early" % n)
            P, parts, checks = Q, [], []
            for k in kinds:
                if k == "utf": parts.append(UTF(P)); self.widths[W(P)] = 2; P = add(P, W(P))
                elif k == "u8": parts.append(U8(P)); P = add(P, const(1))
                else: parts.append((k, P)); P = add(P, const(1))
            adds = [e for e in evs if e.kind == "mut" and e.base == raw]
            if len(adds) != 1 or adds[0].name != "append": raise Mismatch("an element of %s is not kept exactly once, in order" % n)
            got = self.v.canon(adds[0].args[0])
            gots = list(got[2]) if len(kinds) > 1 and got[0] == "seq" else [got]
            if len(gots) != len(parts): raise Mismatch("an element of %s is kept as %s" % (n, show(got)[:120]))
            for x, w in zip(gots, parts):
                if isinstance(w[1], tuple) and w[0] in ("options", "reason"):
                    if x[0] != "new": raise Murky("%s: element %s" % (self.v.fn.where, show(x)[:100]))
                    cls = {"options": "SubscribeOptions", "reason": "ReasonCodes"}[w[0]]
                    if x[1].split(".")[-1] != cls: raise Mismatch("an element of %s is a %s" % (n, x[1].split(".")[-1]))
                    hits = [e for e in evs if e.kind == "call" and e.name.endswith("unpack")]
                    if not any((self.v.canon(e.base) if e.base else None) == x and [self.v.canon(a) for a in e.args][:1] == [BUF(w[1])] or [self.v.canon(a) for a in e.args][:2] == [x, BUF(w[1])] for e in hits):
                        raise Mismatch("the %s of an element of %s is not read from its place" % (w[0], n))
                elif x != w: raise Mismatch("an element of %s is read as %s from another place or in another form" % (n, show(x)[:120]))
            for a, m in self.v.acc.items():
                if not mentions(m, Q): continue
                if a[3] not in upd: raise Mismatch("the place of the next element does not move on")
                after = self.v.canon(upd[a[3]][1])
                new = after if m == Q else add(END, after, -1)
                if new != P: raise Mismatch("after an element of %s reading goes on at another place than the next one's (%s)" % (n, show(add(new, P, -1))[:80]))
        self.P = Q

class Verdict:
    def __init__(self): self.bad, self.n, self.undecided = {}, 0, []
    def add(self, what, msg, p): self.bad.setdefault(what, []).append((msg, p))

ZERO_OK = {"PUBLISH"}
WIDTHS = {HL: (2, 5)}

def flags_ok(qos, e):
    "the header flags a packet may have; qos None for PUBLISH"
    d, q, r = e[attr(FH, "DUP")], e[attr(FH, "QoS")], e[attr(FH, "RETAIN")]
    if qos is None: return q != 3 and not (q == 0 and d)
    return q == qos and not d and not r

NEEDID = {"PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE"}

class Views:
    "the paths of a decoder, rewritten"
    def __init__(self, F, cname, layout):
        self.fn = F.fn(cname, "unpack", fields_of(layout, F.five))
        kind = type("View", (View,), {"five": lambda s, b=F.five: b})
        self.views = [kind(self.fn, p) for p in self.fn.paths]
        self.good = [v for v in self.views if not v.p.raised]
        self.raised = [v for v in self.views if v.p.raised]

def sane(v):
    "can this path happen on a packet that is exactly its buffer?"
    for (k, t), d in v.conds.items():
        if d.empty(): return False
        if k == "v" and t == BUF(const(0)) and not set(d.classes) - {"N"}: return False      # a decoder without a packet
        if t[0] != "const" and k == "d" and is_num(t):
            o = v.conds.get(("v", t))
            if o is not None:
                if o.inc is not None and not any(isinstance(c, (int, float)) and d.lo <= c <= d.hi for c in o.inc): return False
                if o.inc is None and "T" not in o.classes and not d.lo <= 0 <= d.hi: return False
                if o.inc is None and "F" not in o.classes and d.lo == d.hi == 0: return False
            if t == RL and d.hi < 0: return False
        if is_const(t) and k == "d" and not (d.lo <= t[1] <= d.hi): return False
        if is_const(t) and k == "v" and not d.has(t[1]): return False
        if k == "b" and t[0] == "cmp" and t[1] in ("==", "!=", "<", "<=", ">", ">="):
            x = add(t[2], t[3], -1)
            if is_const(x) and isinstance(x[1], int) and not sat((k, ("cmp", t[1], x, const(0))), d, {}): return False
            if (t[1], d) in (("==", NO), ("!=", YES)) and v.zero(x): return False
    return True

def check_decoder(F, name, cname, qos, layout, V=None):
    """C01/C02: what is read where;  C07: what must be refused is refused, and nothing else is.
    -> (Views, Verdict for the layout, Verdict for refusal, Verdict for acceptance)"""
    five = F.five
    V = V or Views(F, cname, layout)
    lay, ref, acc = Verdict(), Verdict(), Verdict()
    shapes = set()
    for v in V.good:
        if not sane(v): continue
        try:
            for w in walks(lambda d: DecWalk(v, d), layout, five):
                if w.stopped: continue
                lay.n += 1
                judge_good(v, w, name, qos, five, ref)
                shapes.add(w.tails)
        except Mismatch as m: lay.add("layout", str(m), v.p)
    if five and any("tail" in k for k in ()): pass
    for v in V.raised:
        if not sane(v): continue
        if any(t[0] == "unk" and str(t[1]).startswith("from ") for t in subterms(v.p.raised)): continue    # what a reader of its fields refuses
        for w in walks(lambda d: DecWalk(v, d, strict=False), layout, five):
            acc.n += 1
            m = judge_raised(v, w, name, qos, five)
            if m: acc.add("accepted", m, v.p)
    return V, lay, ref, acc, shapes

def judge_good(v, w, name, qos, five, ref):
    p = v.p
    es = w.header()
    for e in es:
        if not flags_ok(qos, e):
            ref.add("flags", "accepted with DUP=%s QoS=%s RETAIN=%s in the fixed header" % (e[attr(FH, "DUP")], e[attr(FH, "QoS")], e[attr(FH, "RETAIN")]), p); break
    if w.end_at is not None and not v.zero(add(END, w.end_at, -1)):
        ref.add("length", "accepted although it may be shorter or longer than its fields", p)
    for q, m in v.maxlens:
        if add(add(END, q, -1), m, -1) != const(0) and not v.zero(add(add(END, q, -1), m, -1)):
            ref.add("length", "a string is read with %s bytes left, not those left in the packet" % show(m)[:160], p)
    if name in NEEDID and w.u16s:
        for leaf in w.u16s.values():
            if not (name == "PUBLISH" and "KeepAliveTimer" in w.u16s) and possible(v, leaf, 0): ref.add("identifier", "accepted with packet identifier 0", p)
    if name == "CONNECT":
        leaf = w.flags["WillFlag"][0]
        for b in w.values(leaf):
            if not connect_flags_ok(b, five): ref.add("flags", "accepted with connect flags %d" % b, p); break
        d = None
        pn = UTF(HL)
        if not any(k[0] == "v" and k[1] == pn and d.inc is not None and d.inc <= {"MQTT"} for k, d in v.conds.items()): ref.add("name", "accepted with any protocol name", p)
        if five and set(w.values(w.u8s["ProtocolVersion"])) != {5}: ref.add("version", "accepted with another protocol version than 5", p)
    if name == "CONNACK":
        leaf = w.u8s.get("flags of the packet") or w.u8s.get("flags")
        if not set(w.values(leaf)) <= {0, 1}: ref.add("flags", "accepted with acknowledge flags other than 0 and 1", p)
    if w.listed and name in ("SUBSCRIBE", "UNSUBSCRIBE"):
        if getattr(w, "zero_items", False): ref.add("empty", "accepted without a topic filter", p)
    if w.listed and not five and not getattr(w, "zero_items", False):
        ok = {"SUBSCRIBE": {0, 1, 2}, "SUBACK": {0, 1, 2, 0x80}}.get(name)
        if ok:
            for L in v.loops:
                for conds, evs, ctrl, upd, src in L.steps:
                    if ctrl is not None and ctrl[0] == "raise": continue
                    adds = [e for e in evs if e.kind == "mut"]
                    for e in adds:
                        x = v.canon(e.args[0])
                        leaf = x[2][-1] if x[0] == "seq" else x
                        cc = {(k[0], v.canon(k[1])): d for k, d in conds.items()}
                        vals = {en[leaf] for en in allowed(cc, {leaf: range(256)})}
                        if not vals <= ok: ref.add("qos", "accepted with QoS or return code %s" % sorted(vals - ok)[0], p)

def possible(v, leaf, x):
    for k, d in v.conds.items():
        if leaves(k[1], lambda t: t == leaf):
            try:
                if not sat(k, d, {leaf: x}): return False
            except Unknown: pass
    return True

def connect_flags_ok(b, five):
    will, q, r = b >> 2 & 1, b >> 3 & 3, b >> 5 & 1
    if b & 1: return False
    if will and q == 3: return False
    if not will and (q or r): return False
    if not five and b >> 6 & 1 and not b >> 7 & 1: return False
    return True

def judge_raised(v, w, name, qos, five):
    "a refusal must contradict something that holds of every well-formed packet"
    conds = dict(v.conds)
    finals = [L.final for L in v.loops if L.final is not None and L.final.ctrl and L.final.ctrl[0] == "raise"]
    for f in finals:
        for k, d in f.conds.items():
            t = v.canon(k[1]); k2 = (k[0], t)
            conds[k2] = conds[k2].meet(d) if k2 in conds else d
    # header
    if not any(flags_ok(qos, e) for e in allowed(conds, HEADER)): return None
    facts = []     # (leaf, values it may have)
    for n, leaf in w.u8s.items():
        facts.append((leaf, good_bytes(name, n, five)))
    facts.append((U8(const(0)), {b for b in range(256) if b >> 4 == dict((p[0], p[2]) for p in PACKETS)[name]}))
    if name == "CONNECT":
        k = [d for k, d in conds.items() if k == ("v", UTF(HL))]
        if k and not k[0].has("MQTT"): return None
    for leaf, vals in facts:
        if not allowed(conds, {leaf: sorted(vals)}): return None
    if name != "CONNECT":
        for leaf in w.u16s.values():
            if leaf[1] == "u16" and not any(possible_in(conds, leaf, x) for x in (1, 2, 255, 256, 65535)): return None
    # elements of a list
    if not five:
        ok = {"SUBSCRIBE": {0, 1, 2}, "SUBACK": {0, 1, 2, 0x80}}.get(name)
        if ok:
            for f in finals:
                for k, d in conds.items():
                    for t in subterms(k[1]):
                        if t[:2] == ("call", "byte") and any(x[:2] == ("call", "pos") for x in subterms(t)) and leaves(k[1], lambda x: x == t):
                            if not allowed({k: d}, {t: sorted(ok)}): return None
    # lengths
    end = w.end_at if w.end_at is not None else None
    lo = dict(WIDTHS); lo.update({x: (n, INF) for x, n in w.widths.items()})
    env = {}
    if end is not None: m = {RL: add(end, HL, -1)}
    elif w.listed: m, lo[RL] = {}, (2 + (1 if five else 0) + (3 if name in ("SUBSCRIBE", "UNSUBSCRIBE") and name == "UNSUBSCRIBE" else 0), INF)
    elif w.rest_at is not None: m, lo[RL] = {RL: add(add(w.rest_at, HL, -1), C("rest"))}, (0, INF); lo[C("rest")] = (0, INF)
    else: m, lo[RL] = {}, (0, INF)
    at_least = w.P
    for (k, t), d in conds.items():
        if k == "d" or k == "v" and is_num(t): pass
        elif k == "b" and t[0] == "cmp" and t[1] in ("==", "!="):
            x = relin(add(t[2], t[3], -1), m)
            a, b = span(x, lo)
            if w.listed and not finals and any(x in (add(END, C("pos", const(i)), -1), scale(add(END, C("pos", const(i)), -1), -1)) for i in range(len(v.loops))): a = b = 0
            eq = t[1] == "=="
            if d == (NO if eq else YES) and a == b == 0: return None
            if d == (YES if eq else NO) and (a > 0 or b < 0): return None
            continue
        else: continue
        x = relin(t, m)
        a, b = span(x, lo)
        if k == "d" and (d.hi < a or d.lo > b): return None
        if k == "v" and d.inc is not None and all(isinstance(c, (int, float)) and (c < a or c > b) for c in d.inc): return None
        if k == "v" and a == b and not d.has(int(a) if a not in (INF, -INF) else a): return None
        if k == "v" and "T" not in d.classes and (a > 0 or b < 0): return None
        if name in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP") and t == RL: pass
    # a list: reading element after element ends exactly at the end
    if w.listed:
        for L in v.loops:
            for t in list(v.acc.values()):
                for (k, x), d in conds.items():
                    if k in ("d", "v") and x in (add(END, C("pos", const(v.loops.index(L))), -1), scale(add(END, C("pos", const(v.loops.index(L))), -1), -1)):
                        if k == "v" and not d.has(0) or k == "d" and not (d.lo <= 0 <= d.hi):
                            if not finals: return None
        if not v.loops:
            # no element at all
            if name in ("SUBSCRIBE", "UNSUBSCRIBE"):
                for (k, x), d in conds.items():
                    if k in ("d", "v") and x[0] == "lin" and to_lin(x)[1].get(RL) == 1 or x == RL:
                        a, b = span(x, {**lo, RL: (0, INF)})
                        z = add(x, add(END, w.P, -1), -1)
                        if k == "d" and is_const(z) and d.hi - z[1] <= 1: return None
            else:
                r = relin(add(END, w.P, -1), {})
                for (k, x), d in conds.items():
                    if k == "v" and x == r and not d.has(0): return None
                    if k == "d" and x == r and not (d.lo <= 0 <= d.hi): return None
    return "refused although well-formed"

def possible_in(conds, leaf, x):
    for k, d in conds.items():
        if leaves(k[1], lambda t: t == leaf):
            try:
                if not sat(k, d, {leaf: x}): return False
            except Unknown: pass
    return True

def good_bytes(name, n, five):
    if name == "CONNECT" and n == "ProtocolVersion": return {5} if five else set(range(256))
    if name == "CONNECT" and n == "flags of the packet": return {b for b in range(256) if connect_flags_ok(b, five)}
    if name == "CONNACK" and n in ("flags", "flags of the packet"): return {0, 1}
    return set(range(256))

def relin(t, m):
    c, ts = to_lin(t)
    s = const(c)
    for x, k in ts.items(): s = add(s, scale(m.get(x, x), k))
    return s
def span(t, lo):
    c, ts = to_lin(t)
    a = b = c
    for x, k in ts.items():
        l, h = lo.get(x, (-INF, INF))
        if x[:2] in (("call", "byte"),): l, h = 0, 255
        if x[:2] in (("call", "u16"),): l, h = 0, 65535
        if k > 0: a += k * l; b += k * h
        else: a += k * h; b += k * l
    return a, b
