from ..fold import Lost, Raised, Sym, Bytes, Obj, Unclear, norm, cells, deps, show
from ..base import AnalysisBroken

PK = {n: i + 1 for i, n in enumerate("CONNECT CONNACK PUBLISH PUBACK PUBREC PUBREL PUBCOMP SUBSCRIBE SUBACK UNSUBSCRIBE UNSUBACK PINGREQ PINGRESP DISCONNECT AUTH".split())}
ALLP = list(PK) + ["WILLMESSAGE"]
TABLE = {
    1: ("Payload Format Indicator", "byte", "PUBLISH WILLMESSAGE"), 2: ("Message Expiry Interval", "four", "PUBLISH WILLMESSAGE"),
    3: ("Content Type", "text", "PUBLISH WILLMESSAGE"), 8: ("Response Topic", "text", "PUBLISH WILLMESSAGE"), 9: ("Correlation Data", "binary", "PUBLISH WILLMESSAGE"),
    11: ("Subscription Identifier", "vbi", "PUBLISH SUBSCRIBE"), 17: ("Session Expiry Interval", "four", "CONNECT CONNACK DISCONNECT"),
    18: ("Assigned Client Identifier", "text", "CONNACK"), 19: ("Server Keep Alive", "two", "CONNACK"),
    21: ("Authentication Method", "text", "CONNECT CONNACK AUTH"), 22: ("Authentication Data", "binary", "CONNECT CONNACK AUTH"),
    23: ("Request Problem Information", "byte", "CONNECT"), 24: ("Will Delay Interval", "four", "WILLMESSAGE"), 25: ("Request Response Information", "byte", "CONNECT"),
    26: ("Response Information", "text", "CONNACK"), 28: ("Server Reference", "text", "CONNACK DISCONNECT"),
    31: ("Reason String", "text", "CONNACK PUBACK PUBREC PUBREL PUBCOMP SUBACK UNSUBACK DISCONNECT AUTH"), 33: ("Receive Maximum", "two", "CONNECT CONNACK"),
    34: ("Topic Alias Maximum", "two", "CONNECT CONNACK"), 35: ("Topic Alias", "two", "PUBLISH"), 36: ("Maximum QoS", "byte", "CONNACK"), 37: ("Retain Available", "byte", "CONNACK"),
    38: ("User Property", "pair", "CONNECT CONNACK PUBLISH WILLMESSAGE PUBACK PUBREC PUBREL PUBCOMP SUBSCRIBE SUBACK UNSUBSCRIBE UNSUBACK DISCONNECT AUTH"),
    39: ("Maximum Packet Size", "four", "CONNECT CONNACK"), 40: ("Wildcard Subscription Available", "byte", "CONNACK"),
    41: ("Subscription Identifier Available", "byte", "CONNACK"), 42: ("Shared Subscription Available", "byte", "CONNACK")}
MULTI = {11, 38}
TEXTUAL = (".find", ".index", ".count")

def well_formed(t):
    "text is what the standard allows: looking for a forbidden character finds none"
    if t[0] == "in" and isinstance(t[1], str) and len(t[1]) == 1: return False
    for i, j in ((1, 2), (2, 1)):
        if t[0] in ("==", "<") and isinstance(t[i], tuple) and t[i] and t[i][0] == ".find" and isinstance(t[j], int):
            return t[j] == -1 if t[0] == "==" else (-1 < t[j] if i == 1 else t[j] < -1)
        if t[0] in ("==", "<") and isinstance(t[i], tuple) and t[i] and t[i][0] == ".count" and isinstance(t[j], int):
            return t[j] == 0 if t[0] == "==" else (0 < t[j] if i == 1 else t[j] < 0)
    # a character of it is a letter
    def letter(x): return 97 if isinstance(x, tuple) and x[:1] == ("ord",) and x[1][:1] == ("char",) else "a" if isinstance(x, tuple) and x[:1] == ("char",) else x
    if t[0] in ("==", "<", "<=", "in") and len(t) == 3:
        a, b = letter(t[1]), letter(t[2])
        if (a, b) != t[1:]:
            try: return a == b if t[0] == "==" else a < b if t[0] == "<" else a <= b if t[0] == "<=" else a in b
            except TypeError: pass
    return None

def value(ty, k, size=None):
    "(value, its encoding) of a type, the k-th one"
    if ty == "byte": return 1, bytes([1])
    if ty == "two": v = 0x1234 + k; return v, v.to_bytes(2, "big")
    if ty == "four": v = 0x12345678 + k; return v, v.to_bytes(4, "big")
    if ty == "vbi":
        v = (300, 5, 70000, 30000000)[k % 4]; out = b""; x = v
        while True:
            x, d = divmod(x, 128)
            out += bytes([d | (128 if x else 0)])
            if not x: return v, out
    if ty == "binary":
        n = 5 + k if size is None else size; b = Bytes([Sym(("$b", k, i), int) for i in range(n)]); b = norm(b)
        return b, Bytes(tuple(n.to_bytes(2, "big")) + cells(b))
    if ty == "text":
        n = 4 + 3 * k if size is None else size
        return Sym(("$s", k), str, n), Bytes(tuple(n.to_bytes(2, "big")) + tuple(Sym(("u8", ("$s", k), i), int) for i in range(n)))
    a, ea = value("text", 2 * k + 10, 3 + k if size is None else size); b, eb = value("text", 2 * k + 11, 6 if size is None else size)
    return (a, b), Bytes(ea.cells + eb.cells)
def vbi(n):
    out = b""
    while True:
        n, d = divmod(n, 128)
        out += bytes([d | (128 if n else 0)])
        if not n: return out
def wire(*parts):
    cs = ()
    for p in parts: cs += cells(p)
    return norm(Bytes(cs))
def same(ty, got, want, enc):
    "is the decoded value the one encoded"
    if ty == "text": return isinstance(got, Sym) and got.kind is str and deps(got) == deps(enc) and len(deps(enc)) > 0
    if ty == "pair":
        if not isinstance(got, (tuple, list)) or len(got) != 2: return False
        n = 2 + (enc.cells[0] * 256 + enc.cells[1]); h = (Bytes(enc.cells[:n]), Bytes(enc.cells[n:]))
        return all(same("text", g, None, e) for g, e in zip(got, h))
    if ty == "binary": return isinstance(got, (bytes, Bytes)) and norm(got) == norm(want)
    return not isinstance(got, Sym) and type(got) is int and got == want

def arithmetic(t):
    "a condition on numbers only: lengths, bytes and sums of them"
    if not isinstance(t, tuple): return isinstance(t, int)
    if t[0].startswith("$") or t[0] in ("len", "u8"): return True
    return t[0] in ("not", "==", "<", "+", "-", "*", "//", "%", "&", "|", "<<", ">>") and all(arithmetic(x) for x in t[1:])

def check(c):
    c.rule("table", "for each of the 27 properties and each packet type, setting it is refused exactly when the standard does not list it")
    c.rule("write", "a property is written as its identifier and its value in the standard's type; the property length counts exactly the properties' bytes")
    c.rule("read", "what is written is read back with its value; a property that is repeated, foreign, unknown or runs past the end is refused")
    c.rule("multiple", "only User Property, and the Subscription Identifier in a PUBLISH, may occur more than once, and then none is lost")
    P = c.P; M = "mqtt.formats.MQTTV5.MQTTV5"
    cls = P.cls(M, "Properties"); pt = P.cls(M, "PacketTypes")
    fns = {n: P.func(M, "Properties." + n) for n in ("__init__", "pack", "unpack")}
    where = "%s: class Properties" % cls.module.rel
    F = c.fold(oracle=well_formed, most=24, asks=8)
    num = {}
    for v, _, _ in F.run(lambda f: {n: f.classattr(pt, n) for n in ALLP}): num = v
    bad = [n for n in PK if num.get(n) != PK[n]] + ([] if isinstance(num.get("WILLMESSAGE"), int) and num["WILLMESSAGE"] not in PK.values() else ["WILLMESSAGE"])
    c.ob("numbers", not bad, "%s: class PacketTypes" % pt.module.rel, "the packet types %s do not have the standard's numbers" % bad)
    if bad: return
    def make(f, p): return f.apply(cls, [num[p]], {})
    def ways(what):
        c.count("property tables folded")
        return F.run(what)
    def accepted(rs):
        ok = [r for r in rs if not isinstance(r[0], (Raised, Lost))]
        if not ok: clear(rs)
        return ok
    def clear(rs):
        for r in rs:
            if isinstance(r[0], Lost): raise r[0]
    comp = lambda n: n.replace(" ", "")
    # ---- which property in which packet
    def table(i):
        name, ty, pk = TABLE[i]; pk = pk.split(); wrong = []
        for p in ALLP:
            v, _ = value(ty, 0)
            for nm in (name, comp(name)):
                def go(f):
                    o = make(f, p); f.setattr(o, nm, v); return f.getattr(o, comp(name))
                rs = ways(go); ok = accepted(rs)
                if p in pk and not ok: wrong.append("%s refuses %s" % (p, nm))
                elif p in pk and any(r[0] != ([v] if i in MULTI else v) for r in ok): wrong.append("%s in %s is stored as %r" % (nm, p, ok[0][0]))
                elif p not in pk and ok: wrong.append("%s accepts %s" % (p, nm))
        c.ob("table.%d" % i, not wrong, where, "property %d (%s): %s" % (i, name, "; ".join(wrong[:6])))
    for i in TABLE: c.part("table.%d" % i, table, i)
    def nosuch():
        wrong = [p for p in ALLP if accepted(ways(lambda f: f.setattr(make(f, p), "NoSuchProperty", 1)))]
        c.ob("table.unknown", not wrong, where, "an unknown property name is accepted for %s" % wrong[:4])
    c.part("table.unknown", nosuch)
    def multiple(i):
        name, ty, pk = TABLE[i]; wrong = []
        for p in pk.split():
            vs = [value(ty, k)[0] for k in range(3)]
            def go(f):
                o = make(f, p)
                for v in vs: f.setattr(o, comp(name), v)
                return f.getattr(o, comp(name))
            for r in ways(go):
                if isinstance(r[0], Raised) or r[0] != vs: wrong.append("%s: three values of %s become %r" % (p, name, r[0]))
        c.ob("multiple.%d" % i, not wrong, where, "; ".join(map(str, wrong[:3])))
    for i in MULTI: c.part("multiple.%d" % i, multiple, i)
    # ---- writing
    def judge(rs, blocks):
        "blocks: per property the encodings in order; None or what is wrong"
        total = sum(len(cells(b)) for bs in blocks for b in bs)
        for v, _, _ in rs:
            if isinstance(v, Lost): raise v
            if isinstance(v, Raised): return "writing raises %s" % v.name
            v = norm(v) if isinstance(v, Bytes) else v
            if isinstance(v, bytearray): v = bytes(v)
            if not isinstance(v, (bytes, Bytes)): raise Unclear("what is written is not known: %r" % (v,))
            got, head = cells(v), vbi(total)
            if got[:len(head)] != tuple(head): return "the properties take %d bytes, but the length written is %s" % (total, Bytes(got[:len(head)])) if len(got) >= len(head) else "too little is written"
            got = got[len(head):]; left = [list(b) for b in blocks]
            while got:
                for b in left:
                    if b and got[:len(cells(b[0]))] == cells(b[0]): got = got[len(cells(b[0])):]; b.pop(0); break
                else: return "%r is written where %s is due" % (Bytes(got[:12]), " or ".join(repr(Bytes(cells(b[0])[:8])) for b in left if b) or "nothing more")
            if any(left): return "a property is not written"
        return None
    def write(i):
        name, ty, pk = TABLE[i]; wrong = []
        for p in pk.split():
            for k in (range(4) if ty == "vbi" else (0, 1)):
                v, e = value(ty, k)
                def go(f):
                    o = make(f, p); f.setattr(o, comp(name), v); return f.call(f.getattr(o, "pack"))
                m = judge(ways(go), [[wire(bytes([i]), e)]])
                if m: wrong.append("%s in %s: %s" % (name, p, m))
        c.ob("write.%d" % i, not wrong, fns["pack"].where if hasattr(fns["pack"], "where") else where, "; ".join(wrong[:2]))
    for i in TABLE: c.part("write.%d" % i, write, i)
    def write_all(p):
        mine = [i for i in TABLE if p in TABLE[i][2].split()]
        vals = {i: [value(TABLE[i][1], k, 40 if TABLE[i][1] in ("text", "binary", "pair") else None) for k in range(2 if i in MULTI else 1)] for i in mine}
        def go(f):
            o = make(f, p)
            for i in mine:
                for v, _ in vals[i]: f.setattr(o, comp(TABLE[i][0]), v)
            e = f.call(f.getattr(o, "isEmpty"))
            b = f.call(f.getattr(o, "pack"))
            f.call(f.getattr(o, "clear"))
            return (b, e, f.call(f.getattr(o, "pack")), f.call(f.getattr(o, "isEmpty")))
        rs = ways(go); bad = [r for r in rs if isinstance(r[0], Raised)]
        m = "writing all properties raises %s" % bad[0][0].name if bad else judge([(r[0][0], 0, 0) for r in rs], [[wire(bytes([i]), e) for _, e in vals[i]] for i in mine])
        c.ob("write.all.%s" % p, not m, where, "%s: %s" % (p, m))
        if bad: return
        m = judge([(r[0][2], 0, 0) for r in rs], [])
        c.ob("clear.%s" % p, not m and all(r[0][3] is True and r[0][1] is (not mine) for r in rs), where, "%s: after clear() or before, isEmpty() or pack() do not tell the truth: %s" % (p, m or [r[0][1:] for r in rs][:1]))
    for p in ALLP: c.part("write.all.%s" % p, write_all, p)
    # ---- reading
    tail = Bytes([Sym(("$tail", i), int) for i in range(6)])
    def unpack(p, buf, reused=None):
        def go(f):
            o = make(f, p)
            if reused: f.setattr(o, reused[0], reused[1])
            r = f.call(f.getattr(o, "unpack"), buf)
            n = f.getitem(r, 1)
            return o, n, {comp(TABLE[i][0]): f.getattr(o, comp(TABLE[i][0]), None) for i in TABLE}
        return ways(go)
    def expect(rs, n, want):
        "want: property -> [(type, value, encoding)]"
        ok = accepted(rs)
        if not ok: return "a correct property is refused (%s)" % rs[0][0].name
        for r in rs:
            if isinstance(r[0], Raised) and all(arithmetic(t) for t, _ in r[1]): return "a correct property is refused (%s) if %s" % (r[0].name, " and ".join("%s%s" % ("" if a else "not ", show(t)) for t, a in r[1]))
        for (o, got, vals), _, _ in ok:
            if got != n: return "%s bytes are said to have been used instead of %d" % (show(got) if isinstance(got, Sym) else got, n)
            for k, v in vals.items():
                i = next(i for i in TABLE if comp(TABLE[i][0]) == k)
                if i not in want:
                    if v is not None: return "%s appears from nowhere" % k
                    continue
                v = v if i in MULTI else [v]
                if not isinstance(v, list) or len(v) != len(want[i]) or not all(same(ty, g, w, e) for g, (ty, w, e) in zip(v, want[i])): return "%s is read as %r" % (k, v)
        clear(rs)
        return None
    def read(i):
        name, ty, pk = TABLE[i]; wrong, foreign = [], []
        for p in ALLP:
            for k in (range(4) if ty == "vbi" else (0, 1)):
                v, e = value(ty, k); body = wire(bytes([i]), e); n = len(cells(body)); buf = wire(vbi(n), body, tail)
                rs = unpack(p, buf)
                if p in pk.split():
                    m = expect(rs, n + len(vbi(n)), {i: [(ty, v, e)]})
                    if m: wrong.append("%s in %s: %s" % (name, p, m))
                elif accepted(rs): foreign.append(p)
        c.ob("read.%d" % i, not wrong, where, "; ".join(wrong[:2]))
        c.ob("read.foreign.%d" % i, not foreign, where, "a received %s is accepted in %s" % (name, foreign))
    for i in TABLE: c.part("read.%d" % i, read, i)
    def twice(i):
        name, ty, pk = TABLE[i]; wrong = []
        for p in pk.split():
            es = [value(ty, k) for k in range(2)]; body = wire(*[wire(bytes([i]), e) for _, e in es]); n = len(cells(body))
            rs = unpack(p, wire(vbi(n), body, tail))
            if i == 38 or i == 11 and p == "PUBLISH":
                m = expect(rs, n + len(vbi(n)), {i: [(ty, v, e) for v, e in es]})
                if m: wrong.append("%s twice in %s: %s" % (name, p, m))
            elif accepted(rs): wrong.append("%s may occur twice in %s" % (name, p))
        c.ob("read.twice.%d" % i, not wrong, where, "; ".join(wrong[:3]))
    for i in TABLE: c.part("read.twice.%d" % i, twice, i)
    def read_all(p):
        mine = [i for i in TABLE if p in TABLE[i][2].split()]
        for order in (mine, mine[::-1]):
            vals = {i: value(TABLE[i][1], 0, 30 if TABLE[i][1] in ("text", "binary", "pair") else None) for i in order}
            body = wire(*[wire(bytes([i]), vals[i][1]) for i in order]); n = len(cells(body))
            m = expect(unpack(p, wire(vbi(n), body, tail)), n + len(vbi(n)), {i: [(TABLE[i][1],) + vals[i]] for i in order})
            if m: break
        c.ob("read.all.%s" % p, not m, where, "all properties of %s: %s" % (p, m))
        if mine:
            i = mine[0]
            m = expect(unpack(p, wire(b"\0", tail), (comp(TABLE[i][0]), value(TABLE[i][1], 0)[0])), 1, {})
            c.ob("read.fresh.%s" % p, not m, where, "properties left from before: %s" % m)
    for p in ALLP: c.part("read.all.%s" % p, read_all, p)
    def unknown():
        wrong = []
        for i in [i for i in range(128) if i not in TABLE] + [129, 128 + 38, 300]:
            h = vbi(i)
            for p in ("PUBLISH", "CONNECT"):
                body = wire(h, b"\1\1\1\1"); n = len(cells(body))
                if accepted(unpack(p, wire(vbi(n), body, tail))): wrong.append(i)
        c.ob("read.unknown", not wrong, where, "property identifiers the standard does not know are accepted: %s" % sorted(set(wrong))[:8])
    c.part("read.unknown", unknown)
    def length():
        wrong, lost = [], []
        def taken(rs):
            lost.extend(r[0] for r in rs if isinstance(r[0], Lost))
            return any(not isinstance(r[0], (Raised, Lost)) for r in rs)
        for i, (name, ty, pk) in TABLE.items():
            if len(wrong) > 3: break
            p = pk.split()[0]; v, e = value(ty, 1); body = wire(bytes([i]), e); n = len(cells(body))
            for m in range(1, n):
                if taken(unpack(p, wire(vbi(m), body, tail))): wrong.append("%s of %d bytes in properties of %d" % (name, n, m))
            if taken(unpack(p, wire(vbi(n + 7), body, tail))): wrong.append("properties of %d bytes in %d" % (n + 7, n + 6))
            for t in range(len(cells(body))):
                if taken(unpack(p, wire(vbi(n), Bytes(cells(body)[:t])))): wrong.append("%s cut off after %d bytes" % (name, t))
        if lost and not wrong: raise lost[0]
        c.ob("read.length", not wrong, where, "accepted: " + "; ".join(wrong[:4]))
    c.part("read.length", length)
