import itertools
from ..fold import Fold, Raised, Lost, Endless, Sym, Bytes, BA, Obj, Unclear, norm, cells, deps, show, value
from ..world import unknown

M = "mqtt.formats.MQTTSN.MQTTSN"
B = (False, True)
# flag: (lowest bit, {value of the attribute: bits})
FLAGS = {"DUP": (7, {False: 0, True: 1}), "QoS": (5, {0: 0, 1: 1, 2: 2, -1: 3}), "RETAIN": (4, {False: 0, True: 1}), "Will": (3, {False: 0, True: 1}),
         "CleanSession": (2, {False: 0, True: 1}), "TopicIdType": (0, {0: 0, 1: 1, 2: 2, 3: 3})}
TYPES = dict(ADVERTISE=0, SEARCHGW=1, GWINFO=2, CONNECT=4, CONNACK=5, WILLTOPICREQ=6, WILLTOPIC=7, WILLMSGREQ=8, WILLMSG=9, REGISTER=10, REGACK=11, PUBLISH=12, PUBACK=13,
             PUBCOMP=14, PUBREC=15, PUBREL=16, SUBSCRIBE=18, SUBACK=19, UNSUBSCRIBE=20, UNSUBACK=21, PINGREQ=22, PINGRESP=23, DISCONNECT=24, WILLTOPICUPD=26, WILLTOPICRESP=27,
             WILLMSGUPD=28, WILLMSGRESP=29)
FORMATS = {"Connects": (4, [("Flags", "flags"), ("ProtocolId", 1), ("Duration", 2), ("ClientId", "text")]),
           "Connacks": (5, [("ReturnCode", 1)]),
           "Publishes": (12, [("Flags", "flags"), ("TopicId", 2), ("MsgId", 2), ("Data", "data")])}

def say(v): return "%s is raised" % v.name if isinstance(v, Raised) else "an endless loop (%s)" % v if isinstance(v, Endless) else repr(v)[:80]
SOME = {1: (0, 1, 127, 128, 255), 2: (0, 1, 255, 256, 0x1234, 32768, 65535)}
def head(n): return (n + 1,) if n + 1 < 256 else (1, (n + 3) // 256, (n + 3) % 256)   # n: type and body

def possible(asked, env):
    "may this way be taken with these values? (questions about other things: yes)"
    for t, a in asked:
        if deps(t) and not all(d in env for d in deps(t)): continue
        if bool(value(t, env)) != a: return False
    return True
def domain(name, k): return range(256 ** k)
def agrees(term, asked, unk, dom, want):
    "the first value of one unknown for which the term is not what is wanted; None: it always is"
    for v in dom:
        env = {unk: v}
        if possible(asked, env) and value(term, env) != want(v): return v
def only(v, unk): return not isinstance(v, Sym) or deps(v) <= {unk}

def check(c):
    c.rule("encoder", "a message is its length, its type and the fields of the standard's layout; the length counts the whole message, in one byte up to 255 and in three above")
    c.rule("decoder", "each field of the layout is set to the bytes at its place, behind a length of one byte and of three")
    c.rule("flags", "each flag is at its place in the byte of flags, for all combinations of values, and read from there")
    c.rule("dispatch", "the class that decodes a message is the one of its type, and a type without a decoder is not taken for another")
    F = c.fold(oracle=lambda t: None, most=4000)
    mod = c.P.mod(M)
    def runs(what):
        c.count("coders folded"); rs = F.run(what)
        for r in rs:
            if isinstance(r[0], Lost): raise r[0]
        return rs
    fl = c.P.cls(M, "Flags")
    U = {n: ("$" + n,) for n in FLAGS}
    def where(cls, m): f = cls.find(m); return "%s:%d: %s.%s" % (mod.rel, f.node.lineno, cls.name, m)
    def flags(o, f):
        for n, (at, vals) in FLAGS.items():
            o.attrs[n] = Sym(U[n], bool if set(vals) == set(B) else int)
    every = [dict(zip([U[n] for n in FLAGS], vs)) for vs in itertools.product(*[list(v[1]) for v in FLAGS.values()])]
    def byte(env): return sum(FLAGS[n][1][env[U[n]]] << FLAGS[n][0] for n in FLAGS)
    def packs():
        bad = []
        def go(f):
            o = f.new(fl, [], {}); flags(o, f); return f.call(f.getattr(o, "pack"))
        seen = 0
        for r, asked, _ in runs(go):
            for env in every:
                if not possible(asked, env): continue
                seen += 1
                if not isinstance(r, (bytes, Bytes)) or len(cells(r)) != 1: bad.append("%s instead of one byte" % say(r)); break
                got = value(cells(r)[0], env)
                if got != byte(env): bad.append("%s is encoded as %02x instead of %02x" % (", ".join("%s=%s" % (k[0][1:], v) for k, v in env.items()), got, byte(env))); break
        c.count("combinations of flags", seen)
        c.ob("flags.encoder", seen >= len(every) and not bad, where(fl, "pack"), "; ".join(bad[:2]) or "not every combination can be encoded")
    c.part("flags.encoder", packs)
    def takes():
        bad = []; b = ("$b0",)
        def go(f):
            o = f.new(fl, [], {}); f.call(f.getattr(o, "unpack"), Sym(b, int)); return o
        seen = 0
        for r, asked, _ in runs(go):
            for v in range(256):
                if not possible(asked, {b: v}): continue
                seen += 1
                if not isinstance(r, Obj): bad.append("%02x: %s" % (v, say(r))); break
                for n, (at, vals) in FLAGS.items():
                    x = value(r.attrs.get(n), {b: v})
                    want = {w: k for k, w in vals.items()}[(v >> at) & max(vals.values())]
                    if x != want or isinstance(want, bool) and type(x) is not bool: bad.append("%02x: %s is %r instead of %r" % (v, n, x, want)); break
        c.ob("flags.decoder", seen >= 256 and not bad, where(fl, "unpack"), "; ".join(bad[:2]))
    c.part("flags.decoder", takes)
    SIZES = {"text": (0, 1, 20, 249, 250, 251, 300, 1000), "data": (0, 1, 20, 247, 248, 249, 250, 300, 1000, 65526)}
    for cn, (ty, fields) in FORMATS.items():
        cls = c.P.cls(M, cn)
        var = [k for _, k in fields if k in SIZES]
        def encoder():
            bad = []
            for n in SIZES[var[0]] if var else (0,):
                first = not var or n == 1
                def go(f):
                    o = f.new(cls, [], {})
                    for a, k in fields:
                        if k == "flags": flags(f.getattr(o, a), f)
                        elif k == "text": o.attrs[a] = Sym(("$" + a,), str, n)
                        elif k == "data": o.attrs[a] = norm(Bytes(unknown(a, n)))
                        else: o.attrs[a] = Sym(("$" + a,), int)
                    return f.call(f.getattr(o, "pack"))
                for r, asked, _ in runs(go):
                    if not isinstance(r, (bytes, Bytes)): bad.append("with %d bytes of %s: %s" % (n, fields[-1][0], say(r))); continue
                    cs = list(cells(r)); body = sum(1 if k == "flags" else n if k in SIZES else k for _, k in fields)
                    h = head(1 + body) + (ty,)
                    if tuple(cs[:len(h)]) != h: bad.append("a message with %d bytes behind the type starts with %r instead of %r" % (body, Bytes(cs[:len(h)]), Bytes(h))); continue
                    cs = cs[len(h):]
                    if len(cs) != body: bad.append("%d bytes follow the type instead of %d" % (len(cs), body)); continue
                    for a, k in fields:
                        m = 1 if k == "flags" else n if k in SIZES else k
                        mine, cs = cs[:m], cs[m:]
                        if k == "flags":
                            for env in every:
                                if possible(asked, env) and not (all(only(x, None) or deps(x) <= set(env) for x in mine) and value(mine[0], env) == byte(env)): bad.append("the byte of flags is %s" % show(mine[0])); break
                        elif k == "data":
                            if tuple(mine) != unknown(a, n): bad.append("%s is not written as it is" % a)
                        elif k == "text":
                            if tuple(mine) != tuple(Sym(("u8", ("$" + a,), i), int) for i in range(n)): bad.append("%s is not written as UTF-8" % a)
                        else:
                            u = ("$" + a,)
                            for i, x in enumerate(mine):
                                if not only(x, u): bad.append("byte %d of %s is %s" % (i, a, show(x))); break
                                v = agrees(x, asked, u, range(256 ** k) if first else SOME[k], lambda v: v >> 8 * (k - 1 - i) & 255)
                                if v is not None: bad.append("byte %d of %s=%d is %d" % (i, a, v, value(x, {u: v}))); break
                if bad: break
            c.ob(cn + ".encoder", not bad, where(cls, "pack"), "; ".join(bad[:2]))
        c.part(cn + ".encoder", encoder)
        def decoder():
            bad = []
            for n in SIZES[var[0]] if var else (0,):
                first = not var or n == 1
                body = sum(1 if k == "flags" else n if k in SIZES else k for _, k in fields)
                h = head(1 + body) + (ty,)
                data = unknown("b", body)
                def good(t): return None
                def go(f):
                    o = f.new(cls, [], {}); f.call(f.getattr(o, "unpack"), norm(Bytes(h + data))); return o
                rs = runs(go); any_ = False
                for r, asked, _ in rs:
                    if isinstance(r, Raised):
                        # only text that is not UTF-8 may be refused
                        if not var or var[0] != "text" or not asked: bad.append("a message with %d bytes behind the type: %s" % (body, say(r)))
                        continue
                    if not isinstance(r, Obj): bad.append(say(r)); continue
                    any_ = True; at = 0
                    for a, k in fields:
                        m = 1 if k == "flags" else n if k in SIZES else k
                        mine = data[at:at + m]; at += m
                        x = r.attrs.get(a)
                        if k == "flags":
                            for fn, (lo, vals) in FLAGS.items():
                                y = x.attrs.get(fn) if isinstance(x, Obj) else None
                                if not only(y, mine[0].term): bad.append("flag %s is %s" % (fn, show(y))); break
                                back = {w: q for q, w in vals.items()}
                                v = agrees(y, asked, mine[0].term, range(256), lambda v: back[v >> lo & max(vals.values())])
                                if v is not None: bad.append("of flags %02x, %s is read as %r" % (v, fn, value(y, {mine[0].term: v}))); break
                        elif k == "data":
                            if not isinstance(x, (bytes, Bytes)) or tuple(cells(x)) != tuple(mine): bad.append("%s is read as %r" % (a, x))
                        elif k == "text":
                            if n and not (isinstance(x, Sym) and x.kind is str and deps(x) == {y.term for y in mine}) or not n and x != "": bad.append("%s is read as %r" % (a, x))
                        else:
                            ds = [y.term for y in mine]
                            if not deps(x) <= set(ds) or not isinstance(x, Sym): bad.append("%s is read as %s" % (a, show(x))); continue
                            for vs in itertools.product(range(256) if first else (0, 1, 127, 128, 255), repeat=k):
                                env = dict(zip(ds, vs)); want = 0
                                for v in vs: want = want * 256 + v
                                if possible(asked, env) and value(x, env) != want: bad.append("%s of bytes %s is read as %r" % (a, vs, value(x, env))); break
                if not any_ and not bad: bad.append("no message with %d bytes behind the type is accepted" % body)
                if bad: break
            c.ob(cn + ".decoder", not bad, where(cls, "unpack"), "; ".join(str(b)[:200] for b in bad[:2]))
        c.part(cn + ".decoder", decoder)
        def made():
            r = runs(lambda f: f.new(cls, [], {}))
            ok = all(isinstance(x[0], Obj) and x[0].attrs.get("messageType") == ty for x in r)
            c.ob(cn + ".new", ok, "%s: class %s" % (mod.rel, cn), "a new %s is of message type %s" % (cn, [x[0].attrs.get("messageType") if isinstance(x[0], Obj) else say(x[0]) for x in r]))
        c.part(cn + ".new", made)
    def numbers():
        k = c.P.cls(M, "MessageTypes"); bad = []
        for n, v in TYPES.items():
            for r, _, _ in runs(lambda f: f.getattr(k, n)):
                if r != v: bad.append("%s is %s instead of %d" % (n, say(r), v))
        c.ob("types", not bad, "%s: class MessageTypes" % mod.rel, "; ".join(bad[:3]))
    c.part("types", numbers)
    def lengths():
        k = c.P.cls(M, "MessageLens"); bad = []
        for n, h in [(n, head(n - 1)) for n in (2, 3, 127, 128, 254, 255)] + [(n, (1, n // 256, n % 256)) for n in (3, 255, 256, 257, 4660, 32768, 65535)]:
            for r, _, _ in runs(lambda f: f.call(f.getattr(k, "decode"), bytes(h + (7,) * 5))):
                if not isinstance(r, tuple) or tuple(r) != (n, len(h)): bad.append("%r is read as %s instead of a length of %d in %d bytes" % (Bytes(h), say(r), n, len(h)))
        for n in (2, 3, 127, 128, 254, 255, 256, 257, 4660, 32768, 65535):
            h = (n,) if n < 256 else (1, n // 256, n % 256)
            for r, _, _ in runs(lambda f: f.call(f.getattr(k, "encode"), n)):
                if r != bytes(h): bad.append("%d is written as %s instead of %r" % (n, say(r), Bytes(h)))
        c.ob("lengths", not bad, "%s: class MessageLens" % mod.rel, "; ".join(bad[:3]))
    c.part("lengths", lengths)
    def dispatch():
        f0 = c.P.func(M, "unpackPacket"); bad = []
        by = {ty: cn for cn, (ty, _) in FORMATS.items()}
        body = {4: (4, 1, 0, 9, 97, 98), 5: (3,), 12: (0x62, 0, 7, 1, 2, 65)}
        for ty in range(256):
            for b in [body.get(ty, (0,) * 6)] if ty in by else [(0,) * 6, (0,), (4, 1, 0, 9, 97, 98)]:
                for r, asked, _ in runs(lambda f: f.call(f0, bytes(head(1 + len(b)) + (ty,) + b))):
                    if ty in by and not (isinstance(r, Obj) and r.cls.name == by[ty]): bad.append("a message of type %d: %s" % (ty, say(r)))
                    elif ty not in by and isinstance(r, Obj) and r.cls.name in FORMATS: bad.append("a message of type %d is taken for one of %s" % (ty, r.cls.name))
        c.ob("dispatch", not bad, "%s:%d: unpackPacket" % (mod.rel, f0.node.lineno), "; ".join(bad[:3]))
        bad = []
        mt = c.P.func(M, "MessageType")
        for b, want in (((2, 9), 9), ((7, 12, 0, 0, 0, 0, 0), 12), ((1, 1, 9, 5) + (0,) * 261, 5), ((1, 0, 12, 13, 1), 13)):
            for r, asked, _ in runs(lambda f: f.call(mt, bytes(b))):
                if r != want: bad.append("of %r it is %s instead of %d" % (Bytes(b[:5]), say(r), want))
        c.ob("dispatch.type", not bad, "%s:%d: MessageType" % (mod.rel, mt.node.lineno), "; ".join(bad[:3]))
    c.part("dispatch", dispatch)
