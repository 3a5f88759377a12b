"""Shared by the checks of the packet formats of MQTT 5 and MQTT 3.1.1."""
import ast
from .codec import *
from .base import AnalysisBroken

T_ATTR = {True: "PacketType", False: "MessageType"}
REASON_CLASSES = {"Connacks", "Pubacks", "Pubrecs", "Pubrels", "Pubcomps", "Disconnects", "Auths"}

def judged_coder(c, oid, what, f, *a):
    "one judgement of a coder as one obligation"
    def go():
        fn = what()
        try: c.count("path classes judged", f(fn, *a))
        except Bad as m: return c.ob(oid, False, fn.where, str(m))
        c.ob(oid, True, fn.where)
    c.part(oid, go)

def verdicts(c, oid, where, bad, say=lambda m: m):
    m = "" if not bad else "%s [on the path %s]" % (say(bad[0][0]), show_conds(bad[0][1].conds)[:400])
    c.ob(oid, not bad, where, m)

def decoded(F, name, cn, q, lay):
    "the judged decoder of a packet, once per check"
    if not hasattr(F, "_dec"): F._dec = {}
    if name not in F._dec: F._dec[name] = check_decoder(F, name, cn, q, lay)
    return F._dec[name]

SHAPES = {"ack": {0, 1, 2}, "disconnect": {0, 1, 2}, "auth": {0, 2}}

def layouts(c, F):
    "C01, C02"
    five = F.five
    for name, cn, ty, q, lay in packets(five):
        def enc():
            fn, n, bad = check_encoder(F, cn, lay)
            c.count("path classes judged", n)
            if not n: bad = [("nothing is ever written", None)]
            c.ob("%s.%s.encoder" % (F.v, name), not bad, fn.where, bad[0][0] + (" [on the path %s]" % show_conds(bad[0][1].conds)[:400] if bad[0][1] else "") if bad else "")
        c.part("%s.%s.encoder" % (F.v, name), enc)
        def dec():
            V, l, r, a, shapes = decoded(F, name, cn, q, lay)
            c.count("path classes judged", l.n)
            oid = "%s.%s.decoder" % (F.v, name)
            verdicts(c, oid, V.fn.where, l.bad.get("layout", []))
            want = SHAPES.get(lay.__name__) if five else None
            if not l.bad: c.ob(oid + ".read", l.n > 0, V.fn.where, "" if l.n else "no packet is ever accepted")
            if want and not l.bad: c.ob(oid + ".shapes", want <= {x for x in shapes if x is not None}, V.fn.where, "" if want <= shapes else "the form with %s of reason code and properties is not read" % sorted(want - shapes))
        c.part("%s.%s.decoder" % (F.v, name), dec)

def headers(c, F):
    five, v = F.five, F.v
    T, B = T_ATTR[five], (False, True)
    enc = {"VBIs.encode", "encode", "FixedHeaders.encode"}
    def rest(ats, p):
        if len(ats) != 1 or ats[0][0] != "raw": return "behind the first byte, %s is written" % "; ".join(map(show_atom, ats))
        t = ats[0][1]
        if not (t[0] in ("call", "ret") and t[1].split(".")[-1] == "encode" and t[2] and t[2][-1] == ("param", "length")): return "behind the first byte, %s is written" % show(t)[:160]
    judged_coder(c, v + ".header.encoder", lambda: summary(F, "FixedHeaders.pack"), packs_bits, {T: (4, range(1, 16)), "DUP": (3, B), "QoS": (1, range(4)), "RETAIN": (0, B)}, 0, rest)
    judged_coder(c, v + ".header.decoder", lambda: summary(F, "FixedHeaders.unpack"), takes_bits, {T: (4, 15), "DUP": (3, 1), "QoS": (1, 3), "RETAIN": (0, 1)})
    def length():
        fn = summary(F, "FixedHeaders.unpack"); buf = ("param", fn.own[0]); bad = None; n = 0
        for p in fn.paths:
            if p.raised: continue
            n += 1
            g = p.heap.get((("param", "self"), "remainingLength"))
            if g is not None and g[0] != "item": raise Murky("%s: the remaining length is %s" % (fn.where, show(g)[:160]))
            if g is None or g[2] != const(0) or not decodes(g[1], buf): bad = "the remaining length is %s" % (show(g)[:160] if g else "not read"); break
            if p.ret != add(item(g[1], const(1)), const(1)): bad = "the length of the header is %s" % show(p.ret)[:160]; break
        c.ob(v + ".header.length", n and not bad, fn.where, bad or "")
    c.part(v + ".header.length", length)

def decodes(t, buf):
    "the variable byte integer that follows the first byte"
    return t[0] in ("call", "ret") and t[1].split(".")[-1] == "decode" and len(t[2]) > 0 and t[2][-1][:3] == ("slice", buf, const(1)) and (t[2][-1][3] in (None, NONE) or is_const(t[2][-1][3]) and t[2][-1][3][1] >= 5)

def constructors(c, F):
    "what a new packet's header, properties and reason code are for"
    five, v = F.five, F.v
    for name, cn, ty, q, lay in packets(five):
        def go():
            fn, ps = F.made(cn)
            bad, n = None, 0
            for p in ps:
                n += 1
                fh = p.heap.get((("param", "self"), "fh"))
                if fh is None: raise AnalysisBroken("%s: no header" % fn.where)
                if not (fh[0] == "new" and fh[1].endswith("FixedHeaders") and fh[2]): raise AnalysisBroken("%s: header %s" % (fn.where, show(fh)[:100]))
                def arg(t): return t[2][0][1] if t[2] and is_const(t[2][0]) else None
                if arg(fh) != ty: bad = "the header is of packet type %s, not %d" % (arg(fh), ty); break
                qs = p.heap.get((fh, "QoS"), const(0))
                if q is not None and qs != const(q): bad = "the flags of the header say QoS %s, they must say %d" % (show(qs)[:60], q); break
                for fl in ("DUP", "RETAIN"):
                    x = p.heap.get((fh, fl), const(False))
                    if is_const(x) and x[1]: bad = "the header says %s" % fl; break
                if five:
                    for a, want in (("properties", ty), ("WillProperties", 99)):
                        pr = p.heap.get((("param", "self"), a))
                        if pr is not None and pr[0] == "new" and pr[1].endswith("Properties") and pr[2] and is_const(pr[2][0]) and arg(pr) != want: bad = "%s are those of packet type %s" % (a, arg(pr)); break
                    rc = p.heap.get((("param", "self"), "reasonCode"))
                    if rc is not None and rc[0] == "new" and rc[1].endswith("ReasonCodes") and rc[2] and is_const(rc[2][0]) and arg(rc) != ty: bad = "the reason code is that of packet type %s" % arg(rc)
                if bad: break
            c.count("path classes judged", n)
            c.ob("%s.%s.new" % (v, name), n and not bad, fn.where, bad or "")
        c.part("%s.%s.new" % (v, name), go)

def table(c, F, fn, t):
    "what indexing a table of the module by a number gives: number -> class name, None, or an exception's name"
    if t[0] == "glob": mod, nm = t[1], t[2]
    else: raise AnalysisBroken("%s: table %s" % (fn.where, show(t)[:100]))
    r = c.P.modules[mod].resolve(nm)
    if not r or r[0] != "const": raise AnalysisBroken("%s: table %s" % (fn.where, nm))
    node = r[2]
    if isinstance(node, (ast.List, ast.Tuple)):
        els = [e.id if isinstance(e, ast.Name) else None for e in node.elts]
        def get(i):
            try: return els[i]
            except IndexError: return None
    elif isinstance(node, ast.Dict):
        d = {}
        for k, x in zip(node.keys, node.values):
            if isinstance(k, ast.Constant): kk = k.value
            else:
                kv = c.P.const_of(mod, k) if hasattr(c.P, "const_of") else None
                if kv is None: raise AnalysisBroken("%s: table %s" % (fn.where, nm))
                kk = kv
            d[kk] = x.id if isinstance(x, ast.Name) else None
        get = d.get
    else: raise AnalysisBroken("%s: table %s" % (fn.where, nm))
    return get

def dispatch(c, F, refused=False):
    """the packet's class is chosen by the type of its first byte (refused: types that do not exist are not accepted)"""
    v, five = F.v, F.five
    I = c.interp(scope=[F.mod], opaque=set(), pure=set(), attr_types={}, elem_types={}, every_loop=True)
    f = c.P.func(F.mod, "unpackPacket"); fn = Fn(I, f)
    buf = ("param", f.params()[0]); leaf = item(buf, const(0))
    by_type = {p[2]: p for p in packets(five)}
    bad, n = None, 0
    taken = set()
    for p in fn.paths:
        vals = {e[leaf] for e in allowed({k: d for k, d in p.conds.items() if mentions(k[1], leaf)}, {leaf: range(256)})}
        k0 = p.conds.get(("v", buf))
        if k0 is not None and not set(k0.classes) - {"N"}: continue     # no packet
        if not vals: continue
        if p.raised:
            for b in vals & {b for b in range(256) if b >> 4 in by_type}:
                if not refused: bad = "a packet of type %d is refused" % (b >> 4)
            taken |= {b >> 4 for b in vals}; continue
        makes = [e for e in p.events if getattr(e, "fn", None) is not None and e.fn[0] in ("item", "call", "ret", "meth")]
        if not makes:
            if any(e.kind == "call" and str(e).split("(")[0] for e in p.events): raise AnalysisBroken("%s: how the class is chosen is not understood" % fn.where)
            if not refused and vals & {b for b in range(256) if b >> 4 in by_type} and p.ret == NONE: bad = "a packet of type %d is not decoded" % (sorted(vals)[-1] >> 4)
            continue
        t = makes[0].fn
        if t[0] == "item": idx, get = t[2], table(c, F, fn, t[1])
        else: raise AnalysisBroken("%s: how the class is chosen is not understood: %s" % (fn.where, show(t)[:120]))
        unp = [e for e in p.events if e.kind in ("call", "meth") and e.name is not None and e.name.split(".")[-1] == "unpack"]
        for b in sorted(vals):
            n += 1
            try: i = ev(idx, {leaf: b})
            except Unknown: raise AnalysisBroken("%s: index %s" % (fn.where, show(idx)[:100]))
            k, ty = get(i), b >> 4
            if not refused:
                taken.add(ty)
                if ty in by_type and k != by_type[ty][1]: bad = "a packet of type %d is taken for one of class %s" % (ty, k); break
            elif k is not None and ty not in by_type and not unp: bad = "a packet of type %d is not refused" % ty; break
            elif k is not None and ty not in by_type:
                # the class must refuse it
                pk = [x for x in packets(five) if x[1] == k]
                if not pk: raise AnalysisBroken("%s: class %s" % (fn.where, k))
                V, l, r, a, sh = decoded(F, *[pk[0][j] for j in (0, 1, 3, 4)])
                if any(sane(w) and possible(w, U8(const(0)), b) for w in V.good): bad = "a packet of type %d is accepted as %s" % (ty, pk[0][0]); break
        if not refused and not bad:
            if not unp: bad = "the packet is not decoded"
            elif not unp[0].args or unp[0].args[0] != buf: bad = "what is decoded is %s, not the packet" % (show(unp[0].args[0])[:100] if unp[0].args else "nothing")
            elif unp[0].base != p.ret: bad = "what is returned is %s, not the packet decoded" % show(p.ret)[:100]
        if bad: break
    if not refused and not bad and not set(by_type) <= taken: bad = "no packet of type %s is decoded" % sorted(set(by_type) - taken)
    c.count("first bytes considered", n)
    c.ob("%s.dispatch%s" % (v, ".unknown" if refused else ""), not bad, fn.where, bad or "")
