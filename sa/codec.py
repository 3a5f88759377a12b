"""The coders of single fields: what their summaries say, bit for bit."""
import re
from .layout import *

VBI_MAX = 128 ** 4 - 1

class Bad(Exception): pass
class Unclear(AnalysisBroken): pass

def interp(F):
    "loops of the coders of lengths are followed round by round; they call each other opaquely"
    if not hasattr(F, "_coder"):
        F._coder = F.c.interp(scope=[F.mod], opaque={"writeInt16", "readInt16", "writeInt32", "readInt32", "writeUTF", "readUTF", "writeBytes", "readBytes", "VBIs.encode", "VBIs.decode", "FixedHeaders.encode", "FixedHeaders.decode"},
                               pure={"writeInt16", "readInt16", "writeInt32", "readInt32", "VBIs.encode", "VBIs.decode", "FixedHeaders.encode", "FixedHeaders.decode"}, attr_types={}, elem_types={}, every_loop=True, unroll={"encode": 6, "decode": 6})
    return F._coder

def summary(F, what):
    "Fn of a function or of a method 'Class.name'"
    I = interp(F)
    if "." in what:
        k = F.cls(what.split(".")[0]); f = k.find(what.split(".")[1])
        if f is None: raise AnalysisBroken("%s not found" % what)
        fn = Fn(I, f, selfcls=k)
        fn.own = [n for n in f.params() if n not in ("self", "cls")]
    else:
        f = F.c.P.func(F.mod, what); fn = Fn(I, f); fn.own = f.params()
    return fn

def beyond(p): return p.raised is not None and p.raised[1] == "%beyond"

# ------------------------------------------------------------------ intervals of one integer

def divisor(t, x):
    "D if t is x // D for a non-negative x"
    if t == x: return 1
    if t[0] == "ver": return divisor(t[1], x)
    if t[0] == "lin" and t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1: return divisor(t[2][0][0], x)
    if t[0] == "op" and is_const(t[3]):
        d = divisor(t[2], x)
        if d is None: return None
        if t[1] == "//" and isinstance(t[3][1], int) and t[3][1] > 0: return d * t[3][1]
        if t[1] == ">>": return d << t[3][1]
    return None
def linear(t, x):
    "(c, k, D): t is c + k * (x // D)"
    c, ts = to_lin(t)
    if len(ts) != 1: return None
    (y, k), = ts.items()
    D = divisor(y, x)
    return None if D is None else (c, k, D)
def range_of(p, x, lo, hi):
    "the interval of x in which the path happens, starting from [lo, hi]; None for none"
    for (k, t), d in p.conds.items():
        if not mentions(t, x): continue
        l = linear(t, x) if t[0] != "cmp" else linear(add(t[2], t[3], -1), x) if t[0] == "cmp" else None
        if t[0] == "cmp" and t[1] in ("==", "!=") and l is not None:
            eq = (t[1] == "==") == (d == YES)
            d = Iv(0, 0) if eq else None
            if d is None: raise Unclear("%s: condition %s" % (p.fn_where, show(t)[:120]))
        elif l is None or t[0] == "cmp":
            raise Unclear("condition %s of a coder is not understood" % show(t)[:120])
        c, f, D = l
        if k == "d" or isinstance(d, Iv): iv = [(d.lo, d.hi)]
        elif d.inc is not None: iv = [(v, v) for v in d.inc if isinstance(v, (int, float))]
        elif "T" in d.classes and "F" in d.classes: iv = [(-INF, INF)]
        elif "T" in d.classes:
            # not zero
            if c == 0: iv = [(1, INF)] if f > 0 else [(-INF, -1)]
            else: raise Unclear("condition %s of a coder is not understood" % show(t)[:120])
        else: iv = [(0, 0)]
        if len(iv) != 1:
            iv = sorted(iv)
            if any(b + 1 != a2 for (a, b), (a2, b2) in zip(iv, iv[1:])): raise Unclear("condition %s of a coder is not understood" % show(t)[:120])
            iv = [(iv[0][0], iv[-1][1])]
        a, b = iv[0][0] - c, iv[0][1] - c
        if f < 0: a, b = -b, -a
        f = abs(f)
        ceil = lambda v: v if v in (INF, -INF) else -((-int(v)) // f)
        floor = lambda v: v if v in (INF, -INF) else int(v) // f
        a, b = ceil(a), floor(b)
        lo, hi = max(lo, a * D if a != -INF else -INF), min(hi, b * D + D - 1 if b != INF else INF)
        if lo > hi: return None
    return lo, hi

def int_atoms(t):
    "the bytes of a result as u8 atoms, also for int.to_bytes and struct.pack"
    out = []
    for a in flat_atoms(t):
        if a[0] in ("u16", "u32"):
            n, v = int(a[0][1:]) // 8, a[1]
            out += [("u8", ("op", ">>", v, const(8 * (n - 1 - i)))) if i == 0 else ("u8", ("op", "&", ("op", ">>", v, const(8 * (n - 1 - i))), const(255))) for i in range(n)]
            continue
        out.append(a)
    return out

def bits_of(t, x, width):
    b = bitvec(t, lambda l: width, lambda l: l == x)
    if b is None: raise Unclear("a byte %s is not understood" % show(t)[:160])
    while b and b[-1] == 0: b = b[:-1]
    return b

# ------------------------------------------------------------------ variable byte integers

def vbi_encode(fn):
    x = ("param", fn.own[0]); n = 0
    for p in fn.paths:
        if p.raised:
            try: r = range_of(p, x, 0, VBI_MAX)
            except Unclear:
                if beyond(p): continue
                raise
            if r is not None: raise Bad("a length of %d is not encoded" % r[0])
            continue
        r = range_of(p, x, -INF, INF)
        if r is None: continue
        n += 1
        lo, hi = r
        if lo < 0 or hi > VBI_MAX: raise Bad("a length of %s is encoded" % (hi if hi > VBI_MAX else lo))
        if p.ret is None or p.ret == NONE: raise Bad("a length of %d has no encoding" % lo)
        ats = int_atoms(p.ret)
        if any(a[0] != "u8" for a in ats): raise Unclear("what is written is not understood: %s" % show(p.ret)[:200])
        k = len(ats)
        if not (k and (0 if k == 1 else 128 ** (k - 1)) <= lo and hi < 128 ** k): raise Bad("lengths from %d to %d take %d bytes" % (lo, hi, k))
        width = max(hi.bit_length(), 1)
        for i, a in enumerate(ats):
            want = [(x, j) for j in range(7 * i, min(7 * i + 7, width))]
            want += [0] * (7 - len(want)) + [1 if i < k - 1 else 0]
            while want and want[-1] == 0: want = want[:-1]
            got = bits_of(a[1], x, width)
            if got != want: raise Bad("byte %d of a length from %d to %d is %s" % (i + 1, lo, hi, show(a[1])[:200]))
    return n

def vbi_decode(fn, minimal, enc="encode"):
    buf = ("param", fn.own[0])
    def byte(i): return item(buf, const(i))
    seen = set()
    n = 0
    for p in fn.paths:
        doms = {byte(i): range(256) for i in range(6)}
        used = [i for i in range(6) if any(mentions(k[1], byte(i)) for k in p.conds)]
        vals, empty = {}, False
        lens = []
        for (k, t), d in p.conds.items():
            ls = [x for x in subterms(t) if x[0] == "len" and x[1][0] in ("call", "ret") and x[1][1].split(".")[-1] == enc]
            if ls: lens.append(((k, t), d, ls[0])); continue
            s = leaves(t, lambda l: l in doms)
            if s is None or len(s) > 1:
                if mentions(t, buf) and not (t[0] == "len" or t == buf): raise Unclear("condition %s" % show(t)[:160])
        for i in range(6):
            vs = [e[byte(i)] for e in allowed({k: d for k, d in p.conds.items() if leaves(k[1], lambda l: l == byte(i))}, {byte(i): range(256)})]
            vals[i] = set(vs)
            if not vs: empty = True
        if empty: continue
        hi = {b for b in range(128, 256)}
        going = 0
        while going < 6 and vals[going] <= hi: going += 1
        def lensat(L): return all(satl(k, d, l, L) for k, d, l in lens)
        def satl(k, d, l, L):
            try: return sat(k, d, {l: L})
            except Unknown: raise Unclear("condition %s" % show(k[1])[:160])
        if p.raised or beyond(p):
            if going >= 4: continue          # more than four bytes
            if lens:
                k = going + 1
                if not lensat(k): continue   # not the shortest form
            last = [i for i in used]
            if last and vals[max(last)] == {0} and max(last) > 0: continue      # not the shortest form
            if beyond(p): raise Unclear("a coder of lengths goes on after %d bytes" % going)
            raise Bad("a length of %d byte(s) is refused" % (going + 1))
        if p.ret is None or p.ret[0] != "seq" or len(p.ret[2]) != 2: raise Unclear("result %s" % show(p.ret)[:160])
        V, K = p.ret[2]
        if not is_const(K): raise Unclear("number of bytes %s" % show(K)[:160])
        k = K[1]
        if lens and not any(lensat(L) for L in range(1, 7)): continue
        if going != k - 1 and going < k - 1: raise Bad("%d bytes are used though the length may end after %d" % (k, going + 1))
        if going >= k or not vals[k - 1] <= set(range(128)): raise Bad("%d bytes are used though the length goes on" % k)
        if k > 4: raise Bad("a length of %d bytes is accepted" % k)
        n += 1
        c, ts = to_lin(V)
        if c: raise Bad("the value is %s" % show(V)[:200])
        by = {i: [] for i in range(6)}
        for t, f in ts.items():
            s = leaves(t, lambda l: l in doms)
            if not s or len(s) > 1:
                # a value put together with | is separable too when the parts do not overlap
                bv = bitvec(V, lambda l: 8, lambda l: l in doms)
                if bv is None: raise Unclear("value %s" % show(V)[:200])
                want = [(byte(j), b) for j in range(k) for b in range(7)]
                while bv and bv[-1] == 0: bv = bv[:-1]
                fixed = [x for x in bv]
                if fixed != want and fixed != want[:-0 or None]: raise Bad("the value of %d bytes is %s" % (k, show(V)[:200]))
                by = None; break
            by[[i for i in range(6) if byte(i) in s][0]].append((t, f))
        if by is not None:
            for i in range(6):
                for b in vals[i] if i < k else [0]:
                    try: got = sum(f * ev(t, {byte(i): b}) for t, f in by[i])
                    except Unknown: raise Unclear("value %s" % show(V)[:200])
                    if i >= k and by[i]: raise Bad("byte %d counts though only %d are used" % (i + 1, k))
                    if i < k and got != (b & 127) << 7 * i: raise Bad("byte %d with the value %d counts as %d" % (i + 1, b, got))
        if minimal and k > 1:
            short = any(lensat(L) for L in range(1, k)) if lens else True
            if short and 0 in vals[k - 1]: raise Bad("a length in more bytes than necessary (%d) is accepted" % k)
        if (not lens or lensat(k)) and all(vals[i] == hi for i in range(k - 1)) and vals[k - 1] >= set(range(1, 128)): seen.add(k)
    if not n: raise Bad("nothing is decoded")
    return n

# ------------------------------------------------------------------ integers

def write_int(fn, size):
    x = ("param", fn.own[0]); n = 0
    for p in fn.paths:
        if p.raised: continue
        r = range_of(p, x, 0, 256 ** size - 1)
        if r is None: continue
        n += 1
        ats = int_atoms(p.ret)
        if any(a[0] == "raw" for a in ats): raise Unclear("what is written is not understood: %s" % show(p.ret)[:200])
        if len(ats) != size: raise Bad("%d bytes are written" % len(ats))
        w = 8 * size + 8 if r[1] == 256 ** size - 1 and range_of(p, x, 0, INF)[1] > r[1] else 8 * size
        for i, a in enumerate(ats):
            j = 8 * (size - 1 - i)
            want = [(x, b) for b in range(j, w if i == 0 else j + 8)]
            if bits_of(a[1], x, w) != want: raise Bad("byte %d is %s" % (i + 1, show(a[1])[:160]))
    if not n: raise Bad("nothing is written")
    return n

def read_int(fn, size):
    buf = ("param", fn.own[0]); n = 0
    def byte(i): return item(buf, const(i))
    leafs = {byte(i) for i in range(size + 2)}
    for p in fn.paths:
        if p.raised: continue
        n += 1
        t = p.ret
        if t[0] in ("call", "ret") and t[1] in ("int.from_bytes",) or t[0] == "meth" and t[2] == "from_bytes":
            a = t[2] if t[0] != "meth" else t[3]
            kw = dict(t[3] if t[0] != "meth" else t[4])
            if a[0] == ("slice", buf, const(0), const(size)) and (len(a) < 2 or a[1] == const("big")) and kw.get("byteorder", const("big")) == const("big") and kw.get("signed", FALSE) == FALSE: continue
        b = bitvec(t, lambda l: 8, lambda l: l in leafs)
        if b is None:
            for vs in product((1, 128, 255), repeat=size):
                try: x = ev(t, {byte(i): vs[i] for i in range(size)})
                except Unknown: break
                if x != int.from_bytes(bytes(vs), "big"): raise Bad("the value is %s" % show(t)[:160])
            raise Unclear("value %s" % show(t)[:160])
        want = [(byte(size - 1 - i // 8), i % 8) for i in range(8 * size)]
        if b != want and not leaves(t, lambda l: l in leafs): raise Unclear("value %s" % show(t)[:160])
        if b != want: raise Bad("the value is %s" % show(t)[:160])
    if not n: raise Bad("nothing is read")
    return n

# ------------------------------------------------------------------ strings and binary data

def encoded(t, data): return t[0] == "meth" and t[2] == "encode" and t[1] == data and t[3] in ((), (const("utf-8"),), (const("utf8"),)) or t[0] == "call" and t[1] == "bytes" and t[2][:1] == (data,) and t[2][1:] in ((const("utf-8"),), (const("utf8"),))

def write_counted(fn, text):
    data = ("param", fn.own[0]); n = 0; as_text = False
    for p in fn.paths:
        if p.raised: continue
        n += 1
        ats = list(flat_atoms(p.ret))
        if text and len(ats) == 1 and ats[0][0] == "bin": # as binary data
            ats = [("u16", ("len", ats[0][1])), ("raw", ats[0][1])]
        if len(ats) != 2: raise Unclear("what is written is not understood: %s" % show(p.ret)[:200])
        (k, c), (k2, body) = ats
        if k != "u16":
            u = int_atoms(p.ret)
            if len(u) == 3 and u[0][0] == u[1][0] == "u8" and u[2][0] == "raw" and u[0][1][0] == "op": c = u[0][1][2]
            else: raise Unclear("what is written is not understood: %s" % show(p.ret)[:200])
        if body != data and not (text and encoded(body, data)): raise Bad("what follows the length is %s" % show(body)[:160])
        if c != ("len", body): raise Bad("the length written is %s, not that of what follows" % show(c)[:160])
        if text and body == data:
            if not any(mentions(k[1], data) and any(x[0] in ("call", "isinst", "isinstance", "typeof", "type") for x in subterms(k[1])) for k in p.conds): raise Bad("text is written without being encoded")
        if body != data: as_text = True
    if not n: raise Bad("nothing is written")
    if text and not as_text: raise Bad("text is not encoded")
    return n

def counted(fn, p, five):
    "(data, width) of a reader's result"
    t = p.ret
    if five:
        if t[0] != "seq" or len(t[2]) != 2: raise Unclear("result %s" % show(t)[:160])
        return t[2]
    return t, None

def read_counted(fn, text, five):
    buf = ("param", fn.own[0]); n = 0
    maxlen = ("param", fn.own[1]) if text else None
    N = ("call", "readInt16", (buf,), ())
    raw = ("slice", buf, const(2), add(N, const(2)))
    decoded = lambda t: t[0] == "meth" and t[2] == "decode" and t[1] == raw and t[3] in ((), (const("utf-8"),), (const("utf8"),), (const("utf-8"), const("strict"))) or t[0] == "call" and t[1] == "str" and t[2] in ((raw, const("utf-8")), (raw, const("utf8")))
    room = add(add(maxlen, N, -1), const(-2)) if text else add(add(("len", buf), N, -1), const(-2))
    def least(p, t):
        "the smallest value a linear term can have on the path"
        c, ts = to_lin(t); best = -INF
        for (k, u), d in p.conds.items():
            if k != "d": continue
            c2, us = to_lin(u)
            if us == ts: best = max(best, d.lo + c - c2)
            elif us == {a: -b for a, b in ts.items()}: best = max(best, c - (d.hi - (c2)) if False else c + c2 - d.hi)
        return best
    def most(p, t): return -least(p, scale(t, -1))
    for p in fn.paths:
        if p.raised:
            # only for too little room, or for characters that are not allowed
            if most(p, room) < 0: continue
            if text and most(p, maxlen) < 2: continue
            if text:
                hits = [(k, d) for k, d in list(p.conds.items()) + [(k, d) for L in [e.loop for e in p.events if e.kind == "loop"] if L.final for k, d in L.final.conds.items()] if k[1][0] == "in" and decoded(k[1][2]) or any(decoded(x) for x in subterms(k[1]))]
                ok = False
                for k, d in hits:
                    t = k[1]
                    if k[0] == "d" and t[0] in ("call", "ret") and t[1] == "ord" and not decoded(t[2][0]): ok |= d.lo >= 0xD800 and d.hi <= 0xDFFF or d.lo == d.hi == 0
                    if t[:2] == ("call", "exists") and d == YES and decoded(t[2][0]):
                        ways = [re.fullmatch(r"\[ord\(.*\):\[(\d+)\.\.(\d+)\]\]", x[1]) for x in t[2][1][2] if x[0] == "unk"]
                        ok |= len(ways) == len(t[2][1][2]) and all(m and (0xD800 <= int(m[1]) and int(m[2]) <= 0xDFFF or m[1] == m[2] == "0") for m in ways)
                    if t[0] == "in" and d == YES:
                        if is_const(t[1]): ok |= isinstance(t[1][1], str) and all(ch == "\0" or 0xD800 <= ord(ch) <= 0xDFFF for ch in t[1][1])
                        else: ok |= surrogate(t[1])
                if ok: continue
                if any(x[0] == "unk" for x in subterms(p.raised)): continue
            else:
                if any(k[0] == "d" and most(p, ("len", buf)) < 2 for k in p.conds): continue
            raise Bad("a well-formed %s is refused" % ("string" if text else "field"))
        n += 1
        d, w = counted(fn, p, five)
        if text:
            if not decoded(d):
                if d == raw: raise Bad("the string is not decoded")
                if d[0] == "meth" and d[2] == "decode" and d[1] == raw: raise Bad("the string is decoded with %s" % ", ".join(show(x) for x in d[3]))
                raise Bad("the string is %s" % show(d)[:160])
            if least(p, room) < 0: raise Bad("a string longer than what is left is accepted")
            if least(p, maxlen) < 2 and least(p, maxlen) != 2: raise Bad("a string is read though less than its length is left")
            nul = ("in", const("\0"), d)
            known = [dd for k, dd in p.conds.items() if k == ("b", nul)]
            if not known or known[0] != NO: raise Bad("a string with the null character is accepted")
        else:
            if d != raw: raise Bad("the data is %s" % show(d)[:160])
            if w is None and least(p, room) < 0: raise Bad("data shorter than its length says is accepted")
        if w is not None and w != add(N, const(2)): raise Bad("the number of bytes used is %s" % show(w)[:160])
    if not n: raise Bad("nothing is read")
    return n

def surrogate(t):
    "chr of a number between D800 and DFFF"
    if t[0] in ("call", "ret") and t[1] == "chr" and t[2][0][0] == "elem":
        r = t[2][0][1]
        if r[:2] == ("call", "range") and all(is_const(a) for a in r[2]):
            v = range(*[a[1] for a in r[2]])
            return len(v) == 0 or (min(v) >= 0xD800 and max(v) <= 0xDFFF)
    return False

# ------------------------------------------------------------------ bytes made of flags

def packs_bits(fn, fields, first=0, extra=None):
    """the byte at one place of what is written is made of these fields; fields: {attribute: (shift, values)};
    extra(list of the other atoms) -> complaint"""
    n = 0
    for p in fn.paths:
        if p.raised: continue
        doms = {attr(("param", "self"), a): vs for a, (sh, vs) in fields.items()}
        es = allowed(p.conds, doms)
        if not es: continue
        n += 1
        ats = int_atoms(p.ret)
        if len(ats) <= first or ats[first][0] != "u8": raise Unclear("what is written is not understood: %s" % show(p.ret)[:200])
        for e in es:
            want = sum(int(e[attr(("param", "self"), a)]) << sh for a, (sh, vs) in fields.items())
            try: got = ev(ats[first][1], e)
            except Unknown: raise Unclear("what is written is not understood: %s" % show(ats[first][1])[:200])
            if got != want: raise Bad("the byte is %s for %s; it must be %d" % (got, ", ".join("%s=%s" % (l[2], v) for l, v in e.items()), want))
        if extra:
            m = extra(ats[:first] + ats[first + 1:], p)
            if m: raise Bad(m)
    if not n: raise Bad("nothing is written")
    return n

def takes_bits(fn, fields, legal=None, buf=None, skip=()):
    "the attributes are made of the first byte; legal: which bytes must be accepted, all others refused (None: no matter)"
    buf = buf or ("param", fn.own[0])
    leaf = item(buf, const(0)); n = 0
    for p in fn.paths:
        vals = [e[leaf] for e in allowed(p.conds, {leaf: range(256)})]
        if not vals: continue
        if p.raised:
            if legal is not None and any(x[0] == "unk" for x in subterms(p.raised)): continue
            if legal is not None:
                others = [k for k in p.conds if not leaves(k[1], lambda l: l == leaf) and k[1][0] != "len" and k[1] != buf and mentions(k[1], buf)]
                if set(vals) & legal and not others and not any(k[1][0] == "len" for k in p.conds): raise Bad("the byte %d is refused" % sorted(set(vals) & legal)[0])
            continue
        n += 1
        if legal is not None and not set(vals) <= legal: raise Bad("the byte %d is accepted" % sorted(set(vals) - legal)[0])
        for a, (sh, m) in fields.items():
            g = p.heap.get((("param", "self"), a))
            if g is None: raise Bad("%s is not read" % a)
            for b in vals:
                try: x = ev(g, {leaf: b})
                except Unknown: raise Unclear("%s = %s" % (a, show(g)[:160]))
                if x != (b >> sh) & m: raise Bad("%s is %s when the byte is %d" % (a, x, b))
    if not n: raise Bad("nothing is read")
    return n
