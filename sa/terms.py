"""Provenance terms: where a value comes from.  Tuples, structurally equal when they denote the same access."""
NONE, TRUE, FALSE = ("const", None), ("const", True), ("const", False)

def const(v): return ("const", v)
def is_const(t): return t[0] == "const"
def attr(b, n): return ("attr", b, n)
def item(b, k):
    if b[0] == "slice" and is_intlike(k) and not neg_const(k) and not neg_const(b[2]):
        return item(b[1], add(b[2], k))
    if k[0] == "idx" and strip_copy(k[1]) == strip_copy(b): return ("elem",) + k[1:]
    return ("item", b, k)
def neg_const(k): return is_const(k) and isinstance(k[1], int) and k[1] < 0
def is_intlike(k): return k[0] in ("lin", "idx", "len") or (is_const(k) and isinstance(k[1], int)) or k[0] in ("attr", "item", "elem", "call", "meth", "param", "acc")
def slice_(b, lo, hi):
    lo = lo if lo is not None and lo != NONE else const(0)
    if hi == NONE: hi = None
    if b[0] == "slice" and not neg_const(lo) and not neg_const(b[2]) and (hi is None or not neg_const(hi)):
        nlo = add(b[2], lo)
        nhi = b[3] if hi is None else add(b[2], hi)
        return slice_(b[1], nlo, nhi)
    if lo == const(0) and hi is None: return ("copy", b)
    return ("slice", b, lo, hi)

def strip_copy(t):
    while t[0] in ("copy", "keys"): t = t[1]
    return t

def lin(const_, terms):
    terms = tuple(sorted(((t, c) for t, c in terms.items() if c), key=repr))
    if not terms: return const(const_)
    if const_ == 0 and len(terms) == 1 and terms[0][1] == 1: return terms[0][0]
    return ("lin", const_, terms)
def to_lin(t):
    if t[0] == "lin": return t[1], dict(t[2])
    if is_const(t) and isinstance(t[1], (int, float)): return t[1], {}
    return 0, {t: 1}
def add(a, b, sign=1):
    ca, ta = to_lin(a); cb, tb = to_lin(b)
    out = dict(ta)
    for t, c in tb.items(): out[t] = out.get(t, 0) + sign*c
    return lin(ca + sign*cb, out)
def scale(a, k):
    ca, ta = to_lin(a)
    return lin(ca*k, {t: c*k for t, c in ta.items()})
def cat(a, b):
    pa = a[1] if a[0] == "cat" else (a,)
    pb = b[1] if b[0] == "cat" else (b,)
    parts = []
    for p in pa + pb:
        if is_const(p) and p[1] in (b"", ""): continue
        if parts and is_const(p) and is_const(parts[-1]) and type(p[1]) == type(parts[-1][1]):
            parts[-1] = const(parts[-1][1] + p[1]); continue
        parts.append(p)
    if not parts: return pa[0] if pa else const(b"")
    return parts[0] if len(parts) == 1 else ("cat", tuple(parts))

def subterms(t):
    yield t
    for x in t[1:]:
        yield from _sub(x)
def _sub(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in TAGS: yield from subterms(x)
        else:
            for y in x: yield from _sub(y)
TAGS = {"const","param","glob","fn","cls","mod","ext","bmeth","clos","attr","item","slice","elem","idx","new","obj","seq",
        "call","meth","lin","cat","op","cmp","not","fmt","acc","copy","keys","values","items","len","ret","deleted","exc",
        "hasattr","in","ver","values","isinst","reversed","unk","starts","ends","dictlit","bool","enum","min","max","super","last","alt","exists"}
def mentions(t, s): return any(x == s for x in subterms(t))
def contains_tag(t, tags): return any(x[0] in tags for x in subterms(t))

def subst(t, m):
    "replace subterms by the map m (top-down)"
    if t in m: return m[t]
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in TAGS: return subst(x, m)
            return tuple(go(y) for y in x)
        return x
    if is_const(t): return t
    return (t[0],) + tuple(go(x) for x in t[1:])

def show(t):
    k = t[0]
    if k == "const": return repr(t[1])
    if k in ("param",): return t[1]
    if k == "glob": return t[2]
    if k in ("fn", "cls", "mod", "ext"): return str(t[1]).split(".")[-1]
    if k == "attr": return show(t[1]) + "." + t[2]
    if k == "item": return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "slice": return "%s[%s:%s]" % (show(t[1]), show(t[2]), show(t[3]) if t[3] else "")
    if k == "elem": return "each(%s)" % show(t[1])
    if k == "idx": return "index(%s)" % show(t[1])
    if k == "new": return "%s#%d" % (t[1].split(".")[-1], t[4])
    if k == "obj": return "%s#%s" % (t[1], t[2])
    if k == "seq": return ("[%s]" if t[1] == "list" else "(%s)") % ", ".join(map(show, t[2]))
    if k in ("call", "ret"): return "%s(%s)" % (t[1].split(".")[-1], ", ".join([show(a) for a in t[2]] + ["%s=%s" % (n, show(v)) for n, v in t[3]]))
    if k == "meth": return "%s.%s(%s)" % (show(t[1]), t[2], ", ".join(map(show, t[3])))
    if k == "lin":
        s = " + ".join(("%s" % show(x) if c == 1 else "%s*%s" % (c, show(x))) for x, c in t[2])
        return s + (" + %s" % t[1] if t[1] else "")
    if k == "cat": return " ++ ".join(map(show, t[1]))
    if k in ("op", "cmp"): return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "not": return "not %s" % show(t[1])
    if k == "len": return "len(%s)" % show(t[1])
    if k in ("copy", "keys", "values", "items", "reversed"): return "%s(%s)" % (k, show(t[1]))
    if k == "hasattr": return "hasattr(%s, %r)" % (show(t[1]), t[2])
    if k == "in": return "%s in %s" % (show(t[1]), show(t[2]))
    if k == "ver": return show(t[1]) + "'"
    if k == "starts": return "%s starts with %s" % (show(t[1]), show(t[2]))
    if k == "alt": return "one of {%s}" % ", ".join(map(show, t[1]))
    if k == "fmt": return "format(...)"
    return "<%s>" % k if len(t) < 2 or not isinstance(t[1], tuple) else "%s(%s)" % (k, show(t[1]))
