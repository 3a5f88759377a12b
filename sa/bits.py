"""Exact evaluation of terms over finite domains (header bytes, flags) and bit provenance of integers.
Nothing of the analysed program runs: the terms its source denotes are evaluated for every value of a leaf."""
from itertools import product
from .terms import *
from .dom import *

class Unknown(Exception): pass

OPS = {"|": lambda a, b: a | b, "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
       "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "is": lambda a, b: a is b or a == b and type(a) == type(b), "is not": lambda a, b: not (a is b or a == b and type(a) == type(b))}

def ev(t, env):
    "the value of a term, given the values of its leaves"
    if t in env: return env[t]
    k = t[0]
    if k == "const": return t[1]
    if k == "ver": return ev(t[1], env)
    if k == "op":
        a, b = ev(t[2], env), ev(t[3], env)
        if t[1] in OPS and isinstance(a, int) and isinstance(b, int):
            try: return OPS[t[1]](a, b)
            except (ValueError, ZeroDivisionError): raise Unknown
    if k == "cmp" and t[1] in CMP:
        try: return CMP[t[1]](ev(t[2], env), ev(t[3], env))
        except TypeError: raise Unknown
    if k == "not": return not ev(t[1], env)
    if k == "bool": return bool(ev(t[1], env))
    if k == "lin":
        s = t[1]
        for x, c in t[2]:
            v = ev(x, env)
            if not isinstance(v, int): raise Unknown
            s += c * v
        return s
    if k == "seq": return (list if t[1] == "list" else tuple)(ev(x, env) for x in t[2])
    if k == "in":
        try: return ev(t[1], env) in ev(t[2], env)
        except TypeError: raise Unknown
    if k == "call" and not t[3] and len(t[2]) == 1 and t[1] in ("int", "bool", "abs"): return {"int": int, "bool": bool, "abs": abs}[t[1]](ev(t[2][0], env))
    if k == "call" and not t[3] and t[1] in ("min", "max") and len(t[2]) > 1: return {"min": min, "max": max}[t[1]](ev(x, env) for x in t[2])
    if k == "item" and t[1][0] == "seq":
        try: return ev(t[1], env)[ev(t[2], env)]
        except (IndexError, TypeError): raise Unknown
    if k == "and": return all(ev(x, env) for x in t[1])
    raise Unknown

def sat(key, d, env):
    "does a path condition hold for these values?"
    v = ev(key[1], env)
    if key[0] == "b": return bool(v) in d.s
    if key[0] == "d":
        if not isinstance(v, (int, float)): raise Unknown
        return d.lo <= v <= d.hi
    try: return d.has(v)
    except TypeError: raise Unknown

def leaves(t, is_leaf):
    "the leaves of a term, or None if something in it is not understood as a function of leaves"
    out = set()
    def go(x):
        if is_leaf(x): out.add(x); return True
        k = x[0]
        if k == "const": return True
        if k in ("op", "cmp", "in"): return all(go(y) for y in x[1:] if isinstance(y, tuple))
        if k in ("not", "bool", "ver"): return go(x[1])
        if k == "lin": return all(go(y) for y, _ in x[2])
        if k == "seq": return all(go(y) for y in x[2])
        if k == "call": return x[1] in ("int", "bool", "abs", "min", "max") and all(go(y) for y in x[2]) and not x[3]
        if k == "item": return x[1][0] == "seq" and go(x[1]) and go(x[2])
        return False
    return out if go(t) else None

def allowed(conds, doms, extra=()):
    """the value combinations of the leaves of doms (an ordered dict leaf -> values) that the conditions allow,
    using every condition that mentions those leaves only"""
    ls = list(doms)
    use = []
    for key, d in list(conds.items()) + list(extra):
        s = leaves(key[1], lambda x: x in doms)
        if s: use.append((key, d, s))
    out = []
    for vs in product(*(doms[l] for l in ls)):
        env = dict(zip(ls, vs)); ok = True
        for key, d, s in use:
            try:
                if not sat(key, d, env): ok = False; break
            except Unknown: pass
        if ok: out.append(env)
    return out

def bitvec(t, width, is_leaf):
    """bits of a non-negative integer term, least significant first: 0, 1 or (leaf, i); None if not understood.
    width(leaf): how many bits the leaf has"""
    if is_leaf(t): return [(t, i) for i in range(width(t))]
    k = t[0]
    if k == "ver": return bitvec(t[1], width, is_leaf)
    if k == "const" and isinstance(t[1], int) and t[1] >= 0: return [int(c) for c in bin(int(t[1]))[:1:-1]] if t[1] else []
    def trim(b):
        while b and b[-1] == 0: b = b[:-1]
        return b
    def merge(a, b):
        out = []
        for i in range(max(len(a), len(b))):
            x, y = a[i] if i < len(a) else 0, b[i] if i < len(b) else 0
            if x == 0: out.append(y)
            elif y == 0: out.append(x)
            else: return None
        return out
    def pow2(c): return c.bit_length() - 1 if isinstance(c, int) and c > 0 and c & (c - 1) == 0 else None
    if k == "call" and t[1] == "int" and len(t[2]) == 1: return bitvec(t[2][0], width, is_leaf)
    if k == "lin":
        acc = bitvec(const(t[1]), width, is_leaf) if t[1] >= 0 else None
        for x, c in t[2]:
            b, n = bitvec(x, width, is_leaf), pow2(c)
            if b is None or n is None or acc is None: return None
            acc = merge(acc, [0] * n + b)
        return acc
    if k == "op":
        o, x, y = t[1], t[2], t[3]
        a = bitvec(x, width, is_leaf)
        if o in ("|", "+", "^"):
            b = bitvec(y, width, is_leaf)
            if a is None or b is None: return None
            if o == "|":   # constants may overlap what they meet
                if len(a) >= 0 and all(v in (0, 1) for v in b):
                    return [1 if (i < len(b) and b[i] == 1) else (a[i] if i < len(a) else 0) for i in range(max(len(a), len(b)))]
            return merge(a, b)
        if o == "*":
            if is_const(y): n = pow2(y[1]); return [0] * n + a if n is not None and a is not None else None
            if is_const(x):
                n, b = pow2(x[1]), bitvec(y, width, is_leaf)
                return [0] * n + b if n is not None and b is not None else None
            return None
        if o == "&" and is_const(x) and not is_const(y): x, y = y, x; a = bitvec(x, width, is_leaf)
        if a is None or not is_const(y) or not isinstance(y[1], int): return None
        c = y[1]
        if o == "&": return trim([a[i] if c >> i & 1 else 0 for i in range(len(a))])
        if o == ">>": return a[c:]
        if o == "<<": return [0] * c + a if a else []
        n = pow2(c)
        if n is None: return None
        if o == "//": return a[n:]
        if o == "%": return trim(a[:n])
    return None
