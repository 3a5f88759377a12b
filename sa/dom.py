"""Abstract domains of path conditions.

A path condition is a map  key -> domain value.  Three kinds of key:
  ('v', term)   value class of a term: Val
  ('d', lin)    integer interval of a linear form (ordering between terms)
  ('b', atom)   a boolean atom: frozenset of {True, False}
All three lattices are closed under exact complement, so negating a condition loses nothing.
"""
INF = float("inf")
ALL = frozenset("NFT")   # None, falsy, truthy

def cls_of(c):
    return "N" if c is None else ("T" if c else "F")

class Val:
    """Subset of a value space: either a finite set of constants, or everything in some of the classes
    None / falsy / truthy except finitely many constants."""
    __slots__ = ("inc", "classes", "exc")
    def __init__(self, inc=None, classes=ALL, exc=frozenset()):
        if inc is not None:
            inc = frozenset(inc)
            self.inc, self.classes, self.exc = inc, frozenset(cls_of(c) for c in inc), frozenset()
        else:
            self.inc, self.classes = None, frozenset(classes)
            self.exc = frozenset(c for c in exc if cls_of(c) in self.classes)
    def key(self):
        return (self.inc, self.classes, self.exc)
    def __eq__(self, o): return isinstance(o, Val) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self):
        if self.inc is not None: return "{%s}" % ",".join(sorted(map(repr, self.inc)))
        return "".join(sorted(self.classes)) + ("-{%s}" % ",".join(sorted(map(repr, self.exc))) if self.exc else "")
    def empty(self):
        return not self.inc if self.inc is not None else not self.classes
    def full(self):
        return self.inc is None and self.classes == ALL and not self.exc
    def has(self, c):
        return c in self.inc if self.inc is not None else (cls_of(c) in self.classes and c not in self.exc)
    def meet(self, o):
        if self.inc is not None: return Val(c for c in self.inc if o.has(c))
        if o.inc is not None: return Val(c for c in o.inc if self.has(c))
        return Val(None, self.classes & o.classes, self.exc | o.exc)
    def join_exact(self, o):
        "exact union, or None when the union is not representable"
        if self.inc is not None and o.inc is not None: return Val(self.inc | o.inc)
        if self.inc is not None: return o.join_exact(self)
        if o.inc is not None:
            exc = set(self.exc)
            for c in o.inc:
                if self.has(c): continue
                if c in exc: exc.discard(c)
                else: return None
            return Val(None, self.classes, exc)
        if self.classes == o.classes: return Val(None, self.classes, self.exc & o.exc)
        if not (self.classes & o.classes): return Val(None, self.classes | o.classes, self.exc | o.exc)
        if self.classes <= o.classes and not (o.exc - self.exc): return o
        if o.classes <= self.classes and not (self.exc - o.exc): return self
        return None
    def implies(self, o):
        return self.meet(o) == self
    def neg(self):
        "list of Vals whose union is the complement"
        if self.inc is not None: return [Val(None, ALL, self.inc)]
        out = []
        if self.classes != ALL: out.append(Val(None, ALL - self.classes))
        if self.exc: out.append(Val(self.exc))
        return out

class Iv:
    """integer interval"""
    __slots__ = ("lo", "hi")
    def __init__(self, lo=-INF, hi=INF): self.lo, self.hi = lo, hi
    def __eq__(self, o): return isinstance(o, Iv) and (self.lo, self.hi) == (o.lo, o.hi)
    def __hash__(self): return hash((self.lo, self.hi))
    def __repr__(self): return "[%s..%s]" % (self.lo, self.hi)
    def empty(self): return self.lo > self.hi
    def full(self): return self.lo == -INF and self.hi == INF
    def meet(self, o): return Iv(max(self.lo, o.lo), min(self.hi, o.hi))
    def join_exact(self, o):
        a, b = (self, o) if self.lo <= o.lo else (o, self)
        if b.lo <= a.hi + 1: return Iv(a.lo, max(a.hi, b.hi))
        return None
    def implies(self, o): return self.meet(o) == self

class Bo:
    __slots__ = ("s",)
    def __init__(self, s): self.s = frozenset(s)
    def __eq__(self, o): return isinstance(o, Bo) and self.s == o.s
    def __hash__(self): return hash(self.s)
    def __repr__(self): return "/".join(sorted(map(str, self.s)))
    def empty(self): return not self.s
    def full(self): return len(self.s) == 2
    def meet(self, o): return Bo(self.s & o.s)
    def join_exact(self, o): return Bo(self.s | o.s)
    def implies(self, o): return self.s <= o.s
YES, NO = Bo([True]), Bo([False])
