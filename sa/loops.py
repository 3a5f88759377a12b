"""Reasoning about loop bodies and versions: erasing versions, intervals, per-element obligations."""
from .terms import *
from .dom import *
from .query import norm, count_events, PathQ, event_op, strip, INF
from .interp import top_of, is_top

def plain(t): return norm(t)

def erase(conds):
    "condition map with container versions forgotten; a key whose versions disagree is dropped"
    out, bad = {}, set()
    for k, d in conds.items():
        k2 = (k[0], norm(k[1]))
        if k2 in bad: continue
        if k2 in out:
            if out[k2] == d: continue
            u = out[k2].join_exact(d) if type(out[k2]) is type(d) else None
            if u is None or u.full() or is_top(k2, u): del out[k2]; bad.add(k2)
            else: out[k2] = u
        else: out[k2] = d
    return out

def absent(conds, k, cont):
    "the conditions say that k (this very term) is not in the container, at some version of the container"
    cont = norm(cont)
    for key, d in conds.items():
        if key[0] == "b" and key[1][0] == "in" and key[1][1] == k and norm(key[1][2]) == cont: return d == NO
    return False

def interval(t, conds, base):
    "an integer interval containing the term, given base(term) -> (lo, hi) or None for leaves"
    r = base(t)
    if r is None:
        k = t[0]
        if k == "const" and isinstance(t[1], int): r = (t[1], t[1])
        elif k == "lin":
            lo = hi = t[1]
            for x, c in t[2]:
                a, b = interval(x, conds, base)
                lo += c * a if c > 0 else c * b; hi += c * b if c > 0 else c * a
            r = (lo, hi)
        elif k == "op":
            (a, b), (c, d) = interval(t[2], conds, base), interval(t[3], conds, base)
            o = t[1]
            if o == "%" and c == d and c > 0: r = (a, b) if 0 <= a and b < c else (0, c - 1)
            elif o == "//" and c == d and c > 0 and a > -INF and b < INF: r = (a // c, b // c)
            elif o == "*" and min(a, c) >= 0: r = (a * c, b * d)
            elif o == "&" and c == d and c >= 0: r = (0, c if b >= c or a < 0 else min(b, c))
            elif o == ">>" and c == d and a >= 0 and b < INF: r = (a >> c, b >> c)
            else: r = (-INF, INF)
        elif k == "call" and t[1] in ("min", "max") and len(t[2]) > 1:
            rs = [interval(x, conds, base) for x in t[2]]
            f = min if t[1] == "min" else max
            r = (f(x[0] for x in rs), f(x[1] for x in rs))
        elif k == "alt":
            rs = [interval(x, conds, base) for x in t[1]]
            r = (min(x[0] for x in rs), max(x[1] for x in rs))
        elif k == "len": r = (0, INF)
        else: r = (-INF, INF)
    lo, hi = r
    v = conds.get(("v", t))
    if isinstance(v, Val):
        if v.inc is not None:
            s = [x for x in v.inc if isinstance(x, int) and lo <= x <= hi]
            if s: lo, hi = min(s), max(s)
        else:
            while lo in v.exc and lo <= hi: lo += 1
            while hi in v.exc and lo <= hi: hi -= 1
    d = conds.get(("d", t))
    if isinstance(d, Iv): lo, hi = max(lo, d.lo), min(hi, d.hi)
    return lo, hi

def loops_over(p, cont, stack=None):
    "occurrences of loops whose iterated container is (a version or copy of) the term"
    c = norm(cont)
    out = []
    for o in p.flat():
        if o.ev.kind == "loop" and norm(unwrap(o.ev.loop.it)) == c and (stack is None or o.stack == stack): out.append(o)
    return out
def unwrap(t):
    while True:
        if t[0] in ("ver", "copy", "keys"): t = t[1]
        elif t[0] == "call" and t[1] in ("list", "tuple", "iter", "enumerate", "zip", "reversed") and t[2]: t = t[2][0]
        elif t[0] == "reversed": t = t[1]
        elif t[0] == "call" and t[1] == "range" and t[2] and t[2][-1][0] == "len" and (len(t[2]) == 1 or len(t[2]) == 2 and t[2][0] == ("const", 0)): t = t[2][-1][1]
        else: return t

def edges_of(loop):
    return list(dict.fromkeys(loop.edges + ((loop.final,) if loop.final else ())))

def skips(p):
    "loops that go through a container which their own body shrinks while they go on: (loop occurrence, event)"
    out = []
    for o in p.flat():
        if o.ev.kind != "loop" or o.ev.loop.kind != "live": continue
        c = norm(unwrap(o.ev.loop.it))
        for ed in edges_of(o.ev.loop):
            if ed.ctrl is not None: continue
            for e in flat_events(ed.events):
                op, cont, a = event_op(e)
                if op in ("REMOVE", "POP", "CLEAR") and norm(cont) == c: out.append((o, e))
    return out
def flat_events(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            for ed in edges_of(e.loop): yield from flat_events(ed.events)
