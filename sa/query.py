"""Queries over guarded effect summaries: expressions, guards and event patterns written as Python expressions.

 guard    "packet.fh.QoS == 1"                    evaluated by the same normaliser as the code
 pattern  "respond(sock, New('Pubacks', packetIdentifier=packet.packetIdentifier), _)"
 events   name(args)            a call of name (last component), base.name(args) a method call
          ADD(c, v)  REMOVE(c, k)  PUT(c, k, v)  POP(c)  CLEAR(c)    changes of a container
          SET(b.attr, v)  DEL(b.attr)                               attribute assignment / removal
 terms    _ matches anything, v_x binds, EACH(c) is an element of c, New(cls, attr=..) a fresh object whose
          attributes hold those values when it is handed over
"""
import ast, os
from .terms import *
from .dom import *
from .interp import St, Interp, LoopInfo, Edge, Ev, show_conds, top_of, merge2
from .project import AnalysisBroken

def norm(t):
    "forget versions and copies"
    k = t[0]
    if k in ("ver", "copy"): return norm(t[1])
    if k == "call" and t[1] in ("deepcopy", "shallowcopy") and t[2]: return norm(t[2][0])
    if k == "const" or k in ("param", "fn", "cls", "mod", "ext", "glob", "obj"): return t
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in TAGS: return norm(x)
            return tuple(go(y) for y in x)
        return x
    t2 = (k,) + tuple(go(x) for x in t[1:])
    if k == "item": return item(t2[1], t2[2])
    return t2

class Wild:
    pass

class Fn:
    "the summaries of one function, with helpers to state rules about them"
    def __init__(self, interp, func, params=None, pre=None, selfcls=None, given=()):
        self.I, self.func = interp, func
        self.names = params or func.params()
        self.self_class = selfcls or func.cls
        self._pre, self._params, self._selfcls, self._given = pre, params, selfcls, given
        self.where = "%s: %s" % (func.module.rel, func.short)
        self._t = {}
    @property
    def paths(self):
        if not hasattr(self, "_paths"):
            if isinstance(getattr(self, "_broken", None), AnalysisBroken): raise self._broken
            try:
                pre = self.starting(self._given) if self._given else self._pre
                self._paths = [PathQ(self, p.conds, p.events, p.ctrl, p.heap, getattr(p, "facts", {}), ver=p.ver) for p in self.I.summarize(self.func, self._params, pre, selfcls=self._selfcls)]
            except AnalysisBroken as e: self._broken = e; raise
            except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                if os.environ.get("VERIF_DEBUG"): raise
                self._broken = AnalysisBroken("%s: the analysis does not understand this code (%r)" % (self.where, e)); raise self._broken
        return self._paths
    def starting(self, guards):
        "summarise only what happens under the guards"
        def pre(I, st):
            self.enter()
            cs = self.assume({}, guards)
            if len(cs) != 1: raise AnalysisBroken("ambiguous precondition %s" % " and ".join(guards))
            st.conds.update(cs[0])
        return pre
    def state(self):
        st = St()
        env = {n: ("param", n) for n in self.names}
        if self.func.node.args.vararg: env[self.func.node.args.vararg.arg] = ("param", self.func.node.args.vararg.arg)
        env["_"] = ("wild",)
        st.frames.append(env)
        return st
    def enter(self):
        self.I.stack, self.I.trys, self.I.self_class = [self.func], [], self.self_class
    def T(self, expr, extra=None):
        "the term denoted by an expression over the canonical parameters"
        if isinstance(expr, tuple): return expr
        key = (expr, tuple(sorted(extra.items())) if extra else None)
        if key in self._t: return self._t[key]
        self.enter()
        node = ast.parse(expr, mode="eval").body
        st = self.state()
        if extra: st.frames[-1].update(extra)
        t = self.term_of(node, st)
        self._t[key] = t
        return t
    def term_of(self, node, st):
        if isinstance(node, ast.Name):
            if node.id == "_": return ("wild",)
            if node.id.startswith("v_"): return ("var", node.id)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            n = node.func.id
            if n == "EACH": return ("elem", self.term_of(node.args[0], st))
            if n == "INDEX": return ("idx", self.term_of(node.args[0], st))
            if n == "RET": return ("retof", node.args[0].value, tuple(self.term_of(a, st) for a in node.args[1:]))
            if n == "ONEOF": return ("oneof", tuple(self.term_of(a, st) for a in node.args))
            if n == "New": return ("newpat", node.args[0].value, tuple(self.term_of(a, st) for a in node.args[1:]), tuple((k.arg, self.term_of(k.value, st)) for k in node.keywords))
            if n == "HAS": return ("haspat", self.term_of(node.args[0], st))
            if n == "CAT": return ("cat", tuple(self.term_of(a, st) for a in node.args))
            if n == "CALL": return ("call", node.args[0].value, tuple(self.term_of(a, st) for a in node.args[1:]), ())
        if isinstance(node, ast.Attribute):
            b = self.term_of(node.value, st)
            if b[0] in ("wild", "var", "elem", "newpat", "retof"): return attr(b, node.attr)
            return self.I.getattr(b, node.attr, st)
        if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
            return ("item", self.term_of(node.value, st), self.term_of(node.slice, st))
        if isinstance(node, ast.Tuple): return ("seq", "tuple", tuple(self.term_of(e, st) for e in node.elts))
        if isinstance(node, ast.List) and node.elts: return ("seq", "list", tuple(self.term_of(e, st) for e in node.elts))
        r = self.I.ev(node, st)
        if len(r) != 1: raise AnalysisBroken("ambiguous expression in rule: %s" % ast.unparse(node))
        return r[0][0]
    def assume(self, conds, guards, facts=None, extra=None, ver=None):
        "the refinements of a condition map under which all guards hold"
        self.enter()
        states = []
        st = self.state(); st.conds = dict(conds); st.facts = dict(facts or {})
        if ver: st.ver = dict(ver)
        if extra: st.frames[-1].update(extra)
        cur = [st]
        for g in guards:
            neg = False
            node = ast.parse(g, mode="eval").body
            nx = []
            for s in cur:
                for b, s2 in self.I.cond(self._prep(node), s):
                    if s2.ctrl is None and b: nx.append(s2)
            cur = nx
        return [s.conds for s in cur]
    def _prep(self, node):
        fn = self
        class Tr(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id == "EACH": return _TermNode(n, fn)
                return n
        import copy
        return Tr().visit(copy.deepcopy(node))
    def given(self, *guards, **kw):
        out = []
        for p in self.paths:
            for c in self.assume(p.conds, guards):
                out.append(PathQ(self, c, p.events, p.ctrl, p.heap, p.facts, ver=p.ver))
        if not out: raise AnalysisBroken("%s: no path is consistent with %s" % (self.where, " and ".join(guards)))
        return out
    def pat(self, pattern): return Pattern(self, pattern)

class _TermNode(ast.expr):
    _fields = ()
    def __init__(self, call, fn): self.call, self.fn = call, fn
def _e_TermNode(self, n, st):
    return [(n.fn.term_of(n.call, st), st)]
Interp.e__TermNode = _e_TermNode
def _e_Name_wrap(orig):
    def e_Name(self, n, st): return orig(self, n, st)
    return e_Name

class PathQ:
    def __init__(self, fn, conds, events, ctrl, heap, facts, stack=(), ver=None):
        self.ver = ver
        self.fn, self.conds, self.events, self.ctrl, self.heap, self.facts, self.stack = fn, conds, events, ctrl, heap, facts, stack
    @property
    def ret(self): return self.ctrl[1] if self.ctrl and self.ctrl[0] == "return" else (NONE if self.ctrl is None else None)
    @property
    def raised(self): return self.ctrl[1] if self.ctrl and self.ctrl[0] == "raise" else None
    def consistent(self, *guards): return bool(self.fn.assume(self.conds, guards))
    def at_end(self, guard):
        "the guard, evaluated with what the containers hold when the function is left, certainly holds"
        return not self.fn.assume(self.conds, ["not (%s)" % guard], self.facts, ver=self.ver)
    def entails(self, guard): return not self.fn.assume(self.conds, ["not (%s)" % guard])
    def flat(self):
        "[(event, conditions, loop stack)] with the events inside loops"
        out = []
        def go(evs, conds, stack):
            for i, e in enumerate(evs):
                out.append(Occ(e, conds, stack, i))
                if e.kind == "loop":
                    for ed in dict.fromkeys(e.loop.edges + ((e.loop.final,) if e.loop.final else ())):
                        c = dict(conds); c.update(ed.conds)
                        go(ed.events, c, stack + ((e.loop, ed),))
        go(self.events, self.conds, self.stack)
        return out
    def find(self, *patterns):
        pats = [self.fn.pat(p) if isinstance(p, str) else p for p in patterns]
        out = []
        for n, o in enumerate(self.flat()):
            for p in pats:
                b = p.match(o.ev)
                if b is not None:
                    out.append(Match(o.ev, o.conds, o.stack, b, n)); break
        return out
    def top(self, *patterns):
        "matches outside loops"
        return [m for m in self.find(*patterns) if len(m.stack) == len(self.stack)]
    def loops(self): return [o for o in self.flat() if o.ev.kind == "loop"]
    def count(self, *patterns):
        """(least, most) number of matching events on this class of paths"""
        pats = [self.fn.pat(p) if isinstance(p, str) else p for p in patterns]
        return count_events(self.events, pats)
    def text(self): return show_conds(self.conds)
    def __repr__(self):
        s = show_conds(self.conds) + "\n"
        for e in self.events: s += "    " + repr(e) + "\n"
        return s + "    => " + (("%s %s" % (self.ctrl[0], show(self.ctrl[1]) if len(self.ctrl) > 1 and self.ctrl[1] else "")) if self.ctrl else "end")

class Occ:
    def __init__(self, ev, conds, stack, i): self.ev, self.conds, self.stack, self.i = ev, conds, stack, i
class Match:
    def __init__(self, ev, conds, stack, b, n): self.ev, self.conds, self.stack, self.b, self.n = ev, conds, stack, b, n
    @property
    def where(self): return "%s:%s line %s" % self.ev.where if self.ev.where else "?"
INF = float("inf")
def count_events(events, pats):
    lo = hi = 0
    for e in events:
        if any(p.match(e) is not None for p in pats): lo += 1; hi += 1
        if e.kind == "loop":
            for ed in e.loop.edges:
                l, h = count_events(ed.events, pats)
                if h and ed is not e.loop.final: hi = INF
            if e.loop.final:
                l, h = count_events(e.loop.final.events, pats); lo += l; hi += h
    return lo, hi

class Pattern:
    def __init__(self, fn, text):
        self.fn, self.text = fn, text
        node = ast.parse(text, mode="eval").body
        st = fn.state(); fn.enter()
        self.kind, self.name, self.base, self.args, self.kw = None, None, None, (), {}
        if isinstance(node, ast.Call):
            f = node.func
            nm = f.id if isinstance(f, ast.Name) else None
            tt = lambda n: fn.term_of(n, st)
            if nm in ("ADD", "REMOVE", "PUT", "POP", "CLEAR", "MUT"):
                self.kind = nm; self.args = tuple(tt(a) for a in node.args)
            elif nm in ("SET", "DEL"):
                self.kind = nm
                a = node.args[0]
                if not isinstance(a, ast.Attribute): raise AnalysisBroken("bad pattern " + text)
                self.base, self.name = tt(a.value), a.attr
                self.args = tuple(tt(x) for x in node.args[1:])
            elif nm in ("ENTER", "EXIT", "GLOBAL"):
                self.kind = nm; self.args = tuple(tt(a) for a in node.args)
            else:
                self.kind = "call"
                if isinstance(f, ast.Attribute): self.base, self.name = tt(f.value), f.attr
                else: self.name = nm
                self.more = any(isinstance(a, ast.Constant) and a.value is Ellipsis for a in node.args)
                self.args = tuple(tt(a) for a in node.args if not (isinstance(a, ast.Constant) and a.value is Ellipsis))
                self.kw = {k.arg: tt(k.value) for k in node.keywords}
        else: raise AnalysisBroken("bad pattern " + text)
    def match(self, e):
        b = {}
        k = self.kind
        if k == "call":
            if e.kind != "call" or e.name.split(".")[-1] != self.name: return None
            if self.base is not None:
                if e.base is None or not unify(self.base, e.base, b, e.snap): return None
            if len(e.args) < len(self.args) or (len(e.args) > len(self.args) and not self.more): return None
            for p, a in zip(self.args, e.args):
                if not unify(p, a, b, e.snap): return None
            ekw = dict(e.kw)
            for n, p in self.kw.items():
                if n not in ekw or not unify(p, ekw[n], b, e.snap): return None
            return b
        if k == "SET":
            if e.kind != "setattr" or (e.name != self.name and self.name != "_"): return None
            if not unify(self.base, e.base, b, None): return None
            if self.args and not unify(self.args[0], e.args[0], b, None): return None
            return b
        if k == "DEL":
            return b if e.kind == "delattr" and e.name == self.name and unify(self.base, e.base, b, None) else None
        if k in ("ENTER", "EXIT"):
            return b if e.kind == k.lower() and unify(self.args[0], e.base, b, None) else None
        if k == "GLOBAL":
            return b if e.kind == "setglobal" and self.args[0] == const(e.name) else None
        op, c, a = event_op(e)
        if op is None: return None
        if k == "MUT":
            return b if unify(self.args[0], c, b, None) else None
        if k == "ADD" and op == "PUT": op, a = "ADD", a[:1]
        if op != k: return None
        if not unify(self.args[0], c, b, None): return None
        rest = self.args[1:]
        if len(rest) > len(a): return None
        for p, x in zip(rest, a):
            if not unify(p, x, b, None): return None
        return b

def event_op(e):
    if e.kind == "setitem": return "PUT", e.base, e.args
    if e.kind == "mut":
        if e.name in ("append", "add", "insert", "appendleft"): return "ADD", e.base, e.args[-1:]
        if e.name in ("remove", "delitem"): return "REMOVE", e.base, e.args
        if e.name in ("popfirst", "poplast", "popindex"): return "POP", e.base, e.args + ((e.ret,) if e.ret else ())
        if e.name == "clear": return "CLEAR", e.base, ()
        return e.name.upper(), e.base, e.args
    return None, None, ()

def unify(p, t, b, snap):
    k = p[0]
    if k == "wild": return True
    if t[0] == "alt" and k != "alt":
        for x in t[1]:
            if not unify(p, x, b, snap): return False
        return True
    if k == "var":
        if p[1] in b: return norm(b[p[1]]) == norm(t)
        b[p[1]] = t; return True
    if k == "oneof":
        for x in p[1]:
            b2 = dict(b)
            if unify(x, t, b2, snap): b.clear(); b.update(b2); return True
        return False
    t = strip(t)
    if k == "newpat":
        if t[0] != "new" or t[1].split(".")[-1] != p[1]: return False
        for x, y in zip(p[2], t[2]):
            if not unify(x, y, b, snap): return False
        for n, q in p[3]:
            path = ["%reason"] if n == "reason" else n.split("__")
            v = attr_in(t, path[0], snap)
            for m in path[1:]:
                v = attr_in(v, m, snap) if v is not None else None
            if v is None:
                v = dict(t[3]).get(n)
            if v is None:
                if q == ("const", "UNSET") or (q[0] == "oneof" and ("const", "UNSET") in q[1]): continue
                return False
            if not unify(q, v, b, snap): return False
        return True
    if k == "haspat":
        return any(unify(p[1], x, dict(b), snap) for x in subterms(t))
    if k == "retof":
        if t[0] not in ("ret", "call") or t[1].split(".")[-1] != p[1]: return False
        if p[2]:
            args = t[2][-len(p[2]):] if len(t[2]) >= len(p[2]) else None
            if args is None: return False
            return all(unify(x, y, b, snap) for x, y in zip(p[2], args))
        return True
    p = strip(p)
    if p == t: return True
    if p[0] != t[0]: return norm(p) == norm(t) if not contains_tag(p, PATTAGS) else False
    if p[0] == "call" and p[1] in ("min", "max") and p[1] == t[1] and len(p[2]) == len(t[2]) == 2:
        for perm in ((0, 1), (1, 0)):
            b2 = dict(b)
            if all(unify(p[2][i], t[2][j], b2, snap) for i, j in enumerate(perm)): b.clear(); b.update(b2); return True
        return False
    if not contains_tag(p, PATTAGS): return norm(p) == norm(t)
    if len(p) != len(t): return False
    def go(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and isinstance(x[0], str) and (x[0] in TAGS or x[0] in PATTAGS): return unify(x, y, b, snap)
            return len(x) == len(y) and all(go(i, j) for i, j in zip(x, y))
        return x == y
    return all(go(x, y) for x, y in zip(p[1:], t[1:]))
PATTAGS = {"wild", "var", "newpat", "retof", "oneof", "haspat"}
TAGS.update(PATTAGS)
def attr_in(t, n, snap):
    if t[0] == "new":
        v = (snap or {}).get((t, n))
        if v is not None: return v
        for kk, v in t[3]:
            if kk == n: return v
        return attr(t, n) if n in ("fh", "properties", "reasonCode", "WillProperties") else None
    v = (snap or {}).get((t, n))
    return v if v is not None else attr(t, n)
def strip(t):
    while True:
        if t[0] in ("ver", "copy"): t = t[1]
        elif t[0] == "call" and t[1] in ("deepcopy", "shallowcopy") and t[2]: t = t[2][0]
        else: return t
