"""Scenarios: summaries under assumptions that hold for every element alike, and one step of a loop as a function of its accumulators."""
import ast, copy
from .terms import *
from .dom import *
from .query import *
from .query import event_op
from .loops import *
from .project import AnalysisBroken, Func

def flag(v): return None if v is None else YES if v else NO

class Oracle:
    """assumptions about conditions: a list of (test(key kind, term) -> bool, domain); the first that applies decides"""
    def __init__(self, rules): self.rules = rules
    def __call__(self, key):
        for t, d in self.rules:
            if d is not None and t(key[0], key[1]): return d
        return None

def local_obj(t):
    while t[0] in ("ver", "copy", "keys", "values", "items"): t = t[1]
    return t if t[0] == "obj" else None

def fills(evs, o):
    "(value, conditions, event) of everything put in a local container by these events, None if it is also changed otherwise"
    out, bad = [], []
    def go(es, conds):
        for e in es:
            if e.kind == "loop":
                for ed in edges_of(e.loop): go(ed.events, {**conds, **ed.conds})
            elif e.base is not None and local_obj(e.base) == o and e.kind in ("mut", "setitem"):
                if e.kind == "mut" and e.name in ("append", "add", "insert"): out.append((e.args[-1], conds, e))
                elif e.kind == "mut" and e.name == "extend":
                    r = e.args[0]; lo = local_obj(r)
                    if lo is not None and lo != o:
                        sub = fills(evs, lo)
                        if sub is None: bad.append(e)
                        else: out.extend((v, {**conds, **c}, e) for v, c, _ in sub)
                    else: out.append((("elem", strip(r)), conds, e))
                elif e.kind == "setitem": out.append((e.args[1], conds, e))
                else: bad.append(e)
    go(evs, {})
    return None if bad else out

def members(p, t):
    "what a container holds: [(element, conditions)], tracing local containers to what fills them; None if not understood"
    t = strip(t)
    if t[0] == "call" and t[1] in ("list", "tuple", "set", "sorted", "frozenset") and len(t[2]) == 1: return members(p, t[2][0])
    if t[0] == "seq": return [(x, {}) for x in t[2]]
    if t[0] == "alt":
        out = []
        for x in t[1]:
            m = members(p, x)
            if m is None: return None
            out += m
        return out
    if t[0] == "obj":
        f = fills(p.events, t)
        return None if f is None else [(v, c) for v, c, _ in f]
    return [(("elem", t), {})]

class Leaving(ast.NodeTransformer):
    "notes that a loop is left early (not the loops nested in it)"
    def visit_For(self, n): return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For
    def visit_Break(self, n): return [ast.copy_location(ast.Assign([ast.Name("step__left", ast.Store())], ast.Constant(True)), n), n]

class Step:
    "one step of a loop, as a function of the accumulators and the element"
    def __init__(self, b, short, accs=None, n=0, **kw):
        f = b.func(short)
        loops = [x for x in ast.walk(f.node) if isinstance(x, ast.For)]
        loops = [x for x in loops if not any(x is not y and x in list(ast.walk(y)) for y in loops)]
        self.loop = loops[n] if len(loops) > n else None
        self.func = f
        if self.loop is None: return
        lp = self.loop
        names = sorted({x.id for x in ast.walk(ast.Module(lp.body, [])) if isinstance(x, ast.Name)} | {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)})
        bound = {x.id for x in ast.walk(ast.Module(lp.body, [])) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        after = {x.id for y in f.node.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        self.accs = sorted(x for x in bound if x in self.assigned_before(f.node, lp))
        if "self" in f.params() and "self" not in names: names.insert(0, "self")
        loc = set(f.params()) | self.stored(f.node)
        names = [x for x in names if x in loc]
        self.elem = ast.unparse(lp.target)
        src = "def step(%s):\n  step__left = False\n  for step__once in (None,):\n    pass\n  return (%sstep__left,)" % (", ".join(names), "".join(a + ", " for a in self.accs))
        fd = ast.parse(src).body[0]
        fd.body[1].body = [Leaving().visit(x) for x in copy.deepcopy(lp.body)]
        ast.copy_location(fd, lp); ast.fix_missing_locations(fd)
        g = Func(f.module, fd, f.cls, None)
        self.fn = b.fn_of(g, names, **kw)
        self.iter = lp.iter
    def left(self, p):
        "is the loop left early on this path"
        t = p.ret
        return t is not None and t[0] == "seq" and t[2][-1] == TRUE
    def stored(self, node): return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    def assigned_before(self, node, loop):
        out = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < loop.lineno: out.add(x.id)
        return out
    def result(self, p, acc):
        t = p.ret
        if t is None or t[0] != "seq": return None
        return t[2][self.accs.index(acc)]
