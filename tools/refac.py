"""Rewrites a copy of the repository's sources by one kind of behaviour-preserving edit, everywhere at once, and runs
the checks on it: all must stay quiet.   refac.py [-t T1,T2] [-c C01,C02] [-k dir]"""
import ast, copy, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["mqtt/brokers", "mqtt/formats", "mqtt/clients", "mqtt/proxy", "mqtt/restart", "mbt/main.py", "run_proxy.py", "run_restart_proxy.py", "startbroker.py"]
SKIP = ("unit_tests", "unit_test", "main", "__main__")

def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
def neg(t): return t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
def simple(e): return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)
class Blocks(ast.NodeTransformer):
    "stmt(s) may return a list"
    def __init__(self): self.n = 0; self.cls = None; self.fn = None
    def fresh(self, p="t"): self.n += 1; return "%s_%d" % (p, self.n)
    def block(self, b):
        out = []
        for s in b:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out
    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(n, (ast.IfExp, ast.Lambda)): break
            b = getattr(n, f, None)
            if isinstance(b, list): setattr(n, f, self.block(b))
        for h in getattr(n, "handlers", []): h.body = self.block(h.body)
        if isinstance(n, ast.stmt) and self.fn is not None: return self.stmt(n)
        return n
    def visit_ClassDef(self, n):
        o, self.cls, self.extra = self.cls, n, []
        n.body = self.block(n.body) + self.extra
        self.cls = o; self.extra = []
        return n
    def visit_FunctionDef(self, n):
        if n.name in SKIP: return n
        o, self.fn = self.fn, n
        self.enter(n)
        n.body = self.block(n.body)
        r = self.leave(n)
        self.fn = o
        return r or n
    def enter(self, n): pass
    def leave(self, n): pass
    def stmt(self, n): return n

class Plain(Blocks): "comments dropped, formatting changed"
class Nop(Blocks):
    "a statement that does nothing at the start and the end"
    def leave(self, n):
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = ast.parse("unused_ = 0").body
        if not isinstance(n.body[-1], (ast.Return, ast.Raise)): n.body += ast.parse("unused_ = 1").body
class Invert(Blocks):
    "if a: X else: Y -> if not a: Y else: X"
    def stmt(self, n):
        if isinstance(n, ast.If) and n.orelse: n.test, n.body, n.orelse = neg(n.test), n.orelse, n.body
        return n
class Early(Blocks):
    "if c: X, last of a function -> if not c: return; X"
    def leave(self, n):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)): return
        while n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body.pop()
            n.body += [ast.If(neg(i.test), [ast.Return(None)], [])] + i.body
        l = n.body[-1]
        if isinstance(l, ast.If) and l.orelse and not isinstance(l.orelse[0], ast.If):
            n.body.pop(); n.body += [ast.If(l.test, l.body + [ast.Return(None)], [])] + l.orelse
class LoopContinue(Blocks):
    "for …: if c: X -> for …: if not c: continue; X"
    def stmt(self, n):
        if isinstance(n, ast.For) and len(n.body) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            i = n.body.pop(); n.body += [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return n
class HoistTest(Blocks):
    "if test -> t = test; if t"
    def stmt(self, n):
        if isinstance(n, ast.If) and not simple(n.test):
            t = self.fresh("cond"); a = ast.Assign([N(t, ast.Store())], n.test); n.test = N(t)
            return [a, n]
        return n
class HoistReturn(Blocks):
    def stmt(self, n):
        if isinstance(n, ast.Return) and n.value is not None and not simple(n.value):
            t = self.fresh("result"); return [ast.Assign([N(t, ast.Store())], n.value), ast.Return(N(t))]
        return n
class HoistArgs(Blocks):
    "f(g(x)) -> t = g(x); f(t), in order"
    def stmt(self, n):
        c = n.value if isinstance(n, (ast.Expr, ast.Assign, ast.Return)) else None
        if not isinstance(c, ast.Call) or not simple(c.func): return n
        pre = []
        for i, a in enumerate(c.args):
            if isinstance(a, (ast.Starred, ast.GeneratorExp)): break
            if simple(a): continue
            t = self.fresh("arg"); pre.append(ast.Assign([N(t, ast.Store())], a)); c.args[i] = N(t)
        return pre + [n]
class HoistIter(Blocks):
    "for x in e -> items = e; for x in items"
    def stmt(self, n):
        if isinstance(n, ast.For) and not simple(n.iter):
            t = self.fresh("items"); a = ast.Assign([N(t, ast.Store())], n.iter); n.iter = N(t)
            return [a, n]
        return n
class AugSplit(Blocks):
    "x += e -> x = x + e for plain names and numbers"
    def stmt(self, n):
        if isinstance(n, ast.AugAssign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, str, bytes)) and isinstance(n.target, (ast.Name, ast.Attribute)):
            l = copy.deepcopy(n.target); l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
        return n
class NestAnd(Blocks):
    "if a and b: X -> if a: if b: X"
    def stmt(self, n):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            v = n.test.values
            return ast.If(v[0], [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])], [])
        return n
class JoinIf(Blocks):
    "if a: if b: X -> if a and b: X"
    def stmt(self, n):
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n
class Exprs(Blocks):
    def generic_visit(self, n): return ast.NodeTransformer.generic_visit(self, n)
    def visit_ClassDef(self, n): return ast.NodeTransformer.generic_visit(self, n)
    def visit_FunctionDef(self, n):
        if n.name in SKIP: return n
        return ast.NodeTransformer.generic_visit(self, n)
class SwapEq(Exprs):
    "a == b -> b == a; a < b -> b > a"
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m and not (isinstance(n.comparators[0], ast.Call) or isinstance(n.left, ast.Call)):
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n
class Idiom(Exprs):
    "== None -> is None, in d.keys() -> in d, not a == b -> a != b, len(x) == 0 kept"
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            r = n.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None and isinstance(n.ops[0], (ast.Eq, ast.NotEq)): n.ops = [ast.Is() if isinstance(n.ops[0], ast.Eq) else ast.IsNot()]
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == "keys" and not r.args: n.comparators = [r.func.value]
            if isinstance(r, ast.Constant) and r.value is False and isinstance(n.ops[0], ast.Eq) and False: return neg(n.left)
        return n
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
            m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            if type(n.operand.ops[0]) in m: return ast.Compare(n.operand.left, [m[type(n.operand.ops[0])]()], n.operand.comparators)
        return n
class DeMorgan(Exprs):
    "a and b in a condition -> not (not a or not b)"
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [neg(v) for v in t.values]))
        return n
class InList(Exprs):
    "x in [a, b] -> x in (a, b); and the reverse"
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = n.comparators[0]
            if isinstance(r, ast.List): n.comparators = [ast.Tuple(r.elts, ast.Load())]
            elif isinstance(r, ast.Tuple): n.comparators = [ast.List(r.elts, ast.Load())]
        return n
class InOr(Exprs):
    "x in [a, b] -> x == a or x == b"
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and simple(n.left) and 0 < len(n.comparators[0].elts) < 5:
            return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts]) if len(n.comparators[0].elts) > 1 else ast.Compare(n.left, [ast.Eq()], n.comparators[0].elts)
        return n
class Rename(Blocks):
    "local variables get other names"
    def leave(self, n):
        par = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)): par |= set(x.names)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n: return
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc: x.id += "_r"
            if isinstance(x, ast.ExceptHandler) and x.name in loc: x.name += "_r"
class RenameParams(Blocks):
    "parameters of methods never called with keywords get other names"
    kws = set()
    def leave(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n: return
        par = {a.arg for a in n.args.args[1:]} - self.kws
        if self.cls is None: return
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in par: x.id += "_p"
            if isinstance(x, ast.arg) and x.arg in par: x.arg += "_p"
class RenamePrivate(ast.NodeTransformer):
    "attributes beginning with two underscores get other names"
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr.startswith("__") and not n.attr.endswith("__"): n.attr += "_q"
        return n
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name.startswith("__") and not n.name.endswith("__"): n.name += "_q"
        return n
class RenameHelper(ast.NodeTransformer):
    "methods and functions called only within their own module, and not from outside, get other names"
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.helpers: n.attr += "_h"
        return n
    def visit_Name(self, n):
        if n.id in self.helpers: n.id += "_h"
        return n
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in self.helpers: n.name += "_h"
        return n
class Alias(Blocks):
    "self.a.b(…) several times -> a_ = self.a at the start, if never assigned here nor in anything else but __init__"
    stored = {}
    def leave(self, n):
        if self.cls is None or not n.args.args or n.args.args[0].arg != "self" or n.name.startswith("__"): return
        use = [x.value for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == "self"]
        names = {u.attr for u in use}
        ok = [a for a in sorted(names) if self.stored.get(a, set()) <= {"__init__"} and a in self.stored and sum(u.attr == a for u in use) >= 2]
        if not ok: return
        class S(ast.NodeTransformer):
            def visit_Attribute(s, x):
                s.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in ok and isinstance(x.ctx, ast.Load): return N(x.attr + "_a")
                return x
        n.body = [S().visit(b) for b in n.body]
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = [ast.Assign([N(a + "_a", ast.Store())], ast.Attribute(N("self"), a, ast.Load())) for a in ok]
class Ternary(Blocks):
    "x = a if c else b -> if"
    def stmt(self, n):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            v = n.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(n.targets), v.body)], [ast.Assign(n.targets, v.orelse)])
        if isinstance(n, ast.Return) and isinstance(n.value, ast.IfExp):
            return ast.If(n.value.test, [ast.Return(n.value.body)], [ast.Return(n.value.orelse)])
        return n
class MakeTernary(Blocks):
    "if c: x = a else: x = b -> x = a if c else b"
    def stmt(self, n):
        if isinstance(n, ast.If) and len(n.body) == len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n
class CompLoop(Blocks):
    "x = [e for v in y if c] -> a loop"
    def stmt(self, n):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1:
            g = n.value.generators[0]; t = self.fresh("list")
            vs = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.Name) and x.id in vs for b in self.fn.body for x in ast.walk(b) if False): return n
            m = {v: v + "_c%d" % self.n for v in vs}
            class R(ast.NodeTransformer):
                def visit_Name(s, x): x.id = m.get(x.id, x.id); return x
            body = ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [R().visit(n.value.elt)], []))
            for c in reversed(g.ifs): body = ast.If(R().visit(c), [body], [])
            return [ast.Assign([N(t, ast.Store())], ast.List([], ast.Load())), ast.For(R().visit(g.target), g.iter, [body], []), ast.Assign(n.targets, N(t))]
        return n
class Reorder(Blocks):
    "methods of a class in another order"
    def visit_ClassDef(self, n):
        fs = [b for b in n.body if isinstance(b, ast.FunctionDef)]
        if len({f.name for f in fs}) == len(fs) and all(not f.decorator_list for f in fs):
            n.body = [b for b in n.body if not isinstance(b, ast.FunctionDef)] + fs[::-1]
        return n
def reads(b): return {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
def writes(b): return {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} | {x.name for s in b for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
class Extract(Blocks):
    "blocks without control flow out of them and without variables used later become methods"
    which = "for"; least = 2
    def enter(self, n):
        self.total = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name): self.total[x.id] = self.total.get(x.id, 0) + 1
        self.par = {a.arg for a in n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        self.loc = writes(n.body) | self.par
        self.bad = any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Yield)) and x is not n for x in ast.walk(n)) or self.cls is None or not n.args.args or n.args.args[0].arg != "self"
    def take(self, body):
        if self.bad or len(body) < self.least: return None
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield)) : return None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals"): return None
        w = writes(body); cnt = {}
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name): cnt[x.id] = cnt.get(x.id, 0) + 1
        if any(self.total.get(v) != cnt.get(v) for v in w if v in cnt): return None
        if any(v not in cnt for v in w): return None
        # a variable read before it is written could be one of the loop before
        params = sorted((reads(body) & self.loc) - w - {"self"})
        name = self.fresh("_%s_part" % self.fn.name.strip("_"))
        self.extra.append(ast.FunctionDef(name, ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in params], None, [], [], None, []), body, [], lineno=0))
        return [ast.Expr(ast.Call(ast.Attribute(N("self"), name, ast.Load()), [N(p) for p in params], []))]
    def stmt(self, n):
        if isinstance(n, ast.For) and self.which == "for":
            b = self.take(n.body)
            if b: n.body = b
        if isinstance(n, ast.If) and self.which == "if":
            b = self.take(n.body)
            if b: n.body = b
            b = self.take(n.orelse) if n.orelse else None
            if b: n.orelse = b
        return n
class ExtractIf(Extract): which = "if"; least = 1
class ExtractTest(Blocks):
    "conditions become methods"
    def enter(self, n):
        self.par = {a.arg for a in n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        self.loc = writes(n.body) | self.par
        self.bad = any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Yield)) and x is not n for x in ast.walk(n)) or self.cls is None or not n.args.args or n.args.args[0].arg != "self"
    def stmt(self, n):
        if isinstance(n, ast.If) and not self.bad and isinstance(n.test, (ast.BoolOp, ast.Compare)) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp)) for x in ast.walk(n.test)):
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.Or) : pass
            params = sorted((reads([ast.Expr(n.test)]) & self.loc) - {"self"})
            name = self.fresh("_%s_test" % self.fn.name.strip("_"))
            self.extra.append(ast.FunctionDef(name, ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in params], None, [], [], None, []), [ast.Return(n.test)], [], lineno=0))
            n.test = ast.Call(ast.Attribute(N("self"), name, ast.Load()), [N(p) for p in params], [])
        return n
class Wrap(Blocks):
    "a method's body moves to another method, the old name calls it"
    def leave(self, n):
        if self.cls is None or not n.args.args or n.args.args[0].arg != "self" or n.args.vararg or n.args.kwarg or n.args.kwonlyargs or n.name.startswith("__") or n.decorator_list: return
        if any(isinstance(x, (ast.Yield,)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(n)): return
        inner = ast.FunctionDef("_do_" + n.name, ast.arguments([], [ast.arg(a.arg) for a in n.args.args], None, [], [], None, []), n.body, [], lineno=0)
        self.extra.append(inner)
        n.body = [ast.Return(ast.Call(ast.Attribute(N("self"), inner.name, ast.Load()), [N(a.arg) for a in n.args.args[1:]], []))]
class TwoSteps(Blocks):
    "self.f(x.y) -> v = x.y; self.f(v) for attributes"
    def stmt(self, n):
        c = n.value if isinstance(n, (ast.Expr, ast.Assign)) else None
        if not isinstance(c, ast.Call) or not simple(c.func): return n
        pre = []
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred): break
            if isinstance(a, ast.Attribute) and simple(a):
                t = self.fresh("v"); pre.append(ast.Assign([N(t, ast.Store())], a)); c.args[i] = N(t)
        return pre + [n]
class WhileLoop(Blocks):
    "for x in e[:] -> a while loop with an index"
    def stmt(self, n):
        if isinstance(n, ast.For) and not n.orelse and (isinstance(n.iter, ast.Subscript) and isinstance(n.iter.slice, ast.Slice) or isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ("list", "sorted")):
            t, i = self.fresh("seq"), self.fresh("i")
            return [ast.Assign([N(t, ast.Store())], n.iter), ast.Assign([N(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(N(i), [ast.Lt()], [ast.Call(N("len"), [N(t)], [])]), [ast.Assign([n.target], ast.Subscript(N(t), N(i), ast.Load())), ast.AugAssign(N(i, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]
        return n
class Index(Blocks):
    "for x in e -> for i in range(len(e)): x = e[i], over a list made before"
    def stmt(self, n):
        if isinstance(n, ast.For) and not n.orelse and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Subscript) and isinstance(n.iter.slice, ast.Slice):
            t, i = self.fresh("seq"), self.fresh("i")
            return [ast.Assign([N(t, ast.Store())], n.iter), ast.For(N(i, ast.Store()), ast.Call(N("range"), [ast.Call(N("len"), [N(t)], [])], []), [ast.Assign([n.target], ast.Subscript(N(t), N(i), ast.Load()))] + n.body, [])]
        return n
class Enumerate(Blocks):
    "for x in e -> for i, x in enumerate(e)"
    def stmt(self, n):
        if isinstance(n, ast.For) and not n.orelse:
            n.target = ast.Tuple([N(self.fresh("i"), ast.Store()), n.target], ast.Store()); n.iter = ast.Call(N("enumerate"), [n.iter], [])
        return n
class LogMore(Blocks):
    "a debug line at the start of every method of a module with a logger"
    def leave(self, n):
        if not self.logs or n.name.startswith("__") or any(isinstance(x, ast.Global) for x in ast.walk(n)): return
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = ast.parse("logger.debug('in %s')" % n.name).body
KINDS = [Plain, Nop, Invert, Early, LoopContinue, HoistTest, HoistReturn, HoistArgs, HoistIter, AugSplit, NestAnd, JoinIf, SwapEq, Idiom, DeMorgan, InList, InOr, Rename, RenameParams, RenamePrivate, RenameHelper, Alias, Ternary, MakeTernary, CompLoop, Reorder, Extract, ExtractIf, ExtractTest, Wrap, TwoSteps, WhileLoop, Enumerate, Index, LogMore]

def files(root):
    for f in FILES:
        p = os.path.join(root, "interoperability", f)
        if os.path.isfile(p): yield p
        for d, _, fs in os.walk(p):
            for x in sorted(fs):
                if x.endswith(".py"): yield os.path.join(d, x)
def rewrite(root, kind):
    trees = {p: ast.parse(open(p).read()) for p in files(root)}
    stored, kws = {}, set()
    for t in trees.values():
        for c in ast.walk(t):
            if isinstance(c, ast.keyword) and c.arg: kws.add(c.arg)
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        for x in ast.walk(f):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)): stored.setdefault(x.attr, set()).add(f.name)
    n = 0
    for p, t in trees.items():
        k = kind(); k.stored, k.kws = stored, kws
        if kind is RenameHelper:
            mine = {x.name for x in ast.walk(t) if isinstance(x, ast.FunctionDef)}
            used = lambda t: {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)} | {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} | {y.name for x in ast.walk(t) if isinstance(x, ast.ImportFrom) for y in x.names}
            away = set().union(*[used(u) | {x.name for x in ast.walk(u) if isinstance(x, ast.FunctionDef)} for q, u in trees.items() if u is not t])
            k.helpers = {m for m in mine & used(t) if m not in away and not (m.startswith("__") and m.endswith("__")) and m not in ("handle", "run", "close", "stop", "start")}
            if os.environ.get("SHOW"): print(p, sorted(k.helpers))
        k.logs = any(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "logger" for x in t.body)
        before = ast.dump(t)
        t = ast.fix_missing_locations(k.visit(t))
        n += ast.dump(t) != before
        s = ast.unparse(t) + "\n"; compile(s, p, "exec")
        open(p, "w").write(s)
    return n
def one(root, x, ev):
    try:
        p = subprocess.run([sys.executable, "-m", "sa.run", x], cwd=V, env=dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE=ev), capture_output=True, text=True, timeout=900)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 9, "timeout"
if __name__ == "__main__":
    a = sys.argv[1:]; opt = lambda f: a[a.index(f) + 1] if f in a else None
    kinds = [k for k in KINDS if not opt("-t") or k.__name__ in opt("-t").split(",")]
    checks = opt("-c").split(",") if opt("-c") else sorted(f[:-3].upper() for f in os.listdir(V + "/sa/rules") if f[0] == "c" and f[1:3].isdigit())
    base = tempfile.mkdtemp(prefix="refac")
    for k in kinds:
        root = base + "/" + k.__name__
        subprocess.check_call(["git", "clone", "-q", os.environ.get("FROM", "/repo"), root])
        n = rewrite(root, k)
        bad = []
        with cf.ThreadPoolExecutor(int(opt("-j") or 7)) as ex:
            for x, (rc, o) in zip(checks, ex.map(lambda x: one(root, x, base + "/ev"), checks)):
                und = [l for l in o.splitlines() if l.startswith("UNDECIDED")]
                if rc or und: bad.append((x, rc, [l for l in o.splitlines() if l.strip()][-6:] if rc else und))
        print("%s: %d files changed; %s" % (k.__name__, n, "quiet" if not any(r for _, r, _ in bad) else "NOT QUIET"), flush=True)
        for x, rc, ls in bad[:12]:
            for l in ls[:2]: print("   %s rc=%d %s" % (x, rc, l[:230]), flush=True)
        if opt("-k"): shutil.copytree(root, opt("-k") + "/" + k.__name__, dirs_exist_ok=True)
        shutil.rmtree(root)
    shutil.rmtree(base)
