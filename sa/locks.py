"""Which code runs with the lock held: an interprocedural analysis of the depth to which the lock is taken.

A state is the set of depths the lock can have; a function is analysed once for each depth (and each binding of its parameters to functions
or locks) it can be entered with. Exceptions leave from every statement that can raise one."""
import ast
from .project import Func, Class, Module, AnalysisBroken

DEEP = 5
QUIET = {"len", "id", "str", "repr", "int", "bool", "isinstance", "hasattr", "type", "print", "set", "list", "dict", "tuple", "bytearray", "getattr", "callable", "time", "monotonic",
         "perf_counter", "process_time", "current_thread", "get_ident", "debug", "info", "warning", "error", "exception", "log", "print_exc", "format", "keys", "values", "items", "copy", "get", "isEnabledFor"}
MUTATORS = {"append", "add", "remove", "pop", "clear", "update", "insert", "extend", "discard", "setdefault", "popitem", "sort", "reverse"}
VIEWS = {"keys", "values", "items", "get", "setdefault", "__getitem__"}

class Out:
    def __init__(self, fall=frozenset()): self.fall, self.ret, self.exc, self.brk, self.cont = frozenset(fall), frozenset(), frozenset(), frozenset(), frozenset()
    def add(self, o, fall=True):
        if fall: self.fall |= o.fall
        self.ret |= o.ret; self.exc |= o.exc; self.brk |= o.brk; self.cont |= o.cont

class Access:
    def __init__(self, what, func, node, free, way): self.what, self.func, self.node, self.free, self.way = what, func, node, free, way

class LockFlow:
    def __init__(self, project, packages, lockattrs, lockglobals, guarded, named, aliases, setup=(), fields={}, globs={}):
        """lockattrs: {(class name, attribute)}, lockglobals: {(module, name)}; guarded: {class qual: {attribute}}, named: {attribute: ...} those which are told by their names alone;
        aliases: {(module, name)} global names of guarded containers"""
        self.P, self.lockattrs, self.lockglobals, self.guarded, self.named, self.aliases, self.setup = project, lockattrs, lockglobals, guarded, named, aliases, set(setup)
        self.fields, self.globs = fields, globs     # {(class qual, attribute): {classes}}, {(module, name): {classes}}
        self.lockattr_names = {a for _, a in lockattrs}
        self.mods = [m for n, m in project.modules.items() if any(n == p or n.startswith(p + ".") for p in packages)]
        self.methods, self.values = {}, {}
        for m in self.mods:
            for cl in m.classes.values():
                for n, f in cl.methods.items(): self.methods.setdefault(n, []).append(f)
            called = {id(x.func) for x in ast.walk(m.tree) if isinstance(x, ast.Call)}
            self.values[m.name] = [f for n, f in m.functions.items() if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) and id(x) not in called for x in ast.walk(m.tree))]
        self.memo, self.busy, self.accesses, self.faults, self.nested, self.seen = {}, {}, {}, {}, [], set()
        self.local_cache = {}
    # --- names
    def locals_of(self, func):
        "(names for the lock, names for guarded containers) in a function, whatever the order of its statements"
        if func in self.local_cache: return self.local_cache[func]
        locks, cont = set(), set(); self.local_cache[func] = (locks, cont)
        for _ in range(3):
            for x in ast.walk(func.node):
                pairs = []
                if isinstance(x, ast.Assign): pairs = [(t, x.value) for t in x.targets]
                elif isinstance(x, ast.NamedExpr): pairs = [(x.target, x.value)]
                elif isinstance(x, ast.withitem) and x.optional_vars is not None: pairs = [(x.optional_vars, x.context_expr)]
                for t, v in pairs:
                    if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts): pairs2 = list(zip(t.elts, v.elts))
                    else: pairs2 = [(t, v)]
                    for t, v in pairs2:
                        if isinstance(t, ast.Name):
                            if self.is_lock(v, func, {}): locks.add(t.id)
                            if self.container(v, func): cont.add(t.id)
        return locks, cont
    def is_lock(self, e, func, env):
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and func.cls is not None: return any((c, e.attr) in self.lockattrs for c in func.cls.base_names())
            if e.attr in self.lockattr_names: return True
            r = func.module.resolve_expr(e.value)
            return isinstance(r, Module) and (r.name, e.attr) in self.lockglobals
        if isinstance(e, ast.Name):
            if env.get(e.id) == "lock": return True
            params = func.params()
            if e.id in params: return False
            if e.id in self.locals_of(func)[0]: return True
            return (func.module.name, e.id) in self.lockglobals and not self.assigned(func, e.id)
        return False
    def assigned(self, func, name):
        if any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(func.node)): return False
        return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(func.node)) or name in func.params()
    def attr(self, e, func):
        "the guarded attribute an expression names, or None"
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and func.cls is not None:
                for c in func.cls.mro():
                    if isinstance(c, Class) and e.attr in self.guarded.get(c.qual, ()): return "%s.%s" % (c.name, e.attr)
                return None
            t = self.types(e.value, func)
            if t: return next(("%s.%s" % (k.name, e.attr) for k in t if any(e.attr in self.guarded.get(y.qual, ()) for y in [k] + [z for z in k.mro() if isinstance(z, Class)])), None)
            if e.attr in self.named: return "%s.%s" % (self.named[e.attr], e.attr)
            r = func.module.resolve_expr(e.value) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if isinstance(r, Module) and (r.name, e.attr) in self.aliases: return "%s.%s" % (r.name.split(".")[-1], e.attr)
        elif isinstance(e, ast.Name):
            if (func.module.name, e.id) in self.aliases and not self.assigned(func, e.id): return "%s.%s" % (func.module.name.split(".")[-1], e.id)
        return None
    def container(self, e, func, deep=0):
        "is this guarded state itself (and not a copy)?"
        if isinstance(e, (ast.Attribute, ast.Name)) and self.attr(e, func): return True
        if isinstance(e, ast.Name) and deep < 3 and func in self.local_cache and e.id in self.local_cache[func][1]: return True
        if isinstance(e, ast.Subscript): return self.container(e.value, func, deep + 1)
        if isinstance(e, ast.IfExp): return self.container(e.body, func, deep + 1) or self.container(e.orelse, func, deep + 1)
        if isinstance(e, ast.Call) and deep < 3:
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS: return self.container(e.func.value, func, deep + 1)
            for f in self.callees(e, func, {})[0]:
                if f.node.name in ("__init__",): continue
                if any(isinstance(x, ast.Return) and x.value is not None and isinstance(x.value, (ast.Attribute, ast.Call)) and (self.container(x.value, f, deep + 1) if isinstance(x.value, ast.Attribute)
                       else isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ("keys", "values", "items") and self.container(x.value.func.value, f, deep + 1)) for x in ast.walk(f.node)): return True
        return False
    # --- calls
    def fits(self, f, call, bound):
        a = f.node.args
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords): return True
        ps = [x.arg for x in a.posonlyargs + a.args][1 if bound else 0:]
        if len(call.args) > len(ps) and a.vararg is None: return False
        kws = {k.arg for k in call.keywords}
        if not a.kwarg and kws - set(ps) - {x.arg for x in a.kwonlyargs}: return False
        need = ps[len(call.args):max(0, len(ps) - len(a.defaults))]
        return not [p for p in need if p not in kws]
    def types(self, e, func, deep=0):
        "the classes an expression's value can have, or an empty set"
        if deep > 4: return set()
        if isinstance(e, ast.Name):
            if e.id == "self" and func.cls is not None: return {func.cls}
            if self.assigned(func, e.id):
                if e.id in func.params(): return set()
                vals = [x.value for x in ast.walk(func.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
                loops = [x for x in ast.walk(func.node) if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == e.id and isinstance(x.iter, (ast.Tuple, ast.List))]
                stores = sum(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(func.node))
                if stores != len(vals) + len(loops): return set()
                out = set(); vals += [y for x in loops for y in x.iter.elts]
                for v in vals:
                    if isinstance(v, ast.Constant) and v.value is None: continue
                    t = self.types(v, func, deep + 1)
                    if not t: return set()
                    out |= t
                return out
            r = func.module.resolve(e.id)
            if isinstance(r, tuple) and r[0] == "const" and isinstance(r[2], ast.Call):
                k = r[1].resolve_expr(r[2].func)
                if isinstance(k, Class): return {k}
            return self.globs.get((func.module.name, e.id), set())
        if isinstance(e, ast.Attribute):
            out = set()
            for cl in self.types(e.value, func, deep + 1):
                t = set()
                for k in [cl] + [k for k in cl.mro() if isinstance(k, Class)]: t |= self.fields.get((k.qual, e.attr), set())
                if not t: return set()
                out |= t
            if out: return out
            r = func.module.resolve_expr(e.value)
            return self.globs.get((r.name, e.attr), set()) if isinstance(r, Module) else set()
        if isinstance(e, ast.IfExp):
            a, b = self.types(e.body, func, deep + 1), self.types(e.orelse, func, deep + 1)
            return a | b if a and b else set()
        return set()
    def reference(self, e, func, env):
        "a function used as a value"
        if isinstance(e, ast.Name):
            if isinstance(env.get(e.id), Func): return [env[e.id]]
            r = func.module.resolve(e.id)
            return [r] if isinstance(r, Func) else [] if not isinstance(r, Class) else []
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and func.cls is not None:
                r = func.cls.find(e.attr); return [r] if r is not None else []
            r = func.module.resolve_expr(e)
            if isinstance(r, Func): return [r]
            if isinstance(r, (tuple, Class, Module)): return []
            if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" and func.cls is not None:
                for c in func.cls.mro()[1:]:
                    if isinstance(c, Class) and e.attr in c.methods: return [c.methods[e.attr]]
                return []
            base = func.module.resolve_expr(e.value) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if isinstance(base, tuple) and base[0] == "ext": return []
            t = self.types(e.value, func)
            if t: return [m for m in (k.find(e.attr) for k in t) if m is not None]
            home = ".".join(func.module.name.split(".")[:3])
            near = [f for f in self.methods.get(e.attr, []) if f.module.name.startswith((home + ".", "mqtt.formats."))] if home.startswith("mqtt.brokers.") else []
            return near or list(self.methods.get(e.attr, []))
        return []
    def callees(self, call, func, env):
        "-> (functions, known)"
        e = call.func
        if isinstance(e, ast.Name):
            if isinstance(env.get(e.id), Func): return [env[e.id]], True
            nested = [x for x in ast.walk(func.node) if isinstance(x, ast.FunctionDef) and x.name == e.id and x is not func.node]
            if nested: return [Func(func.module, nested[0], func.cls, func)], True
            if not self.assigned(func, e.id):
                r = func.module.resolve(e.id)
                if isinstance(r, Func): return [r], True
                if isinstance(r, Class):
                    i = r.find("__init__"); return ([i] if i is not None else []), True
                if r is not None or hasattr(__builtins__, e.id) or (isinstance(__builtins__, dict) and e.id in __builtins__): return [], False
                if e.id in QUIET: return [], False
            return [f for f in self.values.get(func.module.name, []) if self.fits(f, call, False)], False
        if isinstance(e, ast.Attribute):
            r = func.module.resolve_expr(e)
            if isinstance(r, Class):
                i = r.find("__init__"); return ([i] if i is not None else []), True
            fs = self.reference(e, func, env)
            mod = func.module.resolve_expr(e.value) if isinstance(e.value, (ast.Name, ast.Attribute)) else None
            if isinstance(mod, Class): return fs, True
            return [f for f in fs if self.fits(f, call, f.cls is not None)], bool(fs) and isinstance(e.value, ast.Name) and e.value.id == "self"
        if isinstance(e, ast.Lambda): return [], True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            r = func.module.resolve_expr(e.args[0])
            if isinstance(r, tuple) and r[0] == "ext": return [], False
            t = self.types(e.args[0], func)
            if t: return [m for k in t for m in k.methods.values() if self.fits(m, call, True)], False
        return [f for f in self.values.get(func.module.name, []) if self.fits(f, call, False)], False
    # --- functions
    def call(self, func, depth, env=(), way=()):
        "-> (depths on return, depths on exception)"
        self.seen.add(func)
        deco = [d for d in getattr(func.node, "decorator_list", []) if not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"))]
        key = (func.module.name, func.node.lineno, func.short, depth, tuple(sorted((k, v if isinstance(v, str) else v.qual) for k, v in env)))
        if key in self.memo: return self.memo[key]
        # a call of a function which is being analysed, at whatever depth: it leaves the lock as it found it if that analysis says so
        if key[:3] + key[4:] in self.busy: return frozenset([depth]), frozenset([depth])
        if depth > DEEP: raise AnalysisBroken("the lock is taken more than %d times at %s" % (DEEP, func.qual))
        self.busy[key[:3] + key[4:]] = 1
        way = way + (func.short,)
        if deco and ("%plain", func) not in env:
            r = func.module.resolve_expr(deco[0])
            inner = [x for x in ast.walk(r.node) if isinstance(x, ast.FunctionDef) and x is not r.node] if isinstance(r, Func) else []
            if not inner: raise AnalysisBroken("the decorator of %s is not understood" % func.qual)
            o = self.body(inner[0].body, frozenset([depth]), Func(r.module, inner[0], func.cls, r), {r.params()[0]: Func(func.module, strip(func.node), func.cls, func.outer)}, way)
        else:
            o = self.body(func.node.body, frozenset([depth]), func, dict(env), way)
        del self.busy[key[:3] + key[4:]]
        self.memo[key] = (o.fall | o.ret, o.exc)
        return self.memo[key]
    def body(self, stmts, S, func, env, way):
        out = Out(S)
        for s in stmts:
            if not out.fall: break
            o = self.stmt(s, out.fall, func, env, way)
            out.fall = frozenset(); out.add(o)
        return out
    def loop(self, S, once):
        "fixpoint of a loop; once(S) -> Out of one round"
        out, head = Out(), frozenset(S)
        for _ in range(DEEP + 3):
            o = once(head)
            new = head | o.fall | o.cont
            out.ret |= o.ret; out.exc |= o.exc; out.fall |= o.brk
            if new == head: break
            head = new
            if max(head) > DEEP: break
        return out, head
    def known(self, test, func, env):
        "the truth of a test of the lock itself"
        if self.is_lock(test, func, env): return True
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            k = self.known(test.operand, func, env); return None if k is None else not k
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None and self.is_lock(test.left, func, env):
            return isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
        if isinstance(test, ast.Constant): return bool(test.value)
        return None
    def stmt(self, s, S, func, env, way):
        out = Out()
        def ev(e, S):
            if e is None: return S
            return self.expr(e, S, out, func, env, way)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)): out.fall = S
        elif isinstance(s, ast.Return): out.ret |= ev(s.value, S)
        elif isinstance(s, ast.Raise): S = ev(s.exc, S); out.exc |= S
        elif isinstance(s, ast.Break): out.brk = S
        elif isinstance(s, ast.Continue): out.cont = S
        elif isinstance(s, ast.Assert): S = ev(s.test, S); out.exc |= S; out.fall = S
        elif isinstance(s, ast.If):
            S = ev(s.test, S); k = self.known(s.test, func, env)
            if k is not False: out.add(self.body(s.body, S, func, env, way))
            if k is not True: out.add(self.body(s.orelse, S, func, env, way))
        elif isinstance(s, ast.While):
            def once(H):
                o = Out(); T = self.expr(s.test, H, o, func, env, way); o.exc |= frozenset()
                o.add(self.body(s.body, T, func, env, way)); return o
            o, head = self.loop(S, once)
            k = self.known(s.test, func, env)
            out.ret |= o.ret; out.exc |= o.exc
            if k is not True: out.add(self.body(s.orelse, head, func, env, way))
            out.fall |= o.fall
        elif isinstance(s, ast.For):
            S = ev(s.iter, S)
            if not quiet(s.iter): out.exc |= S
            def once(H):
                self.target(s.target, H, func, way)
                return self.body(s.body, H, func, env, way)
            # what is iterated over is used at every round
            def again(H):
                self.reads(s.iter, H, func, way); return once(H)
            o, head = self.loop(S, again)
            out.ret |= o.ret; out.exc |= o.exc
            out.add(self.body(s.orelse, head, func, env, way)); out.fall |= o.fall
        elif isinstance(s, (ast.With,)):
            held = []
            def go(items, S):
                if not items: return self.body(s.body, S, func, env, way)
                o = Out(); it = items[0]
                if self.is_lock(it.context_expr, func, env):
                    self.took(S, func, it.context_expr)
                    i = go(items[1:], frozenset(min(d + 1, DEEP) for d in S))
                    low = lambda T: frozenset(self.minus(d, func, it.context_expr) for d in T)
                    o.fall, o.ret, o.exc, o.brk, o.cont = low(i.fall), low(i.ret), low(i.exc), low(i.brk), low(i.cont)
                    return o
                T = self.expr(it.context_expr, S, o, func, env, way)
                if isinstance(it.context_expr, ast.Call):
                    for f in self.callees(it.context_expr, func, env)[0]:
                        if any("contextmanager" in ast.unparse(d) for d in f.node.decorator_list): raise AnalysisBroken("the context manager %s is not understood" % f.qual)
                o.add(go(items[1:], T)); return o
            out.add(go(s.items, S))
        elif isinstance(s, (ast.Try,)):
            b = self.body(s.body, S, func, env, way)
            e = Out(b.fall)
            r = Out(); r.add(b, fall=False)
            if s.orelse and b.fall:
                e = self.body(s.orelse, b.fall, func, env, way); r.add(e, fall=False)
                eexc = e.exc
            else: eexc = frozenset()
            caught = b.exc
            r.exc = eexc
            r.fall = e.fall
            everything = False
            for h in s.handlers:
                names = [] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if caught: r.add(self.body(h.body, caught, func, env, way))
                if h.type is None or "BaseException" in names or "Exception" in names: everything = True; break
            if not everything: r.exc |= caught
            if s.finalbody:
                f = Out()
                for kind in ("fall", "ret", "exc", "brk", "cont"):
                    T = getattr(r, kind)
                    if not T: continue
                    x = self.body(s.finalbody, T, func, env, way)
                    setattr(f, kind, getattr(f, kind) | x.fall)
                    f.ret |= x.ret; f.exc |= x.exc; f.brk |= x.brk; f.cont |= x.cont
                r = f
            out.add(r)
        elif isinstance(s, ast.Assign):
            S = ev(s.value, S)
            for t in s.targets:
                if any(isinstance(x, ast.Subscript) for x in ast.walk(t)): out.exc |= S
                self.target(t, S, func, way); S = self.indices(t, S, out, func, env, way)
            if isinstance(s.targets[0], ast.Tuple) and not quiet(s.value): out.exc |= S
            out.fall = S
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            S = ev(s.value, S); self.target(s.target, S, func, way); S = self.indices(s.target, S, out, func, env, way)
            if isinstance(s.target, ast.Subscript): out.exc |= S
            out.fall = S
        elif isinstance(s, ast.Delete):
            out.exc |= S
            for t in s.targets: self.target(t, S, func, way); S = self.indices(t, S, out, func, env, way)
            out.fall = S
        elif isinstance(s, ast.Expr): out.fall = ev(s.value, S)
        else: raise AnalysisBroken("%s at %s:%d is not understood" % (type(s).__name__, func.qual, s.lineno))
        return out
    def indices(self, t, S, out, func, env, way):
        if isinstance(t, ast.Subscript): S = self.expr(t.value, S, out, func, env, way); return self.expr(t.slice, S, out, func, env, way)
        if isinstance(t, ast.Attribute): return self.expr(t.value, S, out, func, env, way)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: S = self.indices(x, S, out, func, env, way)
        return S
    def target(self, t, S, func, way): self.reads(t, S, func, way)
    def took(self, S, func, node):
        self.nested += [(func, node) for d in S if d > 0]
    def minus(self, d, func, node):
        if d == 0: self.faults[(func.qual, node.lineno)] = "%s (line %d): the lock is released although it is not held" % (func.short, node.lineno)
        return max(0, d - 1)
    def reads(self, e, S, func, way):
        "accesses to guarded state in one expression (not in what it calls)"
        locs = self.locals_of(func)[1]
        for x in ast.walk(e):
            a = self.attr(x, func) if isinstance(x, (ast.Attribute, ast.Name)) else None
            if a is None and isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in locs: a = "what %s stands for" % x.id
            if a is None: continue
            if func.node.name == "__init__" and isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self": continue
            k = (func.qual, a, x.lineno, x.col_offset)
            old = self.accesses.get(k)
            if old is None or (0 in S and not old.free): self.accesses[k] = Access(a, func, x, 0 in S, way)
    def expr(self, e, S, out, func, env, way):
        "evaluates calls in order; S after it"
        if isinstance(e, (ast.Lambda, ast.Constant)): return S
        if isinstance(e, ast.IfExp):
            S = self.expr(e.test, S, out, func, env, way)
            return self.expr(e.body, S, out, func, env, way) | self.expr(e.orelse, S, out, func, env, way)
        if isinstance(e, ast.BoolOp):
            S = self.expr(e.values[0], S, out, func, env, way); R = S
            for v in e.values[1:]: S = self.expr(v, S, out, func, env, way); R |= S
            return R
        if isinstance(e, (ast.Attribute, ast.Name)):
            a = e
            locs = self.locals_of(func)[1]
            if self.attr(e, func) or (isinstance(e, ast.Name) and e.id in locs): self.one(e, S, func, way)
            return self.expr(e.value, S, out, func, env, way) if isinstance(e, ast.Attribute) else S
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and self.is_lock(f.value, func, env):
                if f.attr in ("acquire", "__enter__"):
                    self.took(S, func, e)
                    maybe = any(isinstance(x, ast.Constant) and x.value in (False,) or not isinstance(x, ast.Constant) for x in e.args) or len(e.args) > 1 or any(k.arg == "timeout" or not (isinstance(k.value, ast.Constant) and k.value.value is True) for k in e.keywords)
                    T = frozenset(min(d + 1, DEEP) for d in S)      # more than that is too often, however often it is
                    return T | S if maybe else T
                if f.attr in ("release", "__exit__"): return frozenset(self.minus(d, func, e) for d in S)
                return S
            if isinstance(f, ast.Attribute): S = self.expr(f.value, S, out, func, env, way)
            elif not isinstance(f, ast.Name): S = self.expr(f, S, out, func, env, way)
            for a in e.args: S = self.expr(a.value if isinstance(a, ast.Starred) else a, S, out, func, env, way)
            for k in e.keywords: S = self.expr(k.value, S, out, func, env, way)
            fs, known = self.callees(e, func, env)
            fs = [x for x in fs if x not in self.setup]
            if not fs:
                if not quiet(e, deep=False): out.exc |= S
                return S
            R = S if not known else frozenset()
            for g in fs:
                ps = g.params()[1 if g.cls is not None and g.params()[:1] == ["self"] else 0:]
                sub = []
                for p, a in list(zip(ps, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
                    if self.is_lock(a, func, env): sub.append((p, "lock"))
                    elif isinstance(a, (ast.Name, ast.Attribute)):
                        r = self.reference(a, func, env)
                        if len(r) == 1 and (isinstance(a, ast.Name) or isinstance(a.value, ast.Name) and a.value.id == "self"): sub.append((p, r[0]))
                if g.outer is not None and g.outer is func: sub = list(env.items()) + sub
                for d in S:
                    r, x = self.call(g, d, tuple(sub), way)
                    R |= r; out.exc |= x
            if not known: out.exc |= S
            return R
        if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load): 
            S = self.expr(e.value, S, out, func, env, way); S = self.expr(e.slice, S, out, func, env, way)
            out.exc |= S; return S
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                S = self.expr(g.iter, S, out, func, env, way)
                for i in g.ifs: S = self.expr(i, S, out, func, env, way)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]): S = self.expr(x, S, out, func, env, way)
            return S
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr): S = self.expr(x, S, out, func, env, way)
        return S
    def one(self, x, S, func, way):
        a = self.attr(x, func) or "what %s stands for" % x.id
        if func.node.name == "__init__" and isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self": return
        k = (func.qual, a, x.lineno, x.col_offset)
        old = self.accesses.get(k)
        if old is None or (0 in S and not old.free): self.accesses[k] = Access(a, func, x, 0 in S, way)

def strip(node):
    import copy
    n = copy.copy(node); n.decorator_list = []
    return n

def quiet(e, deep=True):
    "an expression which raises nothing worth considering"
    for x in ast.walk(e) if deep else [e]:
        if isinstance(x, ast.Call):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if n not in QUIET: return False
        elif isinstance(x, ast.Subscript): return False
    return True
