"""Constant propagation through whole functions: tables, names and numbers are folded, everything else stays unknown.

A value is a Python constant, a container of values, an Obj (an instance whose attributes are known), bytes whose
single bytes may be unknown (Bytes), or a Sym: an unknown with the term it was computed by. Where a branch depends on
an unknown, both ways are followed (a way is a list of answers to the questions met, in order); `oracle` may fix the
answer to a question. What is not understood ends the analysis with Unclear and leaves the obligation undecided."""
import ast, builtins, threading
from .project import Module, Class, Func, AnalysisBroken

class Unclear(AnalysisBroken): pass
class Lost(Unclear): "a way on which too many unknown conditions were met"
class Endless(Exception): "the code goes round for ever"
class Raised(Exception):
    def __init__(self, exc): self.exc = exc
    @property
    def name(self): return self.exc.cls.name if isinstance(self.exc, Obj) else type(self.exc).__name__ if isinstance(self.exc, BaseException) else str(self.exc)
class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
class _More(Exception):
    "an unknown condition met for the first time on this way"

class Sym:
    "unknown value: term is a tuple (operator, operands…); kind is a Python type or None; size: length if known"
    __slots__ = ("term", "kind", "size")
    def __init__(self, term, kind=None, size=None): self.term, self.kind, self.size = term, kind, size
    def __eq__(self, o): return isinstance(o, Sym) and self.term == o.term
    def __hash__(self): return hash(self.term)
    def __repr__(self): return show(self.term)
class Bytes:
    "bytes of known length, each an int or a Sym"
    __slots__ = ("cells",)
    def __init__(self, cells): self.cells = tuple(cells)
    def __eq__(self, o): return isinstance(o, (Bytes, bytes)) and self.cells == tuple(o.cells if isinstance(o, Bytes) else o)
    def __hash__(self): return hash(self.cells)
    def __repr__(self): return "<%s>" % " ".join("%02x" % c if isinstance(c, int) else repr(c) for c in self.cells)
class BA(Bytes):
    "a bytearray"
    __slots__ = ()
    def __init__(self, cells=()): self.cells = list(cells)
    __hash__ = None
    def __eq__(self, o): return isinstance(o, (Bytes, bytes)) and tuple(self.cells) == tuple(o.cells if isinstance(o, Bytes) else o)
class Model:
    "a stand-in for something outside the repository: methods are Python functions (fold, args, kw)"
    def __init__(self, name, **attrs): self.name, self.attrs = name, attrs
    def __repr__(self): return self.name
class ModelCall:
    def __init__(self, f, name): self.f, self.name = f, name
class Obj:
    n = 0
    def __init__(self, cls): self.cls, self.attrs = cls, {}; Obj.n += 1; self.id = Obj.n
    def __repr__(self): return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % kv for kv in list(self.attrs.items())[:6]))
class Fn:
    def __init__(self, func, env=None, defaults=None, kwdefaults=None): self.func, self.env, self.defaults, self.kwdefaults = func, env, defaults, kwdefaults
class Bound:
    def __init__(self, fn, this): self.fn, self.this = fn, this
class Native:
    "a method of a built-in value"
    def __init__(self, this, name): self.this, self.name = this, name
class Ext:
    "something from outside the repository"
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Ext) and self.name == o.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return self.name
class Super:
    def __init__(self, cls, this): self.cls, self.this = cls, this
class Mod:
    def __init__(self, m): self.m = m
class Iter:
    def __init__(self, items): self.items, self.pos = items, 0

def show(t):
    if isinstance(t, Sym): t = t.term
    if isinstance(t, tuple) and t and isinstance(t[0], str): return t[0] if len(t) == 1 else "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))
    if isinstance(t, Func): return t.short
    return repr(t)[:60]

def deps(v, out=None):
    "the basic unknowns a value depends on"
    out = set() if out is None else out
    if isinstance(v, Sym): deps(v.term, out)
    elif isinstance(v, Bytes):
        for c in v.cells: deps(c, out)
    elif isinstance(v, Obj):
        for x in v.attrs.values(): deps(x, out)
    elif isinstance(v, dict):
        for k, x in v.items(): deps(k, out); deps(x, out)
    elif isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith("$"): out.add(v)
    elif isinstance(v, (tuple, list, set, frozenset)):
        for x in v: deps(x, out)
    return out

def value(t, env):
    "the value of a term when the basic unknowns have those of env; Unclear if the term has another operator"
    if isinstance(t, Sym): t = t.term
    if not isinstance(t, tuple): return t
    if t in env: return env[t]
    op = t[0]
    if op in FOLD and len(t) == 3: return FOLD[op](value(t[1], env), value(t[2], env))
    if op == "not": return not value(t[1], env)
    if op == "==": return value(t[1], env) == value(t[2], env)
    if op == "<": return value(t[1], env) < value(t[2], env)
    if op == "in" and len(t) == 3 and isinstance(t[2], tuple) and t[2][:1] in (("list",), ("tuple",), ("set",)): return value(t[1], env) in [value(x, env) for x in t[2][1:]]
    if op == "byte": return (value(t[1], env) >> 8 * t[2]) & 255
    if op == "bool": return bool(value(t[1], env))
    if op == "int": return int(value(t[1], env))
    if op in ("neg", "pos", "inv"): v = value(t[1], env); return -v if op == "neg" else +v if op == "pos" else ~v
    raise Unclear("value of %s" % show(t)[:80])

TYPES = {"int": int, "str": str, "bytes": bytes, "bytearray": bytearray, "list": list, "dict": dict, "tuple": tuple, "set": set, "frozenset": frozenset, "bool": bool, "float": float, "object": object, "type": type}
CONST = (int, str, bytes, bool, float, type(None), complex)
def plain(v):
    "is it a value of Python itself, nothing unknown in it"
    if isinstance(v, CONST): return True
    if isinstance(v, (list, tuple, set, frozenset)): return all(plain(x) for x in v)
    if isinstance(v, dict): return all(plain(k) and plain(x) for k, x in v.items())
    return isinstance(v, (range,))
def pytype(v):
    if isinstance(v, Sym): return v.kind
    if isinstance(v, BA): return bytearray
    if isinstance(v, Bytes): return bytes
    if isinstance(v, Model): return v
    if isinstance(v, Obj): return v.cls
    if isinstance(v, (Class,)): return type
    if isinstance(v, Iter): return Iter
    return type(v)
def norm(b):
    "Bytes without unknown cells is bytes"
    if type(b) is Bytes and all(isinstance(c, int) for c in b.cells): return bytes(b.cells)
    return b
def cells(v): return tuple(v.cells) if isinstance(v, Bytes) else tuple(v)
def joined(like, cs): return BA(cs) if isinstance(like, BA) else norm(Bytes(cs))

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.Pow: "**"}
import operator as _o
FOLD = {"+": _o.add, "-": _o.sub, "*": _o.mul, "/": _o.truediv, "//": _o.floordiv, "%": _o.mod, "&": _o.and_, "|": _o.or_, "^": _o.xor, "<<": _o.lshift, ">>": _o.rshift, "**": _o.pow,
        "==": _o.eq, "!=": _o.ne, "<": _o.lt, "<=": _o.le, ">": _o.gt, ">=": _o.ge}
NATIVE = {str: {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "split", "rsplit", "join", "find", "rfind", "index", "count", "startswith", "endswith", "isdigit", "encode", "format", "partition", "rpartition", "swapcase", "zfill", "isalnum", "splitlines", "removeprefix", "removesuffix", "translate", "casefold", "isspace"},
          bytes: {"decode", "find", "index", "count", "startswith", "endswith", "join", "hex", "replace", "split", "strip"},
          list: {"append", "extend", "insert", "remove", "pop", "index", "count", "clear", "copy", "reverse", "sort"},
          dict: {"get", "keys", "values", "items", "pop", "setdefault", "update", "copy", "clear", "popitem"},
          tuple: {"index", "count"}, set: {"add", "discard", "remove", "union", "intersection", "difference", "copy", "update", "issubset", "issuperset", "clear", "pop"}, frozenset: {"union", "intersection", "difference"},
          int: {"to_bytes", "bit_length"}, bool: set(), float: {"is_integer"}, bytearray: {"append", "extend", "decode"}}

class Fold:
    def __init__(self, project, oracle=None, stubs=None, most=400, steps=400000, asks=60):
        self.P, self.oracle, self.stubs = project, oracle, dict(stubs or {})
        self.most, self.limit, self.depthmost = most, steps, asks
        self.functions, self.npaths, self.nstates = set(), 0, 0

    # ---- ways -----------------------------------------------------------------------------------------------
    def run(self, what):
        """[(value or Raised, [(term, answer)], fold)] of every way; `what(fold)` may call .call/.new/.getattr…"""
        out, work = [], [()]
        while work:
            pre = work.pop(0)
            self.answers, self.facts, self.asked = list(pre), {}, []
            self.memo, self.classenv, self.calls, self.steps, self.depth = {}, {}, [], 0, 0
            Obj.n = 0
            try: v = what(self)
            except Raised as e: v = e
            except (Lost, Endless) as e: v = e
            for i in range(len(pre), len(self.asked)):
                work.append(tuple(a for _, a in self.asked[:i]) + (not self.asked[i][1],))
            out.append((v, list(self.asked), list(self.calls)))
            self.npaths += 1; self.nstates += self.steps
            if len(out) > self.most and work: out.append((Lost("more than %d ways" % self.most), [], [])); break
        return out
    def truth(self, v):
        if isinstance(v, Sym):
            neg, t = False, v.term
            while t[0] == "not": neg, t = not neg, t[1]
            if t[0] == "!=": neg, t = not neg, ("==",) + t[1:]
            if t[0] == "notin": neg, t = not neg, ("in",) + t[1:]
            if t in self.facts: return self.facts[t] != neg
            if self.oracle is not None:
                a = self.oracle(t)
                if a is not None: self.facts[t] = a; return a != neg
            if len(self.asked) >= self.depthmost: raise Lost("too many unknown conditions")
            a = self.answers[len(self.asked)] if len(self.asked) < len(self.answers) else True
            self.asked.append((t, a)); self.facts[t] = a
            return a != neg
        if isinstance(v, Bytes): return len(v.cells) > 0
        if isinstance(v, Obj):
            f = v.cls.find("__bool__") or v.cls.find("__len__")
            return self.truth(self.apply(Bound(Fn(f), v), [], {})) if f else True
        if isinstance(v, (Class, Fn, Bound, Ext, Mod, Native, Iter, Model, ModelCall)): return True
        return bool(v)

    def choose(self, what, options):
        "one of the options, on each way another"
        for i, o in enumerate(options[:-1]):
            if self.truth(Sym(("$choice", what, i, len(self.asked)), bool)): return o
        return options[-1]

    # ---- names ----------------------------------------------------------------------------------------------
    def of(self, r, m=None, name=None):
        if isinstance(r, Func): return Fn(r)
        if isinstance(r, Class): return r
        if isinstance(r, Module): return Mod(r)
        if isinstance(r, tuple) and r[0] == "ext":
            if r[1].startswith("builtins."): return self.builtin(r[1][9:])
            return Ext(r[1])
        if isinstance(r, tuple) and r[0] == "const":
            key = (r[1].name, name if name is not None else id(r[2]))
            if key not in self.memo:
                if isinstance(r[2], tuple):
                    if r[2][0] == "unpack":
                        v = self.ev(r[2][1], [{}, r[1]])
                        self.memo[key] = self.items(v)[r[2][2]]
                    else: raise Unclear("module level %s" % (name,))
                else: self.memo[key] = self.ev(r[2], [{}, r[1]])
            return self.memo[key]
        return _none
    def lookup(self, name, env):
        for e in env[:-1]:
            if name in e: return e[name]
        m = env[-1]
        if ("%glob", m.name, name) in self.memo: return self.memo[("%glob", m.name, name)]
        r = m.resolve(name)
        if r is not None:
            own = r[1] if isinstance(r, tuple) and r[0] == "const" else m
            v = self.of(r, own, name)
            if v is not _none: return v
        b = self.builtin(name)
        if b is not None: return b
        raise Raised(NameError(name))
    def builtin(self, name):
        if name in TYPES: return TYPES[name]
        if name in ("True", "False", "None"): return {"True": True, "False": False, "None": None}[name]
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            if isinstance(b, type) and issubclass(b, BaseException): return b
            return Ext("builtins." + name)
        return Ext("module." + name) if name in ("__name__", "__file__") else None

    # ---- statements -----------------------------------------------------------------------------------------
    def body(self, stmts, env):
        for s in stmts: self.stmt(s, env)
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.limit: raise Unclear("the analysis does not come to an end")
        getattr(self, "s_" + type(s).__name__, self.unknown)(s, env)
    def unknown(self, s, env): raise Unclear("%s at line %s is not understood" % (type(s).__name__, getattr(s, "lineno", "?")))
    def s_Pass(self, s, env): pass
    def s_Import(self, s, env):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            m = self.P.modules.get(a.name if a.asname else n)
            env[0][n] = Mod(m) if m is not None else Ext(a.name if a.asname else n)
    def s_ImportFrom(self, s, env):
        for a in s.names:
            base = env[-1]._relbase(s); m = self.P.modules.get(base)
            r = m.resolve(a.name) if m is not None else None
            sub = self.P.modules.get(base + "." + a.name)
            env[0][a.asname or a.name] = self.of(r, m, a.name) if r is not None else Mod(sub) if sub is not None else Ext(base + "." + a.name)
    def s_Global(self, s, env): env[0].setdefault("%globals", set()).update(s.names)
    def s_Nonlocal(self, s, env): env[0].setdefault("%nonlocals", set()).update(s.names)
    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_FunctionDef(self, s, env):
        f = Func(env[-1], s, None, None)
        env[0][s.name] = Fn(f, env, [self.ev(d, env) for d in s.args.defaults], [self.ev(d, env) if d is not None else None for d in s.args.kw_defaults])
    def s_ClassDef(self, s, env): env[0][s.name] = Class(env[-1], s)
    def s_Return(self, s, env): raise _Return(self.ev(s.value, env) if s.value is not None else None)
    def s_Break(self, s, env): raise _Break()
    def s_Continue(self, s, env): raise _Continue()
    def s_Raise(self, s, env):
        if s.exc is None: raise env[0].get("%exc") or Raised(RuntimeError("no exception"))
        v = self.ev(s.exc, env)
        if isinstance(v, (Class, type)): v = self.apply(v, [], {})
        if not isinstance(v, (Obj, BaseException)): v = TypeError("exceptions must derive from BaseException")
        raise Raised(v)
    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise Raised(AssertionError())
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env[0].pop(t.id, None)
            elif isinstance(t, ast.Attribute): self.delattr(self.ev(t.value, env), t.attr)
            else:
                b, k = self.ev(t.value, env), self.key(t.slice, env)
                try: del (b.cells if isinstance(b, BA) else b)[k]
                except (KeyError, IndexError, TypeError) as e: raise Raised(e)
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        t, v = s.target, None
        if isinstance(t, ast.Name):
            a = self.lookup(t.id, env)
            b = self.ev(s.value, env)
            v = self.inplace(s.op, a, b)
            self.assign(t, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env); a = self.getattr(o, t.attr); b = self.ev(s.value, env)
            v = self.inplace(s.op, a, b)
            self.setattr(o, t.attr, v)
        else:
            o, k = self.ev(t.value, env), self.key(t.slice, env)
            self.setitem(o, k, self.inplace(s.op, self.getitem(o, k), self.ev(s.value, env)))
    def inplace(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, list): a.extend(self.items(b)); return a
        if isinstance(op, ast.Add) and isinstance(a, BA) and isinstance(b, (bytes, Bytes)): a.cells.extend(cells(b)); return a
        return self.binop(OPS.get(type(op), "?"), a, b)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env[0].get("%globals", ()): self.memo[("%glob", env[-1].name, t.id)] = v
            elif t.id in env[0].get("%nonlocals", ()):
                for e in env[1:-1]:
                    if t.id in e: e[t.id] = v; return
            else: env[0][t.id] = v
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.key(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Sym): vs = [self.getitem(v, i) for i in range(len(t.elts))]
            else: vs = self.items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]; j = len(vs) - (len(t.elts) - i - 1)
                vs = vs[:i] + [list(vs[i:j])] + vs[j:]
            if len(vs) != len(t.elts): raise Raised(ValueError("unpack"))
            for e, x in zip(t.elts, vs): self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        else: raise Unclear("assignment to %s" % ast.unparse(t))
    def s_If(self, s, env): self.body(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
    def s_While(self, s, env):
        while self.truth(self.ev(s.test, env)):
            try: self.body(s.body, env)
            except _Break: return
            except _Continue: pass
            self.steps += 1
        self.body(s.orelse, env)
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        # the container is gone through as it is now: a list that changes meanwhile is followed
        if isinstance(it, list):
            i = 0
            while i < len(it):
                x = it[i]; i += 1
                self.assign(s.target, x, env)
                try: self.body(s.body, env)
                except _Break: return
                except _Continue: pass
        else:
            for x in self.items(it):
                self.assign(s.target, x, env)
                try: self.body(s.body, env)
                except _Break: return
                except _Continue: pass
        self.body(s.orelse, env)
    def s_With(self, s, env):
        self.with_(s.items, s.body, env)
    def with_(self, items, body, env):
        if not items: return self.body(body, env)
        i = items[0]
        m = v = self.ev(i.context_expr, env)
        known = isinstance(m, Obj) and m.cls.find("__enter__") or isinstance(m, Model) and "__enter__" in m.attrs
        if known: v = self.apply(self.getattr(m, "__enter__"), [], {})
        elif isinstance(m, Model) and m.name == "closing": v = m.attrs["thing"]
        if i.optional_vars is not None: self.assign(i.optional_vars, v, env)
        def leave(e):
            if known:
                x = e.exc if e is not None else None
                return self.truth(self.apply(self.getattr(m, "__exit__"), [self.type_(x) if x is not None else None, x, None], {}))
            if isinstance(m, Model) and m.name == "closing": self.apply(self.getattr(v, "close"), [], {})
        try: self.with_(items[1:], body, env)
        except Raised as e:
            if not leave(e): raise
        except (_Return, _Break, _Continue): leave(None); raise
        else: leave(None)
    def type_(self, x): return x.cls if isinstance(x, Obj) else type(x)
    def s_Try(self, s, env):
        try:
            try: self.body(s.body, env)
            except Raised as e:
                for h in s.handlers:
                    if self.handles(h.type, e, env):
                        saved = env[0].get("%exc"); env[0]["%exc"] = e
                        if h.name: env[0][h.name] = e.exc
                        self.body(h.body, env); env[0]["%exc"] = saved
                        break
                else: raise
            else: self.body(s.orelse, env)
        finally:
            if s.finalbody: self.body(s.finalbody, env)
    def handles(self, t, e, env):
        if t is None: return True
        v = self.ev(t, env)
        for k in (v if isinstance(v, tuple) else (v,)):
            if self.isinst(e.exc, k) is True: return True
        return False
    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))): self.body(c.body, env); return
    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue): return self.truth(self.compare("==", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.compare("is", v, p.value))
        if isinstance(p, ast.MatchOr): return any(self.matches(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env): return False
            if p.name: env[0][p.name] = v
            return True
        raise Unclear("match pattern")

    # ---- attributes and items ----------------------------------------------------------------------------------
    def classattr(self, c, name, default=None):
        for k in c.mro():
            if not isinstance(k, Class): continue
            if name in k.methods: return k.methods[name]
            env = self.class_env(k)
            if name in env: return env[name]
        return default
    def class_env(self, k):
        if k.qual not in self.classenv:
            env = self.classenv[k.qual] = {}
            for s in k.node.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.If, ast.Expr)):
                    self.stmt(s, [env, k.module])
        return self.classenv[k.qual]
    def getattr(self, b, n, default=KeyError):
        if isinstance(b, Obj):
            if n in b.attrs: return b.attrs[n]
            if n == "__class__": return b.cls
            if n == "__dict__": return b.attrs
            if n == "__getattribute__": return Native(b, "__getattribute__")
            f = self.classattr(b.cls, n, _none)
            if isinstance(f, Func):
                d = [x.id for x in f.node.decorator_list if isinstance(x, ast.Name)]
                if "staticmethod" in d: return Fn(f)
                if "classmethod" in d: return Bound(Fn(f), b.cls)
                if "property" in d: return self.apply(Bound(Fn(f), b), [], {})
                return Bound(Fn(f), b)
            if f is not _none: return f
            g = b.cls.find("__getattr__")
            if g is not None and n != "__getattr__": return self.apply(Bound(Fn(g), b), [n], {})
            if ("ext", "threading.Thread") in b.cls.mro() and hasattr(threading.Thread, n): return Ext("threading.Thread." + n)
        elif isinstance(b, Class):
            if n == "__name__": return b.name
            f = self.classattr(b, n, _none)
            if isinstance(f, Func):
                d = [x.id for x in f.node.decorator_list if isinstance(x, ast.Name)]
                return Bound(Fn(f), b) if "classmethod" in d else Fn(f)
            if f is not _none: return f
        elif isinstance(b, Mod):
            if ("%glob", b.m.name, n) in self.memo: return self.memo[("%glob", b.m.name, n)]
            r = b.m.resolve(n)
            if r is not None: return self.of(r, b.m, n)
        elif isinstance(b, Ext): return Ext(b.name + "." + n)
        elif isinstance(b, Model):
            if n in b.attrs: return ModelCall(b.attrs[n], b.name + "." + n) if callable(b.attrs[n]) and not isinstance(b.attrs[n], (type, Class, Obj)) else b.attrs[n]
            if default is not KeyError: return default
            if "*" in b.attrs: return ModelCall(b.attrs["*"], b.name + "." + n)
        elif isinstance(b, Super):
            for k in b.cls.mro()[1:]:
                if isinstance(k, Class) and n in k.methods: return Bound(Fn(k.methods[n]), b.this)
            return Native(b.this, n)
        elif isinstance(b, type): return Native(b, n)
        elif isinstance(b, Sym): return Native(b, n)
        elif isinstance(b, (Bytes, Iter)): return Native(b, n)
        elif isinstance(b, BaseException) and n == "args": return b.args
        else:
            if n in NATIVE.get(type(b), ()): return Native(b, n)
            if isinstance(b, dict) and n == "has_key": pass
        if default is not KeyError: return default
        raise Raised(AttributeError(n))
    def setattr(self, b, n, v):
        if isinstance(b, Obj):
            f = b.cls.find("__setattr__")
            if f is not None: return self.apply(Bound(Fn(f), b), [n, v], {})
            b.attrs[n] = v
        elif isinstance(b, Class): self.class_env(b)[n] = v
        elif isinstance(b, Mod): self.memo[("%glob", b.m.name, n)] = v
        elif isinstance(b, Model): b.attrs[n] = v
        elif isinstance(b, (Ext, Sym)): self.calls.append(("setattr", b, n, v))
        else: raise Raised(AttributeError(n))
    def delattr(self, b, n):
        if isinstance(b, Obj) and n in b.attrs: del b.attrs[n]
        else: raise Raised(AttributeError(n))
    def key(self, s, env):
        if isinstance(s, ast.Slice): return slice(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)
    def getitem(self, b, k):
        if isinstance(b, Obj):
            f = b.cls.find("__getitem__")
            if f is None: raise Raised(TypeError("not subscriptable"))
            return self.apply(Bound(Fn(f), b), [k], {})
        if isinstance(k, slice):
            if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)): return Sym(("slice", self.term(b), self.term(k.start), self.term(k.stop)), pytype(b))
            if isinstance(b, Bytes): return joined(b, b.cells[k])
            if isinstance(b, Sym):
                return Sym(("slice", b.term, k.start, k.stop), b.kind)
            try: return b[k]
            except TypeError as e: raise Raised(e)
        if isinstance(b, Bytes):
            if isinstance(k, Sym): return Sym(("item", self.term(b), k.term), int)
            try: return b.cells[k]
            except IndexError as e: raise Raised(e)
        if isinstance(b, (Sym, Ext)): return Sym(("item", self.term(b), self.term(k)))
        if isinstance(b, dict):
            if isinstance(k, Sym) and k not in b:
                if all(not isinstance(x, Sym) for x in b):
                    # an unknown key: every entry, and none, are possible
                    for x in b:
                        if self.truth(self.compare("==", k, x)): return b[x]
                    raise Raised(KeyError(k))
                raise Unclear("unknown key")
            try: return b[k]
            except (KeyError, TypeError) as e: raise Raised(e)
        if isinstance(b, Iter): raise Raised(TypeError("iterator"))
        if isinstance(k, Sym): return Sym(("item", self.term(b), k.term))
        try: return b[k]
        except (IndexError, TypeError, KeyError) as e: raise Raised(e)
    def setitem(self, b, k, v):
        if isinstance(b, Obj) and b.cls.find("__setitem__"): self.apply(self.getattr(b, "__setitem__"), [k, v], {}); return
        if isinstance(b, (Sym, Ext)): self.calls.append(("setitem", b, k, v)); return
        if isinstance(b, BA): b = b.cells
        try: b[k] = v
        except (TypeError, IndexError) as e: raise Raised(e)
    def items(self, v):
        "what iterating gives"
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, dict): return list(v)
        if isinstance(v, (set, frozenset)): return sorted(v, key=repr)
        if isinstance(v, (str, bytes, range, bytearray)): return list(v)
        if isinstance(v, Bytes): return list(v.cells)
        if isinstance(v, Iter):
            r = v.items[v.pos:]; v.pos = len(v.items); return r
        if isinstance(v, Obj) and v.cls.find("__iter__"): return self.items(self.apply(self.getattr(v, "__iter__"), [], {}))
        if isinstance(v, Model) and "__iter__" in v.attrs: return self.items(v.attrs["__iter__"](self, [], {}))
        if isinstance(v, Sym) and v.kind is str: return [Sym(("char", v.term), str)] # one for all of them
        if isinstance(v, (Sym, Ext)): raise Unclear("iteration over the unknown %s" % show(self.term(v)))
        raise Raised(TypeError("not iterable"))
    def term(self, v):
        if isinstance(v, Sym): return v.term
        if isinstance(v, Bytes): return ("bytes",) + tuple(self.term(c) for c in v.cells)
        if isinstance(v, Obj): return ("obj", v.cls.name, v.id)
        if isinstance(v, Ext): return ("ext", v.name)
        if isinstance(v, (Model, ModelCall)): return ("model", v.name)
        if isinstance(v, (list, tuple)): return ("list" if isinstance(v, list) else "tuple",) + tuple(self.term(x) for x in v)
        if isinstance(v, dict): return ("dict",) + tuple((self.term(k), self.term(x)) for k, x in v.items())
        if isinstance(v, (set, frozenset)): return ("set",) + tuple(sorted((self.term(x) for x in v), key=repr))
        if isinstance(v, Class): return ("class", v.qual)
        if isinstance(v, (Fn, Bound, Native, Mod, Iter, Super)): return ("fn", id(v))
        return v

    # ---- expressions --------------------------------------------------------------------------------------------
    def ev(self, n, env):
        self.steps += 1
        if self.steps > self.limit: raise Unclear("the analysis does not come to an end")
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None: raise Unclear("%s at line %s is not understood" % (type(n).__name__, getattr(n, "lineno", "?")))
        return f(n, env)
    def e_Constant(self, n, env): return n.value
    def e_Name(self, n, env): return self.lookup(n.id, env)
    def e_Attribute(self, n, env):
        b = self.ev(n.value, env)
        return self.getattr(b, n.attr)
    def e_Subscript(self, n, env):
        b = self.ev(n.value, env); return self.getitem(b, self.key(n.slice, env))
    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred): out += self.items(self.ev(e.value, env))
            else: out.append(self.ev(e, env))
        return out
    def e_Tuple(self, n, env): return tuple(self.elts(n.elts, env))
    def e_List(self, n, env): return self.elts(n.elts, env)
    def e_Set(self, n, env): return set(self.elts(n.elts, env))
    def e_Dict(self, n, env):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None: out.update(self.ev(v, env))
            else: 
                kk = self.ev(k, env); out[kk] = self.ev(v, env)
        return out
    def e_JoinedStr(self, n, env):
        parts = [self.ev(v, env) for v in n.values]
        if all(isinstance(p, str) for p in parts): return "".join(parts)
        return Sym(("text",) + tuple(self.term(p) for p in parts), str)
    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        if plain(v) and n.conversion == -1:
            spec = self.ev(n.format_spec, env) if n.format_spec is not None else ""
            if isinstance(spec, str): return format(v, spec)
        return Sym(("text", self.term(v)), str)
    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Sym): return Sym(("not", v.term), bool)
            return not self.truth(v)
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(n.op)]
        if isinstance(v, Sym): return Sym((op, v.term), int)
        try: return {"neg": _o.neg, "pos": _o.pos, "inv": _o.inv}[op](v)
        except TypeError as e: raise Raised(e)
    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != isinstance(n.op, ast.And): return v
        return v
    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for op, c in zip(n.ops, n.comparators):
            b = self.ev(c, env)
            k = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}[type(op)]
            r = self.compare(k, a, b)
            if len(n.ops) > 1 and not self.truth(r): return False
            a = b
        return r
    def negate(self, r): return Sym(("not", r.term), bool) if isinstance(r, Sym) else not r
    def compare(self, op, a, b):
        if op == "!=": return self.negate(self.compare("==", a, b))
        if op == "notin": return self.negate(self.compare("in", a, b))
        if op == "isnot": return self.negate(self.compare("is", a, b))
        if op in ("==", "is"):
            if isinstance(a, Obj) and op == "==" and a is not b:
                f = a.cls.find("__eq__")
                if f is not None: return self.apply(Bound(Fn(f), a), [b], {})
            if isinstance(a, Obj) or isinstance(b, Obj): return a is b if not isinstance(a, Sym) and not isinstance(b, Sym) else False
            if isinstance(a, Sym) or isinstance(b, Sym):
                if isinstance(a, Sym) and isinstance(b, Sym) and a.term == b.term: return True
                if not isinstance(a, Sym): a, b = b, a
                ka, kb = a.kind, pytype(b)
                if ka is not None and kb is not None and ka is not kb and not ({ka, kb} <= {int, bool, float}) and not ({ka, kb} <= {bytes, bytearray}): return False
                if b is None: return False if ka is not None else Sym(("==", a.term, None), bool)
                if ka is str and a.size is not None and isinstance(b, str) and len(b.encode()) != a.size: return False   # size: of the encoded text
                return Sym(("==", a.term, self.term(b)), bool)
            if isinstance(a, (list, tuple)) and type(a) is type(b):
                if op == "is": return a is b
                if len(a) != len(b): return False
                return self.all_(self.compare("==", x, y) for x, y in zip(a, b))
            if isinstance(a, Bytes) or isinstance(b, Bytes):
                if not isinstance(a, (Bytes, bytes, bytearray)) or not isinstance(b, (Bytes, bytes, bytearray)): return False
                if len(cells(a)) != len(cells(b)): return False
                return self.all_(self.compare("==", x, y) for x, y in zip(cells(a), cells(b)))
            if isinstance(a, (Ext, Class, Fn, Bound, Mod)) or isinstance(b, (Ext, Class, Fn, Bound, Mod)):
                if isinstance(a, Ext) and isinstance(b, Ext): return a.name == b.name
                return a is b
            if op == "is": return a is b if not isinstance(a, (int, str, bytes)) else a == b and type(a) == type(b)
            return a == b
        if op == "in" and type(a) is int and isinstance(b, (dict, type({}.keys()))) and len(b) > 1000: return a in b
        if op == "in":
            if isinstance(b, Obj) and b.cls.find("__contains__"): return self.apply(self.getattr(b, "__contains__"), [a], {})
            if isinstance(b, (Sym, Ext)): return Sym(("in", self.term(a), self.term(b)), bool)
            if isinstance(b, str):
                if isinstance(a, str): return a in b
                if isinstance(a, Sym): return Sym(("in", a.term, b), bool)
                raise Raised(TypeError("in str"))
            if isinstance(b, (bytes, Bytes)) and isinstance(a, (bytes, Bytes)):
                if isinstance(a, bytes) and isinstance(b, bytes): return a in b
                return Sym(("in", self.term(a), self.term(b)), bool)
            vs = self.items(b)
            if not isinstance(a, Sym) and plain(a):
                if any(not isinstance(x, (Sym, Obj, Bytes)) and x == a for x in vs): return True
                vs = [x for x in vs if isinstance(x, (Sym, Obj, Bytes))]
            elif isinstance(a, Sym) and vs and all(isinstance(x, CONST) for x in vs):
                kinds = {type(x) for x in vs}
                if a.kind is not None and all(k is not a.kind and not {k, a.kind} <= {int, bool} for k in kinds): return False
                return Sym(("in", a.term, ("set",) + tuple(sorted(vs, key=repr))), bool)
            for x in vs:
                if self.truth(self.compare("==", a, x)): return True
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            ka, kb = pytype(a), pytype(b)
            if {ka, kb} & {str, bytes, list, dict, type(None)} and ka is not None and kb is not None and ka is not kb: raise Raised(TypeError("not comparable"))
            if op in (">", ">="): op, a, b = {">": "<", ">=": "<="}[op], b, a
            if op == "<=": return Sym(("not", ("<", self.term(b), self.term(a))), bool)
            return Sym((op, self.term(a), self.term(b)), bool)
        if isinstance(a, Obj):
            f = a.cls.find({"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op])
            if f is not None: return self.apply(Bound(Fn(f), a), [b], {})
        try: return FOLD[op](a, b)
        except TypeError as e: raise Raised(e)
    def all_(self, it):
        for r in it:
            if not self.truth(r): return False
        return True
    def e_IfExp(self, n, env): return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)
    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env); self.assign(n.target, v, env); return v
    def e_Lambda(self, n, env): return Fn(Func(env[-1], n), env, [self.ev(d, env) for d in n.args.defaults], [])
    def e_Starred(self, n, env): return self.ev(n.value, env)
    def comp(self, n, env, put):
        inner = [{}] + env
        def go(i):
            if i == len(n.generators): put(inner); return
            g = n.generators[i]
            for x in self.items(self.ev(g.iter, inner if i else env)):
                self.assign(g.target, x, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs): go(i + 1)
        go(0)
    def e_ListComp(self, n, env):
        out = []; self.comp(n, env, lambda e: out.append(self.ev(n.elt, e))); return out
    def e_SetComp(self, n, env): return set(self.e_ListComp(n, env))
    def e_GeneratorExp(self, n, env): return Iter(self.e_ListComp(n, env))
    def e_DictComp(self, n, env):
        out = {}
        def put(e):
            k = self.ev(n.key, e); out[k] = self.ev(n.value, e)
        self.comp(n, env, put); return out
    def e_BinOp(self, n, env):
        a = self.ev(n.left, env); b = self.ev(n.right, env)
        return self.binop(OPS.get(type(n.op), "?"), a, b)
    def binop(self, op, a, b):
        if op == "%" and isinstance(a, str):
            vs = b if isinstance(b, tuple) else (b,)
            if all(plain(x) for x in vs):
                try: return a % b
                except (TypeError, ValueError) as e: raise Raised(e)
            return Sym(("text", a) + tuple(self.term(x) for x in vs), str)
        if isinstance(a, (Bytes,)) or isinstance(b, Bytes):
            if op == "+" and isinstance(a, (Bytes, bytes, bytearray)) and isinstance(b, (Bytes, bytes, bytearray)): return joined(a, cells(a) + cells(b))
            if op == "+" and isinstance(a, (Sym, Ext)) or isinstance(b, (Sym, Ext)): return Sym((op, self.term(a), self.term(b)), bytes)
            if op == "*" and isinstance(b, int): return joined(a, cells(a) * b)
            raise Raised(TypeError("bytes %s" % op))
        if isinstance(a, Sym) or isinstance(b, Sym) or isinstance(a, Ext) or isinstance(b, Ext):
            ka, kb = [None if isinstance(x, Ext) else pytype(x) for x in (a, b)]
            if op == "+" and {ka, kb} & {str, bytes, list} and ka is not None and kb is not None and ka is not kb: raise Raised(TypeError("%s + %s" % (ka, kb)))
            kind = ka if ka in (str, bytes, list) else kb if kb in (str, bytes, list) else (ka or kb)
            if op in ("-", "&", "|", "//", "<<", ">>", "^", "%") and kind is bool: kind = int
            return Sym((op, self.term(a), self.term(b)), kind)
        for x, y, m in ((a, b, {"+": "__add__", "-": "__sub__", "|": "__or__", "&": "__and__"}.get(op)), ):
            if isinstance(x, Obj) and m and x.cls.find(m): return self.apply(self.getattr(x, m), [y], {})
        if op not in FOLD: raise Unclear("operator")
        try: return FOLD[op](a, b)
        except (TypeError, ZeroDivisionError, ValueError) as e: raise Raised(e)

    # ---- calls --------------------------------------------------------------------------------------------------
    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            this = next((e["%this"] for e in env[:-1] if "%this" in e), None)
            if this is not None: return Super(this[1], this[0])
        fn = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict): raise Unclear("** of an unknown")
                kw.update(d)
            else: kw[k.arg] = self.ev(k.value, env)
        return self.apply(fn, args, kw, n)
    def call(self, func, *args, **kw): return self.apply(Fn(func) if isinstance(func, Func) else func, list(args), kw)
    def apply(self, fn, args, kw, node=None):
        self.depth += 1
        try:
            if self.depth > 60: raise Unclear("calls too deep")
            return self.apply1(fn, args, kw, node)
        finally: self.depth -= 1
    def stub(self, f):
        for k in (f.qual, f.short, f.name):
            if k in self.stubs: return self.stubs[k]
        return None
    def apply1(self, fn, args, kw, node):
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Fn): return self.apply1(fn.fn, [fn.this] + args, kw, node)
            return self.apply1(fn.fn, args, kw, node)
        if isinstance(fn, Fn):
            f = fn.func
            s = self.stub(f)
            if s is not None: return s(self, args, kw)
            self.functions.add(f.qual)
            env = self.bind(fn, args, kw)
            outer = fn.env if fn.env is not None else [f.module]
            if f.cls is not None and args: env["%this"] = (args[0], f.cls)
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, [env] + outer)
            gen = getattr(f.node, "_gen", None)
            if gen is None: gen = f.node._gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
            if gen: env["%yield"] = []
            try: self.body(f.node.body, [env] + outer)
            except _Return as r: 
                if not gen: return r.v
            return Iter(env["%yield"]) if gen else None
        if isinstance(fn, Class):
            if fn.qual in self.stubs: return self.stubs[fn.qual](self, args, kw)
            if fn.name in self.stubs: return self.stubs[fn.name](self, args, kw)
            return self.new(fn, args, kw)
        if isinstance(fn, type): return self.make(fn, args, kw)
        if isinstance(fn, Native): return self.method(fn.this, fn.name, args, kw)
        if isinstance(fn, Ext): return self.ext(fn.name, args, kw)
        if isinstance(fn, ModelCall): return fn.f(self, args, kw)
        if isinstance(fn, Model) and "__call__" in fn.attrs: return fn.attrs["__call__"](self, args, kw)
        if isinstance(fn, Obj) and fn.cls.find("__call__"): return self.apply1(self.getattr(fn, "__call__"), args, kw, node)
        if isinstance(fn, Sym):
            self.calls.append((show(fn.term), tuple(args), dict(kw)))
            return Sym(("ret", fn.term, len(self.calls)))
        raise Raised(TypeError("not callable"))
    def e_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else None
        for e in env[:-1]:
            if "%yield" in e: e["%yield"].append(v); return None
    def e_YieldFrom(self, n, env):
        v = self.items(self.ev(n.value, env))
        for e in env[:-1]:
            if "%yield" in e: e["%yield"] += v; return None
    def bind(self, fn, args, kw):
        a, f = fn.func.node.args, fn.func
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        dflt = fn.defaults if fn.defaults is not None else None
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                if n in kw: raise Raised(TypeError("two values for %s of %s" % (n, f.name)))
                env[n] = args[i]
            elif n in kw: env[n] = kw.pop(n)
            else:
                j = i - (len(names) - len(a.defaults))
                if j < 0: raise Raised(TypeError("%s() lacks argument %s" % (f.name, n)))
                env[n] = dflt[j] if dflt is not None else self.default(f, a.defaults[j])
        if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names): raise Raised(TypeError("%s() takes %d arguments" % (f.name, len(names))))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw: env[x.arg] = kw.pop(x.arg)
            elif a.kw_defaults[i] is not None: env[x.arg] = self.default(f, a.kw_defaults[i])
            else: raise Raised(TypeError("%s() lacks argument %s" % (f.name, x.arg)))
        if a.kwarg: env[a.kwarg.arg] = kw
        elif kw: raise Raised(TypeError("%s() has no argument %s" % (f.name, sorted(kw)[0])))
        return env
    def default(self, f, e):
        "defaults are computed once"
        key = ("%default", f.qual, e.lineno, e.col_offset)
        if key not in self.memo: self.memo[key] = self.ev(e, ([self.class_env(f.cls)] if f.cls is not None else []) + [f.module])
        return self.memo[key]
    def new(self, c, args, kw):
        o = Obj(c)
        init = c.find("__init__")
        if init is not None: self.apply(Bound(Fn(init), o), args, kw)
        else: o.attrs["args"] = tuple(args)
        return o
    def method(self, b, name, args, kw):
        if isinstance(b, type):
            if b is object and name == "__setattr__":
                args[0].attrs[args[1]] = args[2]; return None
            if b is object and name == "__delattr__": return self.delattr(args[0], args[1])
            if b is object and name == "__getattribute__": return self.method(args[0], "__getattribute__", args[1:], kw)
            if b is object and name == "__init__": return None
            if b is int and name == "from_bytes":
                order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
                cs = cells(args[0]) if isinstance(args[0], (bytes, Bytes)) else tuple(self.items(args[0]))
                if all(isinstance(x, int) for x in cs): return int.from_bytes(bytes(cs), order)
                v = 0
                for x in (cs if order == "big" else cs[::-1]): v = self.binop("+", self.binop("*", v, 256), x)
                return v
            if b is dict and name == "fromkeys": return dict.fromkeys(self.items(args[0]), args[1] if len(args) > 1 else None)
            if b is bytes and name == "fromhex": return bytes.fromhex(args[0])
            if b is str and name in NATIVE[str]: return self.method(args[0], name, args[1:], kw)
            raise Unclear("%s.%s" % (b.__name__, name))
        if isinstance(b, Obj):
            if name == "__getattribute__":
                if args[0] in b.attrs: return b.attrs[args[0]]
                raise Raised(AttributeError(args[0]))
            if name == "__setattr__": b.attrs[args[0]] = args[1]; return None
            if name == "__delattr__": return self.delattr(b, args[0])
            if name in ("__init__", "__exit__"): return None
            raise Raised(AttributeError(name))
        if isinstance(b, (Sym, Bytes)) or isinstance(b, (str, bytes)) and not (all(plain(a) for a in args)):
            if isinstance(b, BA):
                if name == "append":
                    if isinstance(args[0], int) and not 0 <= args[0] < 256: raise Raised(ValueError("byte must be in range(0, 256)"))
                    b.cells.append(args[0]); return None
                if name == "extend": b.cells.extend(self.items(args[0])); return None
                if name == "clear": b.cells.clear(); return None
                if name == "copy": return BA(b.cells)
                if name == "pop":
                    try: return b.cells.pop(*args)
                    except IndexError as e: raise Raised(e)
                if name == "insert": b.cells.insert(*args); return None
            if isinstance(b, Bytes) and name == "decode" and all(isinstance(c, int) for c in b.cells):
                try: return bytes(b.cells).decode(*args)
                except UnicodeDecodeError as e: raise Raised(e)
            if isinstance(b, BA) and all(isinstance(c, int) for c in b.cells) and plain(args) and name in NATIVE[bytes]: return getattr(bytes(b.cells), name)(*args)
            if isinstance(b, Bytes) and name == "decode": return Sym(("decode",) + tuple(self.term(c) for c in b.cells), str, None)
            if name == "join":
                vs = self.items(args[0])
                if isinstance(b, bytes) or isinstance(b, Bytes):
                    cs = ()
                    for i, x in enumerate(vs):
                        if not isinstance(x, (bytes, Bytes, bytearray)): raise Unclear("join of unknown pieces")
                        cs += (cells(b) if i else ()) + cells(x)
                    return joined(b, cs)
                return Sym(("join", self.term(b)) + tuple(self.term(x) for x in vs), str)
            if isinstance(b, Sym) and name == "encode" and b.kind in (str, None) and b.size is not None: return Bytes([Sym(("u8", b.term, i), int) for i in range(b.size)])
            if isinstance(b, Bytes) and name in ("startswith",) and isinstance(args[0], bytes): return self.compare("==", norm(Bytes(b.cells[:len(args[0])])), args[0])
            kind = {"find": int, "count": int, "index": int, "decode": str, "encode": bytes, "startswith": bool, "endswith": bool}.get(name, str if isinstance(b, Sym) and b.kind is str or isinstance(b, str) else None)
            if name in ("to_bytes",) and isinstance(args[0] if args else kw.get("length"), int):
                n = args[0] if args else kw["length"]; order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
                cs = [Sym(("byte", b.term, k), int) for k in range(n)]
                return Bytes(cs[::-1] if order == "big" else cs)
            if isinstance(b, Sym) and b.kind is None: self.calls.append((show(b.term) + "." + name, tuple(args), dict(kw)))
            return Sym(("." + name, self.term(b)) + tuple(self.term(a) for a in args), kind)
        if isinstance(b, Iter):
            if name == "__next__": return self.ext("builtins.next", [b], {})
            raise Unclear("iterator method")
        if isinstance(b, dict) and name in ("get", "pop", "setdefault") and isinstance(args[0], Sym) and args[0] not in b: raise Unclear("unknown key")
        if isinstance(b, list) and name in ("index", "remove", "count"):
            if name == "count": return sum(1 for x in b if self.truth(self.compare("==", x, args[0])))
            for i, x in enumerate(b):
                if self.truth(self.compare("==", x, args[0])):
                    if name == "index": return i
                    del b[i]; return None
            raise Raised(ValueError(name))
        if isinstance(b, list) and name == "sort": b[:] = self.sort(b, kw); return None
        if isinstance(b, list) and name == "extend": b.extend(self.items(args[0])); return None
        if name == "to_bytes" and isinstance(b, int) and len(args) == 1 and not kw: return b.to_bytes(args[0], "big")
        try: r = getattr(b, name)(*args, **kw)
        except (KeyError, ValueError, IndexError, TypeError, AttributeError, OverflowError) as e: raise Raised(e)
        if name == "keys" and len(b) > 1000: return r      # not copied, since it may be asked again and again
        return list(r) if name in ("keys", "values", "items") else r
    def sort(self, vs, kw):
        key = kw.get("key"); ks = [(self.apply(key, [v], {}) if key is not None else v) for v in vs]
        if not all(plain(k) for k in ks): raise Unclear("sorting unknown values")
        try: idx = sorted(range(len(vs)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
        except TypeError as e: raise Raised(e)
        return [vs[i] for i in idx]
    def isinst(self, v, k):
        if isinstance(k, tuple):
            rs = [self.isinst(v, x) for x in k]
            return True if True in rs else rs[0] if all(r is False for r in rs) else next(r for r in rs if r is not False)
        t = pytype(v)
        if t is None: return Sym(("isinstance", self.term(v), self.term(k) if not isinstance(k, type) else k.__name__), bool)
        if isinstance(t, Class):
            if isinstance(k, Class): return k in t.mro()
            if k in (object,): return True
            return k is not None and getattr(k, "__name__", getattr(k, "name", "?")).split(".")[-1] in [x.split(".")[-1] for x in t.base_names()] or k is BaseException and "Exception" in t.base_names()
        if isinstance(k, type) and isinstance(t, type): return issubclass(t, k)
        return False
    def make(self, t, args, kw):
        if issubclass(t, BaseException): return t(*[a if plain(a) else show(self.term(a)) for a in args])
        a = args[0] if args else None
        if t is type and len(args) == 1:
            k = pytype(a)
            return k if k is not None else Sym(("type", self.term(a)))
        if t is object: raise Unclear("object()")
        if not args: return BA() if t is bytearray else t(**kw) if not kw else dict(kw)
        if t is bytearray:
            v = self.make(bytes, args, kw)
            if isinstance(v, Sym): return v
            return BA(cells(v))
        if t is bool: return self.truth(a)
        if t in (list, tuple, set, frozenset): return t(self.items(a))
        if t is dict:
            d = {}
            if isinstance(a, dict): d.update(a)
            else:
                for p in self.items(a):
                    k, v = self.items(p); d[k] = v
            d.update(kw); return d
        if t in (bytes, bytearray):
            if isinstance(a, Sym) and a.kind in (str, None) and len(args) > 1:
                if a.size is not None: return Bytes([Sym(("u8", a.term, i), int) for i in range(a.size)])
                return Sym((".encode", a.term), bytes)
            if isinstance(a, (str, int)) and plain(args):
                try: return bytes(*args)
                except (ValueError, TypeError) as e: raise Raised(e)
            if isinstance(a, (bytes, Bytes, bytearray)): return norm(Bytes(cells(a)))
            if isinstance(a, Sym): return Sym(("bytes", a.term), bytes)
            if isinstance(a, str): raise Raised(TypeError("string argument without an encoding"))
            vs = self.items(a)
            for x in vs:
                if isinstance(x, Sym) and x.kind in (int, bool, None): continue
                if isinstance(x, int) and 0 <= x < 256: continue
                raise Raised(ValueError("bytes must be in range(0, 256)") if isinstance(x, int) else TypeError("bytes of %s" % type(x)))
            return norm(Bytes([int(x) if isinstance(x, int) else x for x in vs]))
        if t is str:
            if plain(args) and not kw:
                try: return str(*args)
                except (TypeError, UnicodeError) as e: raise Raised(e)
            if isinstance(a, Obj) and a.cls.find("__str__"): return self.apply(self.getattr(a, "__str__"), [], {})
            if isinstance(a, (Bytes,)) and len(args) > 1: return self.method(a, "decode", [], {})
            if isinstance(a, Sym) and a.kind is str: return a
            return Sym(("str", self.term(a)), str)
        if t in (int, float):
            if plain(args):
                try: return t(*args, **kw)
                except (TypeError, ValueError) as e: raise Raised(e)
            if isinstance(a, Sym) and a.kind in (int, bool) and t is int and len(args) == 1: return Sym(a.term, int)
            return Sym((t.__name__, self.term(a)), t)
        raise Unclear("%s()" % t.__name__)
    def ext(self, name, args, kw):
        if name in self.stubs: return self.stubs[name](self, args, kw)
        n = name[9:] if name.startswith("builtins.") else None
        if n is None:
            short = name.split(".")[-1]
            if short in self.stubs: return self.stubs[short](self, args, kw)
            if short == "getLogger": return Ext("logger")
            if name in ("sys.exit", "os._exit"): raise Raised(SystemExit(*[x for x in args if plain(x)]))
            if name == "contextlib.closing": return Model("closing", thing=args[0])
            if name == "contextlib.suppress": return Model("suppress", __enter__=lambda f, a, k: None, __exit__=lambda f, a, k, t=tuple(args): a[1] is not None and any(f.isinst(a[1], x) is True for x in t))
            if name.startswith(("logger", "logging")) or short in ("info", "debug", "warning", "error", "critical", "exception", "log"): return None
            if name in ("copy.copy", "copy.deepcopy"): return self.copied(args[0], name.endswith("deepcopy"))
            if name in ("struct.pack", "struct.unpack"): return self.struct(short, args)
            if name == "operator.itemgetter" and len(args) == 1: return Fn(Func(self.P.modules[next(iter(self.P.modules))], ast.parse("lambda x: x[%r]" % args[0], mode="eval").body), [self.P.modules[next(iter(self.P.modules))]], [], [])
            self.calls.append((name, tuple(args), dict(kw)))
            return Sym(("ret", name, len(self.calls)))
        a = args[0] if args else None
        if n == "len":
            if isinstance(a, Bytes): return len(a.cells)
            if isinstance(a, Sym): return a.size if a.size is not None and a.kind is not str else Sym(("len", a.term), int)
            if isinstance(a, Obj) and a.cls.find("__len__"): return self.apply(self.getattr(a, "__len__"), [], {})
            try: return len(a)
            except TypeError as e: raise Raised(e)
        if n == "range":
            if plain(args): return range(*args)
            raise Unclear("range of an unknown")
        if n in ("hasattr", "getattr", "setattr", "delattr"):
            nm = args[1]
            if not isinstance(nm, str): raise Unclear("%s with an unknown name" % n)
            if n == "setattr": return self.setattr(a, nm, args[2])
            if n == "delattr":
                f = a.cls.find("__delattr__") if isinstance(a, Obj) else None
                return self.apply(Bound(Fn(f), a), [nm], {}) if f else self.delattr(a, nm)
            if isinstance(a, (Sym, Ext)) and n == "hasattr": return Sym(("hasattr", self.term(a), nm), bool)
            if n == "hasattr": return self.getattr(a, nm, _none) is not _none
            return self.getattr(a, nm, *args[2:3])
        if n == "isinstance": return self.isinst(a, args[1])
        if n == "issubclass": return isinstance(a, Class) and args[1] in a.mro() or isinstance(a, type) and isinstance(args[1], type) and issubclass(a, args[1])
        if n == "callable": return isinstance(a, (Fn, Bound, Class, type, Native, Ext))
        if n == "enumerate": return [(i + (args[1] if len(args) > 1 else kw.get("start", 0)), x) for i, x in enumerate(self.items(a))]
        if n == "zip": return list(zip(*[self.items(x) for x in args]))
        if n == "map": return Iter([self.apply(a, list(xs), {}) for xs in zip(*[self.items(x) for x in args[1:]])])
        if n == "filter": return Iter([x for x in self.items(args[1]) if self.truth(self.apply(a, [x], {}) if a is not None else x)])
        if n == "reversed": return self.items(a)[::-1]
        if n == "sorted": return self.sort(self.items(a), kw)
        if n == "iter": return Iter(self.items(a))
        if n == "next":
            if not isinstance(a, Iter): raise Unclear("next")
            if a.pos < len(a.items): a.pos += 1; return a.items[a.pos - 1]
            if len(args) > 1: return args[1]
            raise Raised(StopIteration())
        if n in ("any", "all"):
            for x in self.items(a):
                if self.truth(x) == (n == "any"): return n == "any"
            return n == "all"
        if n == "sum":
            v = args[1] if len(args) > 1 else 0
            for x in self.items(a): v = self.binop("+", v, x)
            return v
        if n == "ord" and isinstance(a, (Bytes, bytes)):
            if len(cells(a)) != 1: raise Raised(TypeError("ord() expected a character"))
            return cells(a)[0]
        if n in ("min", "max", "abs", "ord", "chr", "hex", "round", "divmod", "pow", "repr", "bin", "oct", "hash"):
            vs = args if len(args) > 1 or n not in ("min", "max") else [self.items(a)]
            if plain(vs) and "key" not in kw:
                try: return getattr(builtins, n)(*vs, **kw)
                except (TypeError, ValueError) as e: raise Raised(e)
            if n == "divmod": return (self.binop("//", *args), self.binop("%", *args))
            return Sym((n,) + tuple(self.term(x) for x in args), str if n in ("repr", "chr", "hex") else int if n == "ord" else None)
        if n in ("exit", "quit"): raise Raised(SystemExit())
        if n in ("print", "input"): return None
        if n == "vars": return a.attrs
        if n == "id": return Sym(("id", self.term(a)), int)
        if n == "super": return Super(args[0], args[1])
        if n in ("memoryview",): return a
        if n == "open": self.calls.append((name, tuple(args), dict(kw))); return Sym(("ret", name, len(self.calls)))
        raise Unclear("%s()" % n)
    def copied(self, v, deep):
        if isinstance(v, Obj):
            o = Obj(v.cls); o.attrs = {k: self.copied(x, True) if deep else x for k, x in v.attrs.items()}; return o
        if isinstance(v, list): return [self.copied(x, True) if deep else x for x in v]
        if isinstance(v, dict): return {k: self.copied(x, True) if deep else x for k, x in v.items()}
        if isinstance(v, set): return set(v)
        if isinstance(v, tuple): return tuple(self.copied(x, True) if deep else x for x in v)
        return v
    def struct(self, what, args):
        import struct
        if what == "pack" and plain(args):
            try: return struct.pack(*args)
            except struct.error as e: raise Raised(ValueError(str(e)))
        if what == "unpack" and plain(args):
            try: return struct.unpack(*args)
            except struct.error as e: raise Raised(ValueError(str(e)))
        # unknown integers, standard sizes
        W = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}
        f = args[0] if args and isinstance(args[0], str) else ""
        fmt = f[1:] if f[:1] in "><!" else f
        if not fmt or any(x not in W for x in fmt) or f[:1] not in "><!" and set(fmt) != {"B"}: raise Unclear("struct.%s" % what)
        big = f[:1] != "<"
        if what == "pack" and len(args) == len(fmt) + 1:
            cs = []
            for x, v in zip(fmt, args[1:]):
                k = [Sym(("byte", v.term, i), int) if isinstance(v, Sym) else (v >> 8 * i) & 255 for i in range(W[x])]
                cs += k[::-1] if big else k
            return norm(Bytes(cs))
        if what == "unpack" and isinstance(args[1], (bytes, Bytes)):
            cs, out = cells(args[1]), []
            if len(cs) != sum(W[x] for x in fmt): raise Raised(ValueError("struct"))
            for x in fmt:
                k, cs = cs[:W[x]], cs[W[x]:]
                v = 0
                for y in (k if big else k[::-1]): v = self.binop("+", self.binop("*", v, 256), y)
                out.append(v)
            return tuple(out)
        raise Unclear("struct.%s" % what)
_none = object()
