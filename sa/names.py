"""Names that do not exist and calls that do not fit: the checks a compiler of a typed language makes."""
import ast, builtins, importlib, symtable
from .project import Func, Class, Module

STDLIB = {"time", "socket", "threading", "struct", "logging", "select", "json", "random", "copy", "sys", "os", "traceback", "re", "hashlib", "base64", "ssl", "socketserver", "getopt", "http.server", "types", "string", "math", "uuid", "signal", "urllib", "urllib.request", "urllib.parse", "queue", "functools", "itertools", "collections", "cgi", "http"}
CATCH = {"Exception", "BaseException", "AttributeError", "NameError"}

def has(mod, attr):
    "does a standard module have an attribute (True when not known)"
    if mod not in STDLIB: return True
    try: m = importlib.import_module(mod)
    except Exception: return True
    if hasattr(m, attr): return True
    try: importlib.import_module(mod + "." + attr); return True
    except Exception: return False

def excused(tree):
    "ids of nodes inside a try that has a handler for missing names"
    out = set()
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and t.handlers:
            hit = False
            for h in t.handlers:
                ns = [None] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                hit = hit or any(n is None or n in CATCH for n in ns)
            # only the usual "use the newer name, else the older one": the body is one statement
            if hit and len(t.body) == 1:
                for s in t.body:
                    for x in ast.walk(s): out.add(id(x))
        if isinstance(t, ast.If) and isinstance(t.test, ast.Call) and isinstance(t.test.func, ast.Name) and t.test.func.id == "hasattr":
            for s in t.body:
                for x in ast.walk(s): out.add(id(x))
    return out

def module_names(m, seen=()):
    "the names a module has at run time, or None if that cannot be told"
    if m.name in seen: return set()
    out = {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__"}
    def go(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.add(s.name); continue
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef)): out.add(x.name)
                elif isinstance(x, ast.Import):
                    for a in x.names: out.add(a.asname or a.name.split(".")[0])
                elif isinstance(x, ast.ImportFrom):
                    for a in x.names:
                        if a.name != "*": out.add(a.asname or a.name)
                elif isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
    go(m.tree.body)
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Global): out.update(x.names)
    for base in m.stars:
        b = m.project.modules.get(base)
        if b is None: return None
        n = module_names(b, tuple(seen) + (m.name,))
        if n is None: return None
        out |= {y for y in n if not y.startswith("_")}
    if m.is_pkg:
        for n in m.project.modules:
            if n.startswith(m.name + ".") and "." not in n[len(m.name) + 1:]: out.add(n[len(m.name) + 1:])
    return out

def owners(m):
    "id of node -> name of the function it is in"
    out = {}
    def go(node, name):
        for ch in ast.iter_child_nodes(node):
            n = name
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)): n = (name + "." if name else "") + ch.name
            out[id(ch)] = n; go(ch, n)
    go(m.tree, "")
    return out

def unbound(m, skip):
    "[(function, name, line)] of the names which are bound nowhere"
    names = module_names(m)
    if names is None: return [], 0
    own, exc = owners(m), excused(m.tree)
    # names bound in some enclosing function
    res, n = [], 0
    def scope(node, bound, name):
        nonlocal n
        a = node.args
        b = set(bound) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        body = node.body if isinstance(node.body, list) else [node.body]
        def collect(x):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): b.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)): b.add(x.name); return
            elif isinstance(x, ast.Import): b.update(y.asname or y.name.split(".")[0] for y in x.names)
            elif isinstance(x, ast.ImportFrom): b.update(y.asname or y.name for y in x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name: b.add(x.name)
            elif isinstance(x, ast.Lambda): return
            for ch in ast.iter_child_nodes(x): collect(ch)
        for s in body: collect(s)
        def use(x):
            nonlocal n
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                for d in x.args.defaults + [k for k in x.args.kw_defaults if k is not None] + getattr(x, "decorator_list", []): use(d)
                scope(x, b, name); return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                n += 1
                if x.id not in b and x.id not in names and not hasattr(builtins, x.id) and id(x) not in exc: res.append((own.get(id(x), name), x.id, x.lineno))
            for ch in ast.iter_child_nodes(x): use(ch)
        for s in body: use(s)
    def top(node, name):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                if getattr(ch, "name", "") not in skip: scope(ch, set(), getattr(ch, "name", name))
            else: top(ch, name)
    top(m.tree, "")
    return res, n

def missing(m, skip):
    "[(function, text, line)] of the attributes of modules which do not exist"
    own, exc, res, n = owners(m), excused(m.tree), [], 0
    shadow = {}
    for f in ast.walk(m.tree):
        if isinstance(f, ast.FunctionDef):
            loc = {x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            loc |= {y.asname or y.name.split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for y in x.names}
            for x in ast.walk(f): shadow.setdefault(id(x), set()).update(loc)
    for x in ast.walk(m.tree):
        if not isinstance(x, ast.Attribute) or not isinstance(x.ctx, ast.Load) or id(x) in exc: continue
        if own.get(id(x), "").split(".")[-1] in skip: continue
        root = x.value
        while isinstance(root, ast.Attribute): root = root.value
        if not isinstance(root, ast.Name) or root.id in shadow.get(id(x), ()): continue
        r = m.resolve_expr(x.value)
        if isinstance(r, Module):
            n += 1; names = module_names(r)
            if names is not None and x.attr not in names: res.append((own.get(id(x), ""), ast.unparse(x), x.lineno))
        elif isinstance(r, tuple) and r[0] == "ext":
            n += 1
            if not has(r[1], x.attr): res.append((own.get(id(x), ""), ast.unparse(x), x.lineno))
        elif isinstance(r, Class):
            n += 1
            known = [k for k in r.mro() if isinstance(k, Class)]
            if all(isinstance(k, Class) for k in r.mro()) and not any(x.attr in k.methods or x.attr in k.assigns for k in known) and not hasattr(object, x.attr) and x.attr not in members(r, [m]): res.append((own.get(id(x), ""), ast.unparse(x), x.lineno))
    return res, n

def members(cl, mods):
    "attributes given to self in the methods of a class and of those it is derived from"
    out = set()
    for k in cl.mro():
        if not isinstance(k, Class): continue
        out |= set(k.methods) | set(k.assigns)
        for x in ast.walk(k.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls", k.name) and isinstance(x.ctx, ast.Store): out.add(x.attr)
            elif isinstance(x, (ast.ClassDef,)): out.add(x.name)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name): out.add(x.target.id)
            elif isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store): out.add(x.id)
    return out

def own_attributes(cl, mods, skip):
    "[(function, text, line)] of attributes of self that nothing gives it"
    mro = cl.mro()
    if any(not isinstance(k, Class) and k not in ("object", ("ext", "builtins.object")) for k in mro): return [], 0
    fam = [cl]
    for m in mods:
        for k in m.classes.values():
            if cl in k.mro(): fam.append(k)
    for k in fam:
        if any(n in y.methods for y in k.mro() if isinstance(y, Class) for n in ("__getattr__", "__getattribute__", "__setattr__")): return [], 0
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars") and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == "self" or isinstance(x, ast.Attribute) and x.attr == "__dict__" for y in k.mro() if isinstance(y, Class) for x in ast.walk(y.node)): return [], 0
    have = set().union(*[members(k, mods) for k in fam])
    for m in mods:      # given from outside
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"): have.add(x.attr)
    exc, res, n = excused(cl.node), [], 0
    for f in cl.methods.values():
        if f.name in skip or f.params()[:1] != ["self"]: continue
        if any(isinstance(x, ast.Name) and x.id == "self" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)): continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, (ast.Load, ast.Del)):
                n += 1
                if x.attr not in have and not hasattr(object, x.attr) and id(x) not in exc: res.append((f.short, "self." + x.attr, x.lineno))
    return res, n

FOREIGN = set()
for _t in (dict, list, set, str, bytes, bytearray, tuple, int, float, type(importlib), __import__("socket").socket, __import__("threading").Thread, __import__("threading").Event, __import__("logging").Logger, __import__("io").TextIOWrapper, __import__("io").BufferedReader):
    FOREIGN |= set(dir(_t))

def fits(f, call, bound):
    "'' or what is wrong with a call"
    a = f.node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords): return ""
    ps = [x.arg for x in a.posonlyargs + a.args]
    if bound: ps = ps[1:]
    kws = [k.arg for k in call.keywords]
    if len(call.args) > len(ps) and a.vararg is None: return "takes %d arguments, %d are given" % (len(ps), len(call.args))
    if not a.kwarg:
        for k in kws:
            if k not in ps and k not in [x.arg for x in a.kwonlyargs]: return "has no parameter %s" % k
    for k in kws:
        if k in ps[:len(call.args)]: return "is given %s twice" % k
    required = ps[:max(0, len(ps) - len(a.defaults))]
    for p in required[len(call.args):]:
        if p not in kws: return "is not given %s" % p
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in kws: return "is not given %s" % x.arg
    return ""

def is_method(f):
    return f.cls is not None and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(f.node, "decorator_list", []))

def decorated(f): return any(not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod")) for d in getattr(f.node, "decorator_list", []))

def misfits(m, flow, skip):
    "[(function, call, line, what is wrong)]; flow: a LockFlow, for the types of receivers"
    res, n = [], 0
    for f in m.all_functions_nested():
        if f.name in skip or f.outer is not None and f.outer.name in skip: continue
        nested = {id(y) for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node for y in ast.walk(x)}
        local = {x.name: x for x in ast.walk(f.node) if isinstance(x, ast.FunctionDef) and x is not f.node}
        outer = f.outer
        while outer is not None:
            for x in outer.node.body:
                if isinstance(x, ast.FunctionDef): local.setdefault(x.name, x)
            outer = outer.outer
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call) or id(x) in nested: continue
            cands, need_all = [], False
            e = x.func
            if isinstance(e, ast.Name):
                if e.id in local: cands = [(Func(m, local[e.id]), False)]
                elif not flow.assigned(f, e.id) and e.id not in outer_params(f):
                    r = m.resolve(e.id)
                    if isinstance(r, Func): cands = [(r, False)]
                    elif isinstance(r, Class): cands = constructor(r)
            elif isinstance(e, ast.Attribute):
                r = m.resolve_expr(e) if not rooted_local(e, f, flow) else None
                if isinstance(r, Class): cands = constructor(r)
                elif isinstance(r, Func): cands = [(r, r.cls is not None and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in r.node.decorator_list))]
                elif r is None:
                    if isinstance(e.value, ast.Name) and e.value.id == "self" and f.cls is not None and f.params()[:1] == ["self"]:
                        g = f.cls.find(e.attr)
                        if g is not None: cands = [(g, is_method(g))]
                    elif isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super": pass
                    else:
                        t = flow.types(e.value, f)
                        if t: cands = [(g, is_method(g)) for g in (k.find(e.attr) for k in t) if g is not None]
                        elif e.attr not in FOREIGN and not (isinstance(e.value, (ast.Name, ast.Attribute)) and isinstance(m.resolve_expr(e.value), tuple)):
                            near = [g for g in flow.methods.get(e.attr, [])]
                            cands = [(g, is_method(g)) for g in near]; need_all = True
            cands = [(g, b) for g, b in cands if not decorated(g)]
            if not cands: continue
            n += 1
            bad = [(g, fits(g, x, b)) for g, b in cands]
            wrong = [(g, w) for g, w in bad if w]
            if wrong and (not need_all or len(wrong) == len(bad)): res.append((f.short if f.outer is None else f.outer.short + "." + f.name, ast.unparse(e), x.lineno, "%s %s" % (wrong[0][0].short, wrong[0][1])))
    return res, n

def constructor(cl):
    i = cl.find("__init__")
    if i is not None: return [(i, True)]
    if all(isinstance(k, Class) for k in cl.mro()): return [(Func(cl.module, ast.parse("def __init__(self): pass").body[0], cl), True)]
    return []

def outer_params(f):
    out, o = set(), f.outer
    while o is not None: out |= set(o.params()) | {x.id for x in ast.walk(o.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}; o = o.outer
    return out

def rooted_local(e, f, flow):
    while isinstance(e, ast.Attribute): e = e.value
    return not isinstance(e, ast.Name) or flow.assigned(f, e.id) or e.id in outer_params(f)
