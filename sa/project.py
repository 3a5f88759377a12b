"""Loads the repository's Python sources and resolves names, classes and methods."""
import ast, os, hashlib

class AnalysisBroken(Exception):
    "an anchor vanished or the source cannot be read: the check gives no verdict"

class Func:
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name if hasattr(node, "name") else "<lambda>"
    @property
    def qual(self):
        return (self.module.name + "." + (self.cls.name + "." if self.cls else "") + self.name)
    @property
    def short(self):
        return ((self.cls.name + "." if self.cls else "") + self.name)
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]
    def __repr__(self): return "<Func %s>" % self.qual

class Class:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.assigns = {}, {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef,)):
                self.methods[s.name] = Func(module, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): self.assigns[t.id] = s.value
                    elif isinstance(t, ast.Tuple) :
                        for e in t.elts:
                            if isinstance(e, ast.Name): self.assigns[e.id] = s.value
    @property
    def qual(self): return self.module.name + "." + self.name
    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            out.append(r if r is not None else ast.unparse(b))
        return out
    def mro(self):
        out, seen = [], set()
        def go(c):
            if id(c) in seen: return
            seen.add(id(c)); out.append(c)
            if isinstance(c, Class):
                for b in c.bases(): go(b)
        go(self)
        return out
    def find(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.methods: return c.methods[name]
        return None
    def base_names(self):
        return [c.name if isinstance(c, Class) else str(c).split(".")[-1] for c in self.mro()]
    def __repr__(self): return "<Class %s>" % self.qual

class Module:
    def __init__(self, project, name, path, rel, is_pkg):
        self.project, self.name, self.path, self.rel, self.is_pkg = project, name, path, rel, is_pkg
        with open(path, "rb") as f: self.bytes = f.read()
        try:
            self.tree = ast.parse(self.bytes, path)
        except SyntaxError as e:
            raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        self.functions, self.classes, self.imports, self.stars, self.assigns = {}, {}, {}, [], {}
        self.hidden = {}   # imported name -> packages whose later star import may hide it
        self.top = []
    def collect(self): self._collect(self.tree.body)
    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef): self.functions[s.name] = Func(self, s)
            elif isinstance(s, ast.ClassDef): self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname: self.imports[a.asname] = (a.name, None)
                    else: self.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = self._relbase(s)
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(base)
                        for n in self.imports: self.hidden.setdefault(n, []).append(base)
                    else:
                        self.imports[a.asname or a.name] = (base, a.name)
                        self.hidden.pop(a.asname or a.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name): self.assigns[t.id] = s.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                v = s.value
                                if isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts): v = v.elts[i]
                                else: v = ("unpack", s.value, i)
                                self.assigns[e.id] = v
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = ("aug", s)
            elif isinstance(s, (ast.If, ast.Try)):
                self._collect(s.body); self._collect(s.orelse)
                for h in getattr(s, "handlers", []): self._collect(h.body)
                self._collect(getattr(s, "finalbody", []))
    def _relbase(self, s):
        if not s.level: return s.module
        parts = self.name.split(".")
        if not self.is_pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        if s.module: parts = parts + s.module.split(".")
        return ".".join(parts)
    def resolve(self, name, _seen=None):
        "-> Func, Class, Module, ('const', module, expr) , ('ext', dotted) or None"
        seen = _seen or set()
        if (self.name, name) in seen: return None
        seen.add((self.name, name))
        if name in self.classes: return self.classes[name]
        if name in self.functions: return self.functions[name]
        if name in self.assigns: return ("const", self, self.assigns[name])
        for base in reversed(self.hidden.get(name, [])):
            m = self.project.modules.get(base)
            r = m.resolve(name, seen) if m is not None and not name.startswith("_") else None
            if r is not None: return r
        if name in self.imports:
            base, attr = self.imports[name]
            if attr is None:
                m = self.project.modules.get(base)
                return m if m is not None else ("ext", base)
            m = self.project.modules.get(base)
            if m is not None:
                r = m.resolve(attr, seen)
                if r is not None: return r
                sub = self.project.modules.get(base + "." + attr)
                if sub is not None: return sub
                return None
            sub = self.project.modules.get(base + "." + attr)
            if sub is not None: return sub
            return ("ext", base + "." + attr)
        for base in self.stars:
            m = self.project.modules.get(base)
            if m is not None:
                r = m.resolve(name, seen)
                if r is not None: return r
        if self.is_pkg:
            sub = self.project.modules.get(self.name + "." + name)
            if sub is not None: return sub
        return None
    def resolve_expr(self, e):
        if isinstance(e, ast.Name): return self.resolve(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module): return b.resolve(e.attr)
            if isinstance(b, tuple) and b[0] == "ext": return ("ext", b[1] + "." + e.attr)
            if isinstance(b, Class) and e.attr in b.methods: return b.methods[e.attr]
        return None
    def all_functions(self):
        out = list(self.functions.values())
        for c in self.classes.values(): out += list(c.methods.values())
        return out
    def all_functions_nested(self):
        "every function definition in the module, also nested ones and shadowed ones"
        out = []
        def go(node, cls, outer):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.FunctionDef):
                    f = Func(self, ch, cls, outer); out.append(f); go(ch, None, f)
                elif isinstance(ch, ast.ClassDef):
                    c = self.classes.get(ch.name)
                    go(ch, c if c is not None and c.node is ch else Class(self, ch), outer)
                else: go(ch, cls, outer)
        go(self.tree, None, None)
        return out

class Project:
    def __init__(self, root):
        self.root = os.path.abspath(root)
        self.top = os.path.join(self.root, "interoperability")
        if not os.path.isdir(self.top): raise AnalysisBroken("no interoperability directory under %s" % root)
        self.modules, self.consulted = {}, set()
        for d, subs, names in os.walk(self.top):
            subs[:] = sorted(s for s in subs if not s.startswith(".") and s != "__pycache__")
            for n in sorted(names):
                if not n.endswith(".py"): continue
                p = os.path.join(d, n)
                rel = os.path.relpath(p, self.root)
                mod = os.path.relpath(p, self.top)[:-3].replace(os.sep, ".")
                is_pkg = mod.endswith("__init__")
                if is_pkg: mod = mod[:-len(".__init__")] if "." in mod else ""
                try: self.modules[mod] = Module(self, mod, p, rel, is_pkg)
                except AnalysisBroken:
                    if "tkinter" in rel: continue
                    raise
        from . import norm
        norm.normalise({n: m.tree for n, m in self.modules.items()})
        for m in self.modules.values(): m.collect()
    def mod(self, name):
        if name not in self.modules: raise AnalysisBroken("module %s not found" % name)
        self.consulted.add(name)
        return self.modules[name]
    def cls(self, modname, name):
        m = self.mod(modname)
        if name not in m.classes: raise AnalysisBroken("class %s not found in %s" % (name, m.rel))
        return m.classes[name]
    def func(self, modname, dotted):
        m = self.mod(modname)
        if "." in dotted:
            c, f = dotted.split(".")
            r = self.cls(modname, c).find(f)
        else:
            r = m.functions.get(dotted)
            if r is None:
                r = m.resolve(dotted)
                if not isinstance(r, Func): r = None
        if r is None: raise AnalysisBroken("function %s not found in %s" % (dotted, m.rel))
        return r
    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.consulted): h.update(n.encode() + self.modules[n].bytes)
        return h.hexdigest()[:16]
