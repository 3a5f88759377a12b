"""Parameters, methods and attributes get the names the checks know them by: a name is no part of what a function does.
The table (params.json, made by tools/mkparams.py) records the names of the parameters of every function in order, the
functions with the names they mention, and the functions each attribute is mentioned in.  A name of the table that is
found nowhere any more is given back to the new name that stands in the same places; a name is never changed otherwise."""
import ast, json, os
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")

def functions(tree):
    "(name, node) of the functions of a module, and of the methods of its classes"
    for s in tree.body:
        if isinstance(s, ast.FunctionDef): yield s.name, s
        elif isinstance(s, ast.ClassDef):
            for b in s.body:
                if isinstance(b, ast.FunctionDef): yield s.name + "." + b.name, b
def params(node): return [x.arg for x in node.args.posonlyargs + node.args.args]
def table():
    try: return json.load(open(TABLE))
    except OSError: return {}
def keywords(trees):
    "called name -> the keywords used with it"
    out = {}
    for t in trees:
        for x in ast.walk(t):
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                if n: out.setdefault(n, []).extend(k for k in x.keywords if k.arg)
    return out
def idents(node): return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)} | {x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 30}
def survey(modules):
    "name of a function -> where it is defined and what it mentions; attribute -> the functions that mention it"
    defs, attrs, strings = {}, {}, set()
    for m, tree in modules.items():
        for q, node in functions(tree):
            c, _, n = q.rpartition(".")
            defs.setdefault(n, []).append([m, c, sorted(idents(node) - {n}), len(params(node))])
            for x in ast.walk(node):
                if isinstance(x, ast.Attribute): attrs.setdefault(x.attr, set()).add(m + ":" + q)
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str): strings.add(x.value)
            elif isinstance(x, ast.Attribute): attrs.setdefault(x.attr, set())
    return defs, attrs, strings
def jaccard(a, b): return len(a & b) / len(a | b) if a | b else 0
def pairs(gone, new, score, least):
    "the best matches of names that are gone with new ones, each used once"
    best = sorted(((score(r, n), r, n) for r in gone for n in new), reverse=True)
    out, used = {}, set()
    for s, r, n in best:
        if s < least: break
        if r in used or n in out: continue
        out[n] = r; used.add(r)
    return out
def rename(modules, m):
    for t in modules.values():
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute): x.attr = m.get(x.attr, x.attr)
            elif isinstance(x, ast.FunctionDef): x.name = m.get(x.name, x.name)
            elif isinstance(x, ast.Name): x.id = m.get(x.id, x.id)
            elif isinstance(x, ast.alias): x.name = m.get(x.name, x.name)
def given(modules, known):
    here = {m: t for m, t in modules.items() if m in known["params"]}
    for again in range(4):
        defs, attrs, strings = survey(here)
        dgone = [n for n in known["defs"] if n not in defs and n not in attrs]
        dnew = [n for n in defs if n not in known["defs"] and n not in known["attrs"] and n not in strings]
        agone = [n for n in known["attrs"] if n not in attrs and n not in defs and n not in known["defs"] and known["attrs"][n]]
        # what is never stored is somebody else's
        stored = {x.attr for t in here.values() for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} | {y.id for t in here.values() for x in ast.walk(t) if isinstance(x, ast.ClassDef) for s in x.body if isinstance(s, ast.Assign) for y in s.targets if isinstance(y, ast.Name)}
        anew = [n for n in attrs if n not in known["attrs"] and n not in defs and n not in strings and n in stored]
        if not (dgone and dnew) and not (agone and anew): return
        moot = set(dgone) | set(dnew) | set(agone) | set(anew)
        def like(r, n):
            best = 0
            for m, c, i, k in known["defs"][r]:
                for m2, c2, j, k2 in defs[n]:
                    if (m, c) != (m2, c2): continue
                    a, b = set(i) - moot, set(j) - moot
                    # how much of what is mentioned is the same; names that were changed as well say nothing
                    v = jaccard(a, b) * 0.9 + (0.1 if k == k2 else 0)
                    if len(a | b) < 3: v = min(v, 0.35) if a != b or k != k2 else 0.5
                    best = max(best, v)
            return best
        def around(r, n): return jaccard({f for f in known["attrs"][r] if f.rpartition(".")[2] not in moot}, {f for f in attrs[n] if f.rpartition(".")[2] not in moot})
        m = pairs(dgone, dnew, like, 0.4)
        m.update(pairs(agone, anew, around, 0.5))
        if not m: return
        rename(here, m)
def delegates(modules, known):
    "a method that only passes its parameters on to a new one, which nothing else calls, gets that one's body"
    for m, tree in modules.items():
        if m not in known["params"]: continue
        for c in [tree] + [s for s in tree.body if isinstance(s, ast.ClassDef)]:
            fs = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}
            for f in list(fs.values()):
                b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(b) != 1 or not isinstance(b[0], (ast.Return, ast.Expr)) or not isinstance(b[0].value, ast.Call) or b[0].value.keywords: continue
                x = b[0].value; me = params(f)
                args = [a.id if isinstance(a, ast.Name) else None for a in x.args]
                if isinstance(c, ast.ClassDef):
                    if not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and me and x.func.value.id == me[0]): continue
                    n, args = x.func.attr, me[:1] + args
                elif isinstance(x.func, ast.Name): n = x.func.id
                else: continue
                if n in known["defs"] or n not in fs or args != me or f.decorator_list or fs[n].decorator_list: continue
                g = fs[n]
                if len(params(g)) != len(me) or any((a.vararg, a.kwarg, a.kwonlyargs) != (None, None, []) for a in (g.args, f.args)) or g.args.defaults: continue
                if sum((isinstance(y, ast.Attribute) and y.attr == n) + (isinstance(y, ast.Name) and y.id == n) for t in modules.values() for y in ast.walk(t)) != 1: continue
                to = dict(zip(params(g), me))
                if set(to.values()) & ({y.id for y in ast.walk(g) if isinstance(y, ast.Name)} - set(to)): continue
                for y in ast.walk(g):
                    if isinstance(y, ast.Name): y.id = to.get(y.id, y.id)
                    elif isinstance(y, ast.arg): y.arg = to.get(y.arg, y.arg)
                f.body = g.body; c.body.remove(g); del fs[n]
def normalise(modules):
    "modules: name -> syntax tree"
    known, changed = table(), []
    for t in modules.values():
        for x in list(ast.walk(t)):
            if isinstance(x, ast.FunctionDef): plainly(x)
    if not known: return []
    given(modules, known)
    delegates(modules, known)
    known = known["params"]
    for m, tree in modules.items():
        if m not in known: continue
        for q, node in functions(tree):
            was = known[m].get(q)
            if was is None: continue
            now = params(node)
            todo = {n: w for n, w in zip(now, was) if n != w and w not in now and n not in was}
            if not todo: continue
            names = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(node) if isinstance(x, ast.arg)}
            if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(node)): continue
            todo = {n: w for n, w in todo.items() if w not in names}
            if todo: changed.append((q.split(".")[-1], q, node, todo))
    if not changed: return []
    kws = keywords(modules.values())
    for name, q, node, todo in changed:
        for x in ast.walk(node):
            if isinstance(x, ast.Name): x.id = todo.get(x.id, x.id)
            elif isinstance(x, ast.arg): x.arg = todo.get(x.arg, x.arg)
            elif isinstance(x, ast.ExceptHandler) and x.name: x.name = todo.get(x.name, x.name)
        for k in kws.get(q.split(".")[0] if name == "__init__" else name, []):
            k.arg = todo.get(k.arg, k.arg)
    return [q for _, q, _, _ in changed]

# ---- loops written with an index ------------------------------------------------------------------------------
FRESH = ("list", "tuple", "sorted", "set", "dict")
def fresh(e):
    "a new sequence that nothing else refers to"
    return isinstance(e, (ast.ListComp, ast.List, ast.Tuple)) or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in FRESH or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "getSubscriptions", "getRetainedTopics", "subscriptions", "split")
def uses(node, name): return sum(isinstance(x, ast.Name) and x.id == name for x in ast.walk(node))
def is_len(e): return e.args[0].id if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(e.args[0], ast.Name) else None
def element(s, seq, i):
    "x = seq[i]"
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Tuple)) and isinstance(s.value, ast.Subscript) and isinstance(s.value.value, ast.Name) and s.value.value.id == seq and isinstance(s.value.slice, ast.Name) and s.value.slice.id == i:
        return s.targets[0]
def jumps(body):
    "continue statements that belong to the loop with this body"
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Continue): return True
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)): todo += list(ast.iter_child_nodes(x))
    return False
def step(s, i):
    "i += 1"
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.op, ast.Add): v = s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == i: v = s.value.right
    else: return False
    return isinstance(v, ast.Constant) and v.value == 1
def only_here(fn, loop, i):
    "the index is not looked at outside of the loop, unless set anew"
    inside = {id(x) for x in ast.walk(loop)}
    for l in ast.walk(fn):
        if l is not loop and (isinstance(l, ast.For) and any(isinstance(x, ast.Name) and x.id == i for x in ast.walk(l.target))): inside |= {id(x) for x in ast.walk(l)}
    return not any(isinstance(x, ast.Name) and x.id == i and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(fn))
def own(fn, seq):
    "a local variable set once, to a new sequence"
    sets = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == seq and isinstance(x.ctx, (ast.Store, ast.Del))]
    if len(sets) != 1: return False
    return any(isinstance(x, ast.Assign) and len(x.targets) == 1 and x.targets[0] is sets[0] and fresh(x.value) for x in ast.walk(fn))
OPPOSITE = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
def negated(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1: return ast.copy_location(ast.Compare(e.left, [OPPOSITE[type(e.ops[0])]()], e.comparators), e)
    if isinstance(e, ast.BoolOp): return ast.copy_location(ast.BoolOp(ast.And() if isinstance(e.op, ast.Or) else ast.Or(), [negated(v) for v in e.values]), e)
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)
def search_shape(s): return isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "next"
def search(fn, s):
    "x = next((e for t in it if c), d)   is   x = d, and a loop that ends with the first such e"
    v = getattr(s, "value", None)
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) or isinstance(s, ast.Return)): return None
    if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "next" and len(v.args) == 2 and not v.keywords and isinstance(v.args[0], ast.GeneratorExp) and len(v.args[0].generators) == 1): return None
    g, d = v.args[0].generators[0], v.args[1]
    if g.is_async or not isinstance(d, ast.Constant): return None
    new = {}
    class Own(ast.NodeTransformer):
        def visit_Name(self, x): return ast.copy_location(ast.Name(new.get(x.id, x.id), x.ctx), x)
    for x in ast.walk(g.target):
        if isinstance(x, ast.Name): new[x.id] = "_%s_%d" % (x.id, getattr(s, "lineno", 0))
    own = lambda e: Own().visit(e)
    loc = lambda e: ast.copy_location(e, s)
    elt, tests = own(v.args[0].elt), [own(t) for t in g.ifs]
    found = [loc(ast.Return(elt))] if isinstance(s, ast.Return) else [loc(ast.Assign(s.targets, elt)), loc(ast.Break())]
    if tests: found = [loc(ast.If(tests[0] if len(tests) == 1 else loc(ast.BoolOp(ast.And(), tests)), found, []))]
    lp = loc(ast.For(own(g.target), g.iter, found, []))
    return [lp, loc(ast.Return(d))] if isinstance(s, ast.Return) else [loc(ast.Assign([ast.copy_location(ast.Name(s.targets[0].id, ast.Store()), s)], d)), lp]
class Pairs(ast.NodeTransformer):
    "(a, b) == (c, d)   is   a == c and b == d"
    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) != 1 or not isinstance(e.ops[0], (ast.Eq, ast.NotEq)): return e
        l, r = e.left, e.comparators[0]
        if not (isinstance(l, ast.Tuple) and isinstance(r, ast.Tuple) and len(l.elts) == len(r.elts) > 1) or any(isinstance(x, ast.Starred) for x in l.elts + r.elts): return e
        return ast.copy_location(ast.BoolOp(ast.And() if isinstance(e.ops[0], ast.Eq) else ast.Or(), [ast.copy_location(ast.Compare(a, [e.ops[0]], [b]), e) for a, b in zip(l.elts, r.elts)]), e)
def plain(e):
    "an expression which may be evaluated twice"
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript, ast.BinOp, ast.operator, ast.expr_context, ast.UnaryOp, ast.unaryop)) for x in ast.walk(e))
def called(e, *names): return isinstance(e, ast.Call) and not e.keywords and ast.unparse(e.func) in names
WIDTH = {"H": 2, "I": 4, "L": 4, "B": 1}
def width_of(fmt): return WIDTH.get(fmt.value[-1]) if isinstance(fmt, ast.Constant) and isinstance(fmt.value, str) and len(fmt.value) == 2 and fmt.value[0] in "!>" else None
class Arithmetic(ast.NodeTransformer):
    "divmod is a quotient and a remainder, struct.unpack of one number is int.from_bytes"
    def both(self, c):
        op = lambda o: ast.copy_location(ast.BinOp(c.args[0], o, c.args[1]), c)
        return [op(ast.FloorDiv()), op(ast.Mod())]
    def visit_Assign(self, s):
        t = s.targets[0]
        one = isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 1 and called(s.value, "struct.unpack", "struct.unpack_from")
        if one and len(s.targets) == 1: s = ast.copy_location(ast.Assign([t.elts[0]], ast.copy_location(ast.Subscript(s.value, ast.copy_location(ast.Constant(0), s), ast.Load()), s)), s)
        self.generic_visit(s)
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and called(s.value, "divmod") and len(s.value.args) == 2 and all(plain(a) for a in s.value.args):
            s.value = ast.copy_location(ast.Tuple(self.both(s.value), ast.Load()), s.value)
        return s
    def visit_Subscript(self, e):
        self.generic_visit(e)
        if not (isinstance(e.slice, ast.Constant) and isinstance(e.ctx, ast.Load)): return e
        v, k = e.value, e.slice.value
        if called(v, "divmod") and len(v.args) == 2 and k in (0, 1): return self.both(v)[k]
        if k == 0 and called(v, "struct.unpack", "struct.unpack_from") and v.args and width_of(v.args[0]):
            n, b = width_of(v.args[0]), v.args[1]
            if v.func.attr == "unpack_from":
                lo = v.args[2] if len(v.args) > 2 else ast.copy_location(ast.Constant(0), e)
                hi = ast.copy_location(ast.Constant(n), e) if len(v.args) < 3 else ast.copy_location(ast.BinOp(lo, ast.Add(), ast.copy_location(ast.Constant(n), e)), e)
                b = ast.copy_location(ast.Subscript(b, ast.copy_location(ast.Slice(lo, hi, None), e), ast.Load()), e)
            if n == 1: return ast.copy_location(ast.Subscript(b, e.slice, ast.Load()), e)
            f = ast.copy_location(ast.Attribute(ast.copy_location(ast.Name("int", ast.Load()), e), "from_bytes", ast.Load()), e)
            return ast.copy_location(ast.Call(f, [b, ast.copy_location(ast.Constant("big"), e)], []), e)
        return e
    def visit_Call(self, e):
        self.generic_visit(e)
        if isinstance(e.func, ast.Attribute) and e.func.attr == "join" and isinstance(e.func.value, ast.Constant) and e.func.value.value == b"" and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)) \
           and e.args[0].elts and not any(isinstance(x, ast.Starred) for x in e.args[0].elts):
            r = e.args[0].elts[0]
            for x in e.args[0].elts[1:]: r = ast.copy_location(ast.BinOp(r, ast.Add(), x), e)
            return r
        return e
def gathered(fn):
    "a list of pieces which only grows and ends up in b''.join(list) or bytes(list) is the bytes themselves"
    for name in {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
        edits, ok, kinds, seen = [], True, set(), 0
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == name:
                if isinstance(x.value, ast.List) and not any(isinstance(e, ast.Starred) for e in x.value.elts): edits.append((x, "value", x.value.elts)); seen += 1
                else: ok = False
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                if isinstance(x.op, ast.Add) and isinstance(x.value, (ast.List, ast.Tuple)) and not any(isinstance(e, ast.Starred) for e in x.value.elts): edits.append((x, "value", x.value.elts)); seen += 1
                else: ok = False
            elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == name:
                c = x.value
                if c.func.attr == "append" and len(c.args) == 1: edits.append((x, "stmt", c.args)); seen += 1
                elif c.func.attr == "extend" and len(c.args) == 1 and isinstance(c.args[0], (ast.List, ast.Tuple)): edits.append((x, "stmt", c.args[0].elts)); seen += 1
                else: ok = False
            elif isinstance(x, ast.Call) and len(x.args) == 1 and not x.keywords and isinstance(x.args[0], ast.Name) and x.args[0].id == name:
                if isinstance(x.func, ast.Attribute) and x.func.attr == "join" and isinstance(x.func.value, ast.Constant) and x.func.value.value == b"": kinds.add("join"); edits.append((x, "out", None)); seen += 1
                elif isinstance(x.func, ast.Name) and x.func.id == "bytes": kinds.add("bytes"); edits.append((x, "out", None)); seen += 1
        if not ok or len(kinds) != 1 or seen != uses(fn, name) or len(edits) < 2: continue
        join = kinds == {"join"}
        def pieces(els, at):
            C = lambda e: ast.copy_location(e, at)
            if not els: return C(ast.Constant(b""))
            if not join: return C(ast.Call(C(ast.Name("bytes", ast.Load())), [C(ast.List(list(els), ast.Load()))], []))
            r = els[0]
            for e in els[1:]: r = C(ast.BinOp(r, ast.Add(), e))
            return r
        stmts = {}
        for x, what, els in edits:
            if what == "value": x.value = pieces(els, x)
            elif what == "stmt": stmts[id(x)] = ast.copy_location(ast.AugAssign(ast.copy_location(ast.Name(name, ast.Store()), x), ast.Add(), pieces(els, x)), x)
            else: stmts[id(x)] = ast.copy_location(ast.Name(name, ast.Load()), x)
        class Put(ast.NodeTransformer):
            def visit(self, x): return stmts[id(x)] if id(x) in stmts else self.generic_visit(x)
        Put().visit(fn)
def plainly(fn):
    "the function's loops over sequences of its own, with an index, become loops over the elements"
    Pairs().visit(fn); Arithmetic().visit(fn); gathered(fn)
    for x in list(ast.walk(fn)):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list) and any(search_shape(s) for s in b): setattr(x, f, [y for s in b for y in (search(fn, s) or [s])])
    for x in list(ast.walk(fn)):
        # while True: if not C: break; ...   is   while C: ...
        while isinstance(x, ast.While) and isinstance(x.test, ast.Constant) and x.test.value and not x.orelse and len(x.body) > 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse \
              and len(x.body[0].body) == 1 and isinstance(x.body[0].body[0], ast.Break):
            x.test, x.body = negated(x.body[0].test), x.body[1:]
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name):
            if x.iter.func.id == "enumerate" and len(x.iter.args) == 1 and not x.iter.keywords and isinstance(x.target, ast.Tuple) and len(x.target.elts) == 2 and isinstance(x.target.elts[0], ast.Name):
                i = x.target.elts[0].id
                if uses(x, i) == 1 and only_here(fn, x, i): x.target, x.iter = x.target.elts[1], x.iter.args[0]
            elif x.iter.func.id == "range" and isinstance(x.target, ast.Name) and (len(x.iter.args) == 1 or len(x.iter.args) == 2 and isinstance(x.iter.args[0], ast.Constant) and x.iter.args[0].value == 0):
                i, seq = x.target.id, is_len(x.iter.args[-1])
                if seq and own(fn, seq) and len(x.body) > 1:
                    t = element(x.body[0], seq, i)
                    if t is not None and uses(x, i) == 2 and uses(x, seq) == 2 and only_here(fn, x, i):
                        x.target, x.iter, x.body = t, ast.copy_location(ast.Name(seq, ast.Load()), x.iter), x.body[1:]
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if not isinstance(b, list): continue
            for k in range(1, len(b)):
                a, w = b[k - 1], b[k]
                if not (isinstance(w, ast.While) and not w.orelse and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Constant) and a.value.value == 0): continue
                i, t = a.targets[0].id, w.test
                if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(w.body) > 2): continue
                l, r = (t.left, t.comparators[0]) if isinstance(t.ops[0], (ast.Lt, ast.NotEq)) else (t.comparators[0], t.left) if isinstance(t.ops[0], ast.Gt) else (None, None)
                if not (isinstance(l, ast.Name) and l.id == i): continue
                seq = is_len(r)
                if not seq or not own(fn, seq): continue
                e = element(w.body[0], seq, i)
                if e is None or uses(w, seq) != 2 or not only_here(fn, w, i): continue
                n = 4 if isinstance([s for s in w.body if step(s, i)][0] if any(step(s, i) for s in w.body) else None, ast.Assign) else 3
                if uses(w, i) != n: continue
                if step(w.body[1], i): rest = w.body[2:]
                elif step(w.body[-1], i) and not jumps(w.body): rest = w.body[1:-1]
                else: continue
                if rest: b[k] = ast.copy_location(ast.For(e, ast.copy_location(ast.Name(seq, ast.Load()), w), rest, []), w)
