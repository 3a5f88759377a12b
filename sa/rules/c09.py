"""Shared broker state is only touched while holding the one lock, which is released on every way out."""
import ast
from ..project import Class, Func, Module
from ..fold import Ext, Model, ModelCall, Obj, Raised, Lost, Endless
from ..locks import LockFlow, MUTATORS
from .c29 import START, TCP, HTTP, say

UDP = "mqtt.brokers.listeners.UDPListeners"
BROKERS = ("mqtt.brokers.V5", "mqtt.brokers.V311", "mqtt.brokers.SN")
PACKAGES = BROKERS + ("mqtt.brokers.start", "mqtt.brokers.listeners", "mqtt.formats")
SERVERS = ("StreamRequestHandler", "BaseRequestHandler", "DatagramRequestHandler", "BaseHTTPRequestHandler", "SimpleHTTPRequestHandler")

def check(c):
    c.rule("one-lock", "the brokers, their background thread and the HTTP interface made by start.run all hold the same lock, and it can be taken again by the thread which has it")
    c.rule("held", "every access to clients, sessions, subscriptions, retained messages and the fields of clients which change, in any code that can run in a thread of a connection, in the background thread, in an HTTP request or in an administrative call, is made with the lock held")
    c.rule("released", "each of these threads leaves its code, normally or by an exception, with the lock released as often as it took it, and never releases it without having it")
    run = c.P.func(START, "run"); where = "%s:%d: run" % (run.module.rel, run.node.lineno)
    made = world(c, run)
    for r, locks, kinds, memo in made:
        if isinstance(r, (Raised, Endless)): c.ob("one-lock.start", False, where, "run: " + say(r)); return
    _, locks, kinds, memo = made[0]
    lock = locks[0] if locks else None
    attrs, globs, objs = holders(memo, locks)
    bad = []
    if not locks: bad.append("no lock is made")
    for (cl, a), l in sorted(attrs.items(), key=str):
        if len(set(map(id, l))) > 1 or l[0] is not common(attrs): bad.append("%s.%s is not the lock shared by the others" % (cl, a))
    for k, l in globs.items():
        if k[0] != START and l is not common(attrs): bad.append("%s.%s is not the lock shared by the others" % (k[0].split(".")[-1], k[1]))
    for cl in ("MQTTBrokers", "MQTTSNBrokers", "cleanupThreads"):
        if any(o.cls.name == cl for o in objs) and not any(k[0] == cl for k in attrs): bad.append("no lock is held by %s" % cl)
    if not any(k[0] == HTTP for k in globs): bad.append("the HTTP interface is not given the lock")
    c.ob("one-lock.shared", not bad, where, "; ".join(bad[:4]))
    guarded, named, aliases = state(c, objs, memo)
    setup = [f for m in c.P.modules.values() if m.name.startswith(BROKERS) for cl in m.classes.values() for n, f in cl.methods.items() if n.startswith("setBroker")]
    fields, names = {}, {}
    for o in objs:
        for a, v in o.attrs.items():
            if isinstance(v, Obj): fields.setdefault((o.cls.qual, a), set()).add(v.cls)
    for (_, m, n), v in memo.items():
        if isinstance(v, Obj): names.setdefault((m, n), set()).add(v.cls)
    L = LockFlow(c.P, PACKAGES, set(attrs), set(globs), guarded, named, aliases, setup, fields, names)
    rs = roots(c, L)
    c.ob("held.roots", len(rs) >= 8, where, "only %d entry points of threads are found" % len(rs))
    for f in rs:
        ret, exc = L.call(f, 0)
        at = "%s:%d: %s" % (f.module.rel, f.node.lineno, f.short)
        left = sorted(d for d in ret | exc if d)
        c.ob("released.%s.%s" % (f.module.name.split("mqtt.brokers.")[-1], f.short), not left, at,
             "it can end %s with the lock still held" % ("normally" if any(ret) else "by an exception"))
    for k, m in sorted(L.faults.items()): c.ob("released.%s.%d" % k, False, k[0], m)
    if not L.faults: c.ob("released.not-free", True, where, "")
    if kinds and kinds[0] != "RLock": c.ob("one-lock.again", not L.nested, where, "the lock is not an RLock, and %s takes it while it is held" % ", ".join(sorted({f.short for f, _ in L.nested})[:3]))
    else: c.ob("one-lock.again", True, where, "")
    c.count("functions reached", len(L.seen)); c.count("entry points", len(rs)); c.count("accesses", len(L.accesses))
    by = {}
    for a in L.accesses.values(): by.setdefault((a.func.module.name.replace("mqtt.brokers.", ""), a.func.short), []).append(a)
    for (m, n), l in sorted(by.items()):
        free = [a for a in l if a.free]
        f = l[0].func
        c.ob("held.%s.%s" % (m, n), not free, "%s:%d: %s" % (f.module.rel, free[0].node.lineno if free else f.node.lineno, n), "" if not free else "%s is accessed without the lock (%s)" % (free[0].what, " -> ".join(free[0].way)))
    need = {"clients", "sharedData"}
    c.ob("held.state", len(L.accesses) >= 60 and need <= {x for s in guarded.values() for x in s} | {n for _, n in aliases}, where, "the shared state is not found (%d accesses)" % len(L.accesses) if len(L.accesses) < 60 else "")

def common(attrs):
    from collections import Counter
    n = Counter(id(l) for v in attrs.values() for l in v)
    if not n: return None
    i = n.most_common(1)[0][0]
    return [l for v in attrs.values() for l in v if id(l) == i][0]

def world(c, run):
    F = c.fold(oracle=lambda t: False if t[0] == "==" and Ext("module.__name__") in t else None, most=600, steps=2000000)
    def go(f):
        locks, kinds = [], []
        no = lambda f, a, k: None
        def make(kind):
            def g(f, a, k):
                locks.append(Model("lock%d" % len(locks), acquire=lambda f, a, k: True, release=no, __enter__=no, __exit__=no)); kinds.append(kind)
                return locks[-1]
            return g
        server = Model("server", **{"*": no})
        f.stubs = dict(f.stubs or {})
        f.stubs.update({"threading.RLock": make("RLock"), "threading.Lock": make("Lock"), "threading.Thread.__init__": no, "threading.Thread.start": no, "threading.Thread": lambda f, a, k: Model("thread", **{"*": no}),
                        "builtins.open": lambda f, a, k: Model("file", **{"*": no})})
        for m in (TCP, HTTP, UDP): f.memo[("%glob", m, "create")] = ModelCall(lambda f, a, k: server, "create")
        f.memo[("%glob", START, "filter")] = Model("filter", **{"*": no})
        try: f.call(run, []); r = None
        except Raised as e: r = e
        return r, locks, kinds, {k: v for k, v in f.memo.items() if isinstance(k, tuple) and k[0] == "%glob"}
    out = []
    for r in F.run(go):
        if isinstance(r[0], Lost): raise r[0]
        out.append(r[0] if isinstance(r[0], tuple) else (r[0], [], [], {}))
    c.count("ways through start.run", len(out))
    return out

def holders(memo, locks):
    "who holds a lock: {(class, attribute): [lock]}, {(module, name): lock}, objects"
    attrs, globs, objs, seen = {}, {}, [], set()
    def go(v):
        if id(v) in seen: return
        seen.add(id(v))
        if isinstance(v, Obj):
            objs.append(v)
            for a, x in v.attrs.items():
                if any(x is l for l in locks): attrs.setdefault((v.cls.name, a), []).append(x)
                go(x)
        elif isinstance(v, dict):
            for x in list(v.values()): go(x)
        elif isinstance(v, (list, tuple, set)):
            for x in v: go(x)
    for (_, m, n), v in memo.items():
        if any(v is l for l in locks): globs[(m, n)] = v
        go(v)
    return attrs, globs, objs

def state(c, objs, memo):
    """the attributes which make up the shared state: those of the brokers, their stores and clients which some code, other than constructors and wiring, changes or whose container it changes"""
    classes = {}
    for m in c.P.modules.values():
        if not m.name.startswith(BROKERS): continue
        for cl in m.classes.values():
            if any(isinstance(b, tuple) and b[:2] == ("ext", "threading.Thread") or "Exception" in str(b) for b in cl.mro()): continue
            own = {}
            for f in cl.methods.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store): own.setdefault(x.attr, []).append(f)
            for o in objs:
                if o.cls.qual == cl.qual:
                    for a in o.attrs: own.setdefault(a, [])
            classes[cl.qual] = (cl, own)
    changed = {}      # attribute -> receivers it is changed through ("self", class) or anything
    def mark(e, cl, self_only_in):
        while isinstance(e, (ast.Subscript,)): e = e.value
        if isinstance(e, ast.Attribute): changed.setdefault(e.attr, set()).add(cl.qual if cl is not None and isinstance(e.value, ast.Name) and e.value.id == "self" else None)
    for m in c.P.modules.values():
        if not m.name.startswith(BROKERS + ("mqtt.brokers.start", "mqtt.brokers.listeners")): continue
        fs = [(f, None) for f in m.functions.values()] + [(f, cl) for cl in m.classes.values() for f in cl.methods.values()]
        for f, cl in fs:
            if f.name.startswith("setBroker"): continue
            init = f.name == "__init__"
            for x in ast.walk(f.node):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                for t in [y for t in ts for y in (t.elts if isinstance(t, ast.Tuple) else [t])]:
                    if init and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self": continue
                    if isinstance(t, (ast.Attribute, ast.Subscript)): mark(t, cl, None)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS: mark(x.func.value, cl, None)
    guarded, owners = {}, {}
    for q, (cl, own) in classes.items():
        for a in own:
            s = changed.get(a)
            if s is None: continue
            # changed in a class of its own, or through something that is not self
            if None in s or any(x == q or x in [k.qual for k in cl.mro() if isinstance(k, Class)] for x in s): guarded.setdefault(q, set()).add(a)
    # containers which hold guarded ones
    inner = set()
    for o in objs:
        for a, v in o.attrs.items():
            if a in guarded.get(o.cls.qual, ()) and isinstance(v, (dict, list, set)): inner.add(id(v))
    def holds(v, deep=0):
        if id(v) in inner: return True
        if deep > 3: return False
        return isinstance(v, dict) and any(holds(x, deep + 1) for x in v.values() if isinstance(x, (dict, list))) or isinstance(v, (list, tuple)) and any(holds(x, deep + 1) for x in v if isinstance(x, (dict, list)))
    for o in objs:
        for a, v in o.attrs.items():
            if isinstance(v, (dict, list)) and o.cls.qual in classes and holds(v): guarded.setdefault(o.cls.qual, set()).add(a)
    aliases = {(m, n) for (_, m, n), v in memo.items() if isinstance(v, dict) and m != START and holds(v)}
    # names which belong to these classes alone
    every = {}
    for m in c.P.modules.values():
        if not m.name.startswith(("mqtt.brokers.", "mqtt.formats.")): continue
        for cl in m.classes.values():
            names = set(cl.methods) | set(cl.assigns)
            for f in cl.methods.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Store): names.add(x.attr)
            for n in names: every.setdefault(n, set()).add(cl.qual)
        for n in list(m.functions) + list(m.classes) + list(m.imports): every.setdefault(n, set()).add(m.name)
    named = {}
    for q, s in guarded.items():
        for a in s:
            if all(x in guarded and a in guarded[x] for x in every.get(a, set())): named[a] = q.split(".")[-1]
    return guarded, named, aliases

def roots(c, L):
    out = []
    for m in L.mods:
        for cl in m.classes.values():
            names = [b if isinstance(b, str) else b[1] if isinstance(b, tuple) else b.name for b in cl.mro()]
            names = [n.split(".")[-1] for n in names]
            if any(n in SERVERS for n in names): out += [f for n, f in cl.methods.items() if n == "handle" or n.startswith("do_") and n[3:].isupper()]
            if "Thread" in names and "run" in cl.methods: out.append(cl.methods["run"])
            if "shutdown" in cl.methods and cl.name.endswith("Brokers"): out.append(cl.methods["shutdown"])
        for f in m.functions.values():
            if m.name == START and f.name in ("reinitialize",): out.append(f)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr in ("Thread", "Timer", "start_new_thread", "submit") or isinstance(x.func, ast.Name) and x.func.id in ("Thread", "Timer")):
                ctx = [f for f in list(m.functions.values()) + [g for cl in m.classes.values() for g in cl.methods.values()] if any(y is x for y in ast.walk(f.node))]
                if not ctx: continue
                for a in list(x.args) + [k.value for k in x.keywords if k.arg in ("target", "function")]:
                    if isinstance(a, (ast.Name, ast.Attribute)): out += [r for r in L.reference(a, ctx[0], {}) if r.module in L.mods]
                    elif isinstance(a, ast.Lambda):
                        for y in ast.walk(a):
                            if isinstance(y, ast.Call): out += L.callees(y, ctx[0], {})[0]
    seen, uniq = set(), []
    for f in out:
        if (f.module.name, f.short) not in seen: seen.add((f.module.name, f.short)); uniq.append(f)
    return uniq
