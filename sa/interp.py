"""Trace-partitioned forward dataflow over the syntax tree.

For one function it computes a finite set of guarded effect summaries: every class of paths through the
function (callees of this repository inlined), with the conditions that select it (domains of dom.py), the
ordered effects on shared objects, and how it ends.  Values are provenance terms (terms.py); nothing of the
repository is executed and no input is ever chosen.  Loops are solved as a disjunctive fixpoint over abstract
loop-head states with widening; branches that lead to equal states are merged exactly.
"""
import ast, re
from .dom import Val, Iv, Bo, YES, NO, ALL, cls_of, INF
from .terms import *
from .project import Func, Class, Module, AnalysisBroken

FINITE = {"QoS": (0,1,2), "qos": (0,1,2), "WillQoS": (0,1,2), "willQoS": (0,1,2), "retainHandling": (0,1,2),
          "DUP": (0,1), "RETAIN": (0,1), "noLocal": (0,1), "retainAsPublished": (0,1), "CleanStart": (0,1),
          "CleanSession": (0,1), "WillFlag": (0,1), "WillRETAIN": (0,1), "retained": (0,1), "cleansession": (0,1),
          "cleanSession": (0,1), "connected": (0,1), "publish_on_pubrel": (0,1), "overlapping_single": (0,1),
          "dropQoS0": (0,1), "zero_length_clientids": (0,1), "sendWillMessage": (0,1), "willMessage": (0,1)}
NONNEG = {"KeepAliveTimer", "keepalive", "willDelayInterval", "WillDelayInterval", "topicAliasMaximum", "TopicAliasMaximum",
          "TopicAlias", "SessionExpiryInterval", "packetIdentifier", "messageIdentifier", "msgid", "receiveMaximum", "maximumPacketSize",
          "RemainingLength", "remainingLength", "remlen"}
IGNORED_EXT = ("logging.", "traceback.", "print", "logger.")
PURE = {"len","min","max","str","int","bytes","float","repr","abs","ord","chr","range","enumerate","zip","isinstance","type","any","all",
        "next","sorted","reversed","list","tuple","set","dict","frozenset","bool","sum","id","hex","iter","bytearray","callable","divmod","map","filter","hasattr","getattr","round"}
PURE_METH = {"find","index","startswith","endswith","split","lower","upper","strip","lstrip","rstrip","decode","encode","join","replace","count",
             "keys","values","items","copy","get","fileno","format","rfind","splitlines","title","monotonic","hexdigest","digest","partition","isdigit", "getpeername","getsockname"}
TABLES = ("outmsgs", "__clients")     # what stands in them is never None
def has_text(s):
    "does a format string hold more than its placeholders"
    s = s.decode("latin-1") if isinstance(s, bytes) else s
    return bool(re.sub(r"%[-#0 +.\d]*[a-zA-Z]|\{[^{}]*\}", "", s))
FILED = {"packetIdentifier": ("outmsgs",), "messageIdentifier": ("outmsgs",), "id": ("__clients",)}    # entries stand under their own names: the checks of what is stored see to that
LISTMUT = {"append","remove","pop","clear","extend","insert","add","discard","update","sort","reverse","popitem","setdefault","popleft","appendleft"}
LISTPROPS = frozenset(["SubscriptionIdentifier", "UserProperty"]) # properties that may occur more than once, always lists
SOCKETISH = {"shutdown", "close", "recv", "send", "sendall", "fileno", "settimeout"} # methods of sockets: not guessed from their name
CONTAINERISH = LISTMUT | {"get","keys","values","items","index","find","copy","startswith","endswith","split","join","send","recv","close",
                          "set","write","read","encode","decode","start","stop","acquire","release","append","count","replace","lower","upper","format","strip"}
MAXPATHS = 6000

class Ev:
    """one effect.  kind: call, setattr, delattr, setitem, delitem, mut, loop, setglobal, enter, exit"""
    __slots__ = ("kind", "name", "base", "args", "kw", "ret", "snap", "loop", "where", "fn", "_k")
    def __init__(self, kind, name=None, base=None, args=(), kw=(), ret=None, snap=None, loop=None, where=None):
        self.kind, self.name, self.base, self.args, self.kw = kind, name, base, tuple(args), tuple(kw)
        self.ret, self.snap, self.loop, self.where, self.fn = ret, snap, loop, where, None
        self._k = (kind, name, base, self.args, self.kw, ret, loop.key() if loop else None)
    def __eq__(self, o): return isinstance(o, Ev) and self._k == o._k
    def __hash__(self): return hash(self._k)
    def __repr__(self):
        k = self.kind
        if k == "loop":
            return "for %s: {%s}" % (show(self.loop.it), " | ".join(repr(e) for e in self.loop.edges))
        if k == "call": return "%s%s(%s)" % ((show(self.base)+".") if self.base else "", self.name, ", ".join([show(a) for a in self.args]+["%s=%s"%(n,show(v)) for n,v in self.kw]))
        if k == "mut": return "%s.%s(%s)" % (show(self.base), self.name, ", ".join(show(a) for a in self.args))
        if k == "setattr": return "%s.%s := %s" % (show(self.base), self.name, show(self.args[0]))
        if k == "delattr": return "del %s.%s" % (show(self.base), self.name)
        if k == "setitem": return "%s[%s] := %s" % (show(self.base), show(self.args[0]), show(self.args[1]))
        return "%s %s %s %s" % (k, self.name, show(self.base) if self.base else "", ", ".join(map(show, self.args)))

class Edge:
    "one class of paths through a loop body"
    __slots__ = ("conds", "events", "ctrl", "src", "dst", "final")
    def __init__(self, conds, events, ctrl, src, dst): self.conds, self.events, self.ctrl, self.src, self.dst = conds, events, ctrl, src, dst
    def key(self): return (frozenset(self.conds.items()), self.events, self.ctrl)
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return "%s -> %s%s" % (show_conds(self.conds), "; ".join(map(repr, self.events)), (" " + str(self.ctrl[0])) if self.ctrl else "")

class LoopInfo:
    __slots__ = ("it", "edges", "final", "zero", "kind", "_k", "over", "steps", "init", "inorder")
    def __init__(self, it, edges, final, zero, kind, over=None, steps=None, init=None):
        self.inorder = True     # the elements come in the order of what is gone through
        self.steps, self.init = steps, init   # what each pass through the body does to the variables; their values before the loop
        self.over = over    # the local container gone through, if the loop was traced to what fills it
        self.it, self.edges, self.final, self.zero, self.kind = it, tuple(edges), final, zero, kind
        self._k = (it, frozenset(e.key() for e in self.edges), final.key() if final else None, zero)
    def key(self): return self._k

def show_key(k):
    if k[0] == "v": return show(k[1])
    if k[0] == "d": return show(k[1])
    return show(k[1])
def show_conds(c):
    out = []
    for k, d in sorted(c.items(), key=repr):
        if k[0] == "b": out.append(show_key(k) if d == YES else "not(%s)" % show_key(k))
        else: out.append("%s:%r" % (show_key(k), d))
    return "[" + " & ".join(out) + "]"

class St:
    __slots__ = ("frames", "heap", "items", "ver", "conds", "facts", "events", "ctrl", "alloc", "loops", "impure", "past", "marks")
    def __init__(self):
        self.frames, self.heap, self.items, self.ver, self.conds, self.facts = [], {}, {}, {}, {}, {}
        self.events, self.ctrl, self.alloc, self.loops, self.impure, self.past, self.marks = (), None, {}, (), {}, (), ()
    def copy(self):
        n = St.__new__(St)
        n.frames = [dict(f) for f in self.frames]
        n.heap, n.items, n.ver, n.conds, n.facts = dict(self.heap), dict(self.items), dict(self.ver), dict(self.conds), dict(self.facts)
        n.events, n.ctrl, n.alloc, n.loops, n.impure, n.past, n.marks = self.events, self.ctrl, dict(self.alloc), self.loops, dict(self.impure), self.past, self.marks
        return n
    def env(self): return self.frames[-1]
    def alloc_objs(self):
        return [("obj", k, i) for k in ("list", "set", "dict") for i in range(1, self.alloc.get(k, 0) + 1)]
    def key(self, live=None):
        top = self.frames[-1] if self.frames else {}
        if live is not None: top = {k: v for k, v in top.items() if k in live or k.startswith("%")}
        return (tuple(frozenset((k, v) for k, v in f.items()) for f in self.frames[:-1]), frozenset(top.items()),
                frozenset(self.heap.items()), frozenset(self.items.items()), frozenset(self.ver.items()),
                self.events, self.ctrl, frozenset(self.alloc.items()), self.loops, frozenset(self.impure.items()))

def merge_conds_exact(cs):
    "merge condition maps whose union is exactly representable"
    cs = list(dict((frozenset(c.items()), c) for c in cs).values())
    changed = True
    while changed and len(cs) > 1:
        changed = False
        for i in range(len(cs)):
            for j in range(i+1, len(cs)):
                m = merge2(cs[i], cs[j])
                if m is not None:
                    cs[i] = m; del cs[j]; changed = True
                    break
            if changed: break
    return cs
def merge2(a, b):
    diff = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
    if not diff: return a
    # absorption
    if all(k not in a or (k in b and b[k].implies(a[k])) for k in diff): return a
    if all(k not in b or (k in a and a[k].implies(b[k])) for k in diff): return b
    if len(diff) == 1:
        k = diff[0]
        if k in a and k in b:
            u = a[k].join_exact(b[k])
            if u is None: return None
            m = dict(a)
            if u.full() or is_top(k, u): del m[k]
            else: m[k] = u
            return m
        return None
    # complementary on one key, one implies the other on the rest:  (A & x) | (B & !x) with A weaker: keep both
    return None
def upper(a, b):
    "an upper bound of two domain values of the same kind"
    if type(a) is not type(b): return None
    u = a.join_exact(b)
    if u is not None: return u
    if isinstance(a, Iv): return Iv(min(a.lo, b.lo), max(a.hi, b.hi))
    if isinstance(a, Val): return Val(None, a.classes | b.classes)
    return None
def alt(vs):
    flat = []
    for v in vs:
        for x in (v[1] if v[0] == "alt" else (v,)):
            if x not in flat: flat.append(x)
    if len(flat) == 1: return flat[0]
    if len(flat) > 8: return ("unk", "many")
    return ("alt", tuple(sorted(flat, key=repr)))
def names_in(t):
    "attribute, parameter, function and key names occurring in a term"
    for x in subterms(t):
        k = x[0]
        if k in ("attr", "hasattr", "meth"): yield x[2]
        elif k == "param": yield x[1]
        elif k in ("call", "ret"): yield x[1].split(".")[-1]
        elif k == "const" and isinstance(x[1], str): yield x[1]
        elif k == "new": yield x[1].split(".")[-1]
        elif k == "glob": yield x[2]
def common_facts(states):
    f = dict(states[0].facts)
    for s in states[1:]:
        for k in list(f):
            if s.facts.get(k) != f[k]: del f[k]
    return f
def finite_of(t):
    n = None
    while t[0] == "ver": t = t[1]
    if t[0] in ("attr", "param"): n = t[2] if t[0] == "attr" else t[1]
    elif t[0] == "item" and is_const(t[2]) and isinstance(t[2][1], str): n = t[2][1]
    return FINITE.get(n)
def in_order(it):
    "are the elements gone through in the order of the container?"
    if it[0] in ("ver", "copy"): return in_order(it[1])
    if it[0] == "reversed" or it[0] == "call" and it[1] in ("sorted", "set", "frozenset", "reversed"): return False
    if it[0] == "call" and it[1] in ("list", "tuple", "iter", "enumerate") and it[2]: return in_order(it[2][0])
    return True
def top_of(key):
    if key[0] == "v":
        f = finite_of(key[1])
        return Val(f) if f else Val()
    if key[0] == "d": return Iv()
    return Bo([True, False])
def is_top(key, d):
    return d == top_of(key)

def loaded(node):
    s = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)): s.add(n.id)
    return s
def stored(node):
    s = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): s.add(n.id)
    return s

class Liveness:
    def __init__(self, fnode):
        self.after, self.always, self.head = {}, set(), {}
        for n in ast.walk(fnode):
            if n is not fnode and isinstance(n, (ast.FunctionDef, ast.Lambda)): self.always |= loaded(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)): self.always |= set(n.names)
        body = fnode.body if isinstance(fnode.body, list) else []
        self.block(body, set(), set(), set(), set())
    def block(self, stmts, out, brk, cont, extra):
        out = set(out) | extra
        for s in reversed(stmts):
            self.after[id(s)] = set(out) | self.always
            out = self.stmt(s, out, brk, cont, extra) | extra
        return out
    def stmt(self, s, out, brk, cont, extra):
        if isinstance(s, ast.Assign):
            r = set(out)
            for t in s.targets: r -= stored(t)
            r |= loaded(s.value)
            for t in s.targets: r |= loaded(t)
            return r
        if isinstance(s, ast.AugAssign): return out | loaded(s.value) | loaded(s.target) | stored(s.target)
        if isinstance(s, ast.If):
            return loaded(s.test) | self.block(s.body, out, brk, cont, extra) | self.block(s.orelse, out, brk, cont, extra)
        if isinstance(s, (ast.For, ast.While)):
            tgt = stored(s.target) if isinstance(s, ast.For) else set()
            tl = loaded(s.iter) if isinstance(s, ast.For) else loaded(s.test)
            els = self.block(s.orelse, out, brk, cont, extra)
            head = set(els) | (tl if isinstance(s, ast.While) else set())
            for _ in range(4):
                b = self.block(s.body, head, out, head, extra)
                n = head | (b - tgt)
                if n == head: break
                head = n
            self.head[id(s)] = head | self.always
            return head | tl
        if isinstance(s, ast.Try):
            ex = set(extra)
            for h in s.handlers: ex |= loaded_block(h.body)
            ex |= loaded_block(s.finalbody) | loaded_block(s.orelse)
            fin = self.block(s.finalbody, out, brk, cont, extra)
            for h in s.handlers: ex |= self.block(h.body, fin, brk | fin, cont | fin, extra | loaded_block(s.finalbody))
            els = self.block(s.orelse, fin, brk, cont, extra | loaded_block(s.finalbody))
            return self.block(s.body, els | fin, brk | fin, cont | fin, ex | out)
        if isinstance(s, ast.With):
            r = self.block(s.body, out, brk, cont, extra)
            for i in s.items: r = (r - (stored(i.optional_vars) if i.optional_vars else set())) | loaded(i.context_expr)
            return r
        if isinstance(s, ast.Return): return (loaded(s.value) if s.value else set()) | extra
        if isinstance(s, ast.Raise): return loaded(s) | extra
        if isinstance(s, ast.Break): return set(brk)
        if isinstance(s, ast.Continue): return set(cont)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)): return (out - {s.name}) | loaded(s)
        return out | loaded(s)
def loaded_block(b):
    s = set()
    for x in b: s |= loaded(x)
    return s

class Path:
    "a class of paths through the entry function"
    def __init__(self, st):
        self.conds, self.events, self.ctrl, self.heap, self.items, self.facts, self.ver = st.conds, st.events, st.ctrl, st.heap, st.items, st.facts, st.ver
    @property
    def ret(self): return self.ctrl[1] if self.ctrl and self.ctrl[0] == "return" else (NONE if self.ctrl is None else None)
    @property
    def raised(self): return self.ctrl[1] if self.ctrl and self.ctrl[0] == "raise" else None
    def flat(self, loops=True):
        "events in order with the conditions under which they happen and the enclosing loops; [(Ev, conds, loopstack)]"
        out = []
        def go(evs, conds, stack):
            for e in evs:
                out.append((e, conds, stack))
                if e.kind == "loop" and loops:
                    seen = []
                    for ed in e.loop.edges + ((e.loop.final,) if e.loop.final else ()):
                        if ed in seen: continue
                        seen.append(ed)
                        c = dict(conds); c.update(ed.conds)
                        go(ed.events, c, stack + ((e.loop, ed),))
        go(self.events, self.conds, ())
        return out
    def __repr__(self):
        s = show_conds(self.conds) + "\n"
        for e in self.events: s += "    " + repr(e) + "\n"
        return s + "    => " + (("%s %s" % (self.ctrl[0], show(self.ctrl[1]) if self.ctrl[1] else "")) if self.ctrl else "end")

class Interp:
    def __init__(self, project, scope, opaque=(), inline_init=(), attr_types=None, elem_types=None, maxdepth=8, never=(), noraise=(), extraise=None, keep_log=False, inline=None, atomic_try=False, pure=(), focus=None, about=None, aliases=None, oracle=None, nonempty=None, every_loop=False, induction=True, unroll=None):
        self.unroll = dict(unroll or {})    # function -> how many rounds of its loops are followed one by one
        self.every_loop, self.induction = every_loop, induction
        self.oracle, self.nonempty = oracle, nonempty    # assumptions: key -> domain or None; iterable -> is it known to hold something
        self.P, self.scope = project, scope
        self.opaque, self.inline_init, self.maxdepth = set(opaque), set(inline_init), maxdepth
        self.attr_types, self.elem_types = dict(attr_types or {}), dict(elem_types or {})
        self.noraise = set(noraise)
        self.extraise = extraise
        self.quantified = 0             # within the arguments of any() or all()
        self.keep_log = keep_log
        self.only_inline = inline
        self.atomic_try = atomic_try
        self.pure = set(pure)
        self.focus = focus              # predicate on events: which effects are recorded (None: all)
        self.about = about              # names whose conditions stay correlated when states are joined (None: never join)
        self.aliases = dict(aliases or {})   # (class, attribute) -> term: two ways to reach the same object
        self.live, self.stack, self.closures, self.trys = {}, [], {}, []
        self.npaths = self.nstates = 0
        self.functions, self.calls = set(), 0
        self._cha, self._attrT = {}, {}
        self.frames_mod = []

    # ---- entry -------------------------------------------------------------------------------------------
    def summarize(self, func, params=None, pre=None, kw_defaults=True, selfcls=None):
        """path summaries of func; params: canonical names by position"""
        names = func.params()
        st = St(); env = {}
        canon = params or names
        for i, n in enumerate(names):
            env[n] = ("param", canon[i] if i < len(canon) else n)
        a = func.node.args
        for x in a.kwonlyargs: env[x.arg] = ("param", x.arg)
        if a.vararg: env[a.vararg.arg] = ("param", a.vararg.arg)
        if a.kwarg: env[a.kwarg.arg] = ("param", a.kwarg.arg)
        st.frames.append(env)
        self.self_class = selfcls or func.cls
        self.entry = func
        self.functions.add(func.qual)
        self.stack, self.trys = [func], []
        if pre: pre(self, st)
        out = self.run_body(func, st)
        self.npaths += len(out)
        return [Path(s) for s in out]

    def run_body(self, func, st):
        if func.node not in self.live: self.live[func.node] = Liveness(func.node)
        body = func.node.body
        if isinstance(func.node, ast.Lambda):
            res = []
            for t, s in self.ev(func.node.body, st):
                if s.ctrl is None: s.ctrl = ("return", t)
                res.append(s)
            return self.merge(res, set())
        outs = self.block(body, [st], func)
        return self.merge(outs, set())

    # ---- merging -----------------------------------------------------------------------------------------
    def merge(self, states, live):
        if len(states) < 2: return states
        groups = {}
        for s in states:
            groups.setdefault(s.key(live), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1: out.append(g[0]); continue
            facts = common_facts(g)
            cs = merge_conds_exact([s.conds for s in g])
            for c in cs:
                n = g[0].copy(); n.conds = dict(c); n.facts = dict(facts); out.append(n)
        if self.about is not None and len(out) > 1: out = self.joined(out, live)
        if len(out) > MAXPATHS: raise AnalysisBroken("too many paths in %s" % self.stack[-1].qual)
        return out

    def kept(self, key):
        return any(n in self.about for n in names_in(key[1]))
    def joined(self, states, live):
        "join states that agree on the recorded effects and on the kept conditions; other values become sets"
        groups = {}
        for s in states:
            kc = frozenset((k, d) for k, d in s.conds.items() if self.kept(k))
            # truth values held in variables stand for conditions tested later
            flags = frozenset((k, v) for k, v in s.frames[-1].items() if (live is None or k in live) and (v[0] in self.BOOLISH or v[0] == "const" and type(v[1]) is bool)) if s.frames else None
            groups.setdefault((s.events, s.ctrl, kc, len(s.frames), s.loops, flags), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1: out.append(g[0]); continue
            n = g[0].copy()
            n.facts = common_facts(g)
            for k in list(n.conds):
                d = n.conds[k]
                for s in g[1:]:
                    d2 = s.conds.get(k)
                    d = upper(d, d2) if d2 is not None and d is not None else None
                if d is None or is_top(k, d): del n.conds[k]
                else: n.conds[k] = d
            for fi in range(len(n.frames)):
                keys = set(n.frames[fi])
                for s in g[1:]: keys &= set(s.frames[fi])
                n.frames[fi] = {k: alt([s.frames[fi][k] for s in g]) for k in keys}
            keys = set()
            for s in g: keys |= set(s.heap)
            n.heap = {k: alt([s.heap.get(k, attr(*k)) for s in g]) for k in keys}
            keys = set(n.items)
            for s in g[1:]: keys &= set(s.items)
            n.items = {k: alt([s.items[k] for s in g]) for k in keys}
            keys = set()
            for s in g: keys |= set(s.ver)
            for k in keys:
                vs = {s.ver.get(k, 0) for s in g}
                if len(vs) == 1: n.ver[k] = vs.pop()
                else: n.ver[k] = ("J", tuple(sorted(map(repr, vs))))
            for s in g[1:]:
                for k, v in s.alloc.items(): n.alloc[k] = max(n.alloc.get(k, 0), v)
                for k, v in s.impure.items(): n.impure[k] = max(n.impure.get(k, 0), v)
            out.append(n)
        return out

    # ---- statements --------------------------------------------------------------------------------------
    def block(self, stmts, states, func):
        for s in stmts:
            nxt, done = [], []
            for st in states:
                if st.ctrl is not None: done.append(st)
                else: nxt.append(st)
            if not nxt: return done
            res = []
            for st in nxt:
                res += self.stmt(s, st, func)
            self.nstates += len(res)
            if len(res) > 1 and isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Expr, ast.Assign, ast.Assert, ast.AugAssign)):
                lv = self.live[func.node].after.get(id(s), None) if func.node in self.live else None
                res = self.merge(res, lv)
            states = done + res
        return states

    def where(self, node):
        f = self.stack[-1] if self.stack else None
        return (f.module.rel if f else "?", f.short if f else "?", getattr(node, "lineno", 0))

    def stmt(self, s, st, func):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise AnalysisBroken("unsupported statement %s in %s" % (type(s).__name__, func.qual))
        return m(s, st, func)
    def s_Pass(self, s, st, f): return [st]
    def s_Import(self, s, st, f): return [st]
    def s_ImportFrom(self, s, st, f): return [st]
    def s_Global(self, s, st, f):
        for n in s.names: st.env()["%g:"+n] = TRUE
        return [st]
    def s_Nonlocal(self, s, st, f): return [st]
    def s_Expr(self, s, st, f):
        if isinstance(s.value, ast.Constant): return [st]
        return [x for _, x in self.ev(s.value, st)]
    def s_FunctionDef(self, s, st, f):
        cid = ("clos", f.qual + "." + s.name, s.lineno)
        self.closures[cid] = (Func(f.module, s, f.cls, f), len(st.frames)-1)
        st.env()[s.name] = cid
        return [st]
    def s_ClassDef(self, s, st, f):
        st.env()[s.name] = ("unk", s.name); return [st]
    def s_Return(self, s, st, f):
        if s.value is None:
            st.ctrl = ("return", NONE); return [st]
        out = []
        for t, x in self.ev(s.value, st):
            if x.ctrl is None: x.ctrl = ("return", t)
            out.append(x)
        return out
    def s_Break(self, s, st, f): st.ctrl = ("break",); return [st]
    def s_Continue(self, s, st, f): st.ctrl = ("continue",); return [st]
    def s_Raise(self, s, st, f):
        if s.exc is None:
            st.ctrl = ("raise", st.env().get("%exc", ("exc", "?", ()))); return [st]
        out = []
        for t, x in self.ev(s.exc, st):
            if x.ctrl is None: x.ctrl = ("raise", self.to_exc(t))
            out.append(x)
        return out
    def to_exc(self, t):
        if t[0] == "new": return ("exc", t[1].split(".")[-1], t[2])
        if t[0] == "cls": return ("exc", t[1].split(".")[-1], ())
        if t[0] == "call": return ("exc", t[1].split(".")[-1], t[2])
        if t[0] == "ext": return ("exc", t[1].split(".")[-1], ())
        if t[0] == "exc": return t
        return ("exc", "?", (t,))
    def s_Assert(self, s, st, f):
        out = []
        for b, x in self.cond(s.test, st):
            if x.ctrl is None and not b: x.ctrl = ("raise", ("exc", "AssertionError", ()))
            out.append(x)
        return out
    def s_Delete(self, s, st, f):
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if isinstance(t, ast.Name): x.env().pop(t.id, None); nxt.append(x)
                elif isinstance(t, ast.Attribute):
                    for b, y in self.ev(t.value, x):
                        self.do_delattr(y, b, t.attr, t); nxt.append(y)
                elif isinstance(t, ast.Subscript):
                    for b, y in self.ev(t.value, x):
                        if isinstance(t.slice, ast.Slice):
                            self.mutated(y, b); self.event(y, Ev("mut", "delslice", b, (), where=self.where(t))); nxt.append(y); continue
                        for k, z in self.ev(t.slice, y):
                            if z.ctrl is None and is_const(k) and isinstance(k[1], int) and not isinstance(k[1], bool): nxt += [w for _, w in self.call_method(b, "pop", (k,), (), z, t)]
                            elif z.ctrl is None:
                                for w in self.key_guard(z, b, k): 
                                    if w.ctrl is None: self.do_remove(w, b, k, t, "delitem")
                                    nxt.append(w)
                            else: nxt.append(z)
            states = nxt
        return states
    def s_AnnAssign(self, s, st, f):
        if s.value is None: return [st]
        out = []
        for t, x in self.ev(s.value, st):
            if x.ctrl is None: out += self.assign(s.target, t, x)
            else: out.append(x)
        return out
    def keep_form(self, s):
        "X[:] = [v for v in X if c]  ->  for v in list(X): if not c: X.remove(v)"
        tg, v = s.targets[0], s.value
        if len(s.targets) != 1 or not isinstance(tg, ast.Subscript) or not isinstance(tg.slice, ast.Slice) or tg.slice.lower or tg.slice.upper: return None
        if not isinstance(v, ast.ListComp) or len(v.generators) != 1: return None
        g = v.generators[0]
        if not isinstance(g.target, ast.Name) or not isinstance(v.elt, ast.Name) or v.elt.id != g.target.id or not g.ifs: return None
        x = ast.unparse(tg.value)
        if ast.unparse(g.iter) not in (x, x + "[:]", "list(%s)" % x): return None
        key = ("keep", id(s))
        if key not in self._cha:
            cond = " and ".join("(%s)" % ast.unparse(c) for c in g.ifs)
            n = ast.parse("for %s in list(%s):\n  if not (%s): %s.remove(%s)" % (g.target.id, x, cond, x, g.target.id)).body[0]
            for q in ast.walk(n):
                if hasattr(q, "lineno"): q.lineno, q.end_lineno = s.lineno, s.lineno
            self._cha[key] = (s, n)
        return self._cha[key][1]
    def s_Assign(self, s, st, f):
        k = self.keep_form(s)
        if k is not None: return self.s_For(k, st, f)
        out = []
        for t, x in self.ev(s.value, st):
            if x.ctrl is not None: out.append(x); continue
            sts = [x]
            for tg in s.targets:
                nx = []
                for y in sts: nx += self.assign(tg, t, y) if y.ctrl is None else [y]
                sts = nx
            out += sts
        return out
    def s_AugAssign(self, s, st, f):
        import copy as _c
        load = _c.copy(s.target); load.ctx = ast.Load()
        out = []
        for cur, x in self.ev(load, st):
            if x.ctrl is not None: out.append(x); continue
            for v, y in self.ev(s.value, x):
                if y.ctrl is not None: out.append(y); continue
                if cur[0] == "attr" and cur[2] in LISTPROPS or v[0] == "attr" and v[2] in LISTPROPS and cur[0] != "seq" and not self.byteish(cur): listy = True
                else: listy = cur[0] == "obj" and cur[1] in ("list", "set", "dict") or (v[0] == "seq" and v[1] == "list" and not self.byteish(cur)) or (v[0] == "obj" and v[1] == "list")
                if isinstance(s.op, ast.Add) and listy:
                    if cur[:2] == ("seq", "list") and v[0] == "seq" and isinstance(s.target, ast.Name):
                        out += self.assign(s.target, ("seq", "list", tuple(cur[2]) + tuple(v[2])), y); continue
                    if v[0] == "seq":
                        for e in v[2]: self.do_add(y, cur, e, s, "append")
                    else: self.do_extend(y, cur, v, s)
                    out.append(y); continue
                r = self.binop(s.op, cur, v)
                out += self.assign(s.target, r, y)
        return out
    def assign(self, tg, t, st):
        if isinstance(tg, ast.Name):
            env = st.env()
            if "%g:"+tg.id in env:
                m = self.stack[-1].module.name
                st.heap[(("mod", m), tg.id)] = t
                self.event(st, Ev("setglobal", tg.id, ("mod", m), (t,), where=self.where(tg)))
            else:
                # closure assigning to own variable only
                env[tg.id] = t
            return [st]
        if isinstance(tg, (ast.Tuple, ast.List)):
            parts = self.parts(t, len(tg.elts))
            sts = [st]
            for e, p in zip(tg.elts, parts):
                nx = []
                for x in sts: nx += self.assign(e, p, x)
                sts = nx
            return sts
        if isinstance(tg, ast.Attribute):
            out = []
            for b, x in self.ev(tg.value, st):
                if x.ctrl is None: self.do_setattr(x, b, tg.attr, t, tg)
                out.append(x)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for b, x in self.ev(tg.value, st):
                if x.ctrl is not None: out.append(x); continue
                if isinstance(tg.slice, ast.Slice):
                    got = self.filtered(t, x) if t[0] == "obj" and tg.slice.lower is None and tg.slice.upper is None else None
                    c = strip_copy(b)
                    if got and strip_copy(got[0].it) == c and all(v == ("elem", c) for _, v in got[1]):   # keeps some elements: the others are removed
                        self.mutated(x, c)
                        gone = Ev("mut", "remove", c, (("elem", c),), where=self.where(tg))
                        L = LoopInfo(got[0].it, [Edge(ed.conds, (), None, 0, 0) for ed, _ in got[1]] + [Edge(ed.conds, (gone,), None, 0, 0) for ed in got[2]], None, True, "copy")
                        self.event(x, Ev("loop", None, got[0].it, loop=L, where=self.where(tg)))
                        out.append(x); continue
                    self.mutated(x, b); self.event(x, Ev("mut", "setslice", b, (t,), where=self.where(tg))); out.append(x); continue
                for k, y in self.ev(tg.slice, x):
                    if y.ctrl is None: self.do_setitem(y, b, k, t, tg)
                    out.append(y)
            return out
        if isinstance(tg, ast.Starred): return self.assign(tg.value, t, st)
        raise AnalysisBroken("unsupported assignment target")
    def parts(self, t, n):
        if t[0] == "seq" and len(t[2]) == n: return list(t[2])
        if t[0] == "copy" and t[1][0] == "seq": return self.parts(t[1], n)
        return [item(t, const(i)) for i in range(n)]
    def s_If(self, s, st, f):
        out = []
        tr, fa = [], []
        for b, x in self.cond(s.test, st):
            if x.ctrl is not None: out.append(x)
            elif b: tr.append(x)
            else: fa.append(x)
        if tr: out += self.block(s.body, self.merge(tr, None), f)
        if fa: out += self.block(s.orelse, self.merge(fa, None), f) if s.orelse else fa
        return out
    def s_With(self, s, st, f):
        states, ctxs = [st], []
        for it in s.items:
            nx = []
            for x in states:
                for t, y in self.ev(it.context_expr, x):
                    if y.ctrl is None:
                        self.event(y, Ev("enter", None, t, where=self.where(s)))
                        y.env()["%%with%d.%d" % (s.lineno, len(ctxs))] = t
                        nx += self.assign(it.optional_vars, ("ret", "enter", (t,), ()), y) if it.optional_vars else [y]
                    else: nx.append(y)
            states = nx; ctxs.append(it)
        out = []
        ok = [x for x in states if x.ctrl is None]
        out += [x for x in states if x.ctrl is not None]
        self.trys.append(("finally", None))
        res = self.block(s.body, ok, f)
        self.trys.pop()
        for x in res:
            for i in reversed(range(len(ctxs))):
                t = x.env().pop("%%with%d.%d" % (s.lineno, i), None)
                if t is not None: self.event(x, Ev("exit", None, t, where=self.where(s)))
            out.append(x)
        return out
    def s_Try(self, s, st, f):
        names = []
        for h in s.handlers: names.append(self.exc_names(h.type, f))
        self.trys.append(("try", names) if s.handlers else ("finally", None))
        res = self.block(s.body, [st], f)
        self.trys.pop()
        after = []
        for x in res:
            if x.ctrl is not None and x.ctrl[0] == "raise" and s.handlers:
                after += self.handle(s, x, names, f)
            elif x.ctrl is None and s.orelse:
                after += self.block(s.orelse, [x], f)
            else: after.append(x)
        after = self.merge(after, None)
        if not s.finalbody: return after
        out = []
        for x in after:
            saved, x.ctrl = x.ctrl, None
            for y in self.block(s.finalbody, [x], f):
                if y.ctrl is None: y.ctrl = saved
                out.append(y)
        return out
    def exc_names(self, t, f):
        if t is None: return None
        if isinstance(t, ast.Tuple): 
            out = []
            for e in t.elts:
                r = self.exc_names(e, f)
                if r is None: return None
                out += r
            return out
        r = f.module.resolve_expr(t)
        if isinstance(r, Class): n = r.name
        elif isinstance(t, ast.Attribute): n = t.attr
        else: n = ast.unparse(t)
        return None if n == "BaseException" else [n]
    HIER = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "UnicodeDecodeError": ["ValueError", "UnicodeError"], "UnicodeEncodeError": ["ValueError","UnicodeError"],
            "ConnectionError": ["OSError"], "ConnectionResetError": ["OSError", "ConnectionError"], "timeout": ["OSError"], "TimeoutError": ["OSError"], "NotImplementedError": ["RuntimeError"]}
    def exc_bases(self, name):
        out = [name]
        for m in self.P.modules.values():
            c = m.classes.get(name)
            if c is not None:
                out += c.base_names(); break
        out += self.HIER.get(name, [])
        if name not in ("KeyboardInterrupt", "SystemExit"): out.append("Exception")
        return out
    def handle(self, s, x, names, f):
        exc = x.ctrl[1]
        out = []
        ename = exc[1]
        remaining = [x]
        for h, ns in zip(s.handlers, names):
            nxt = []
            for y in remaining:
                if ns is None: m = True
                elif ename == "?": m = None if "Exception" not in ns else True
                else: m = any(n in self.exc_bases(ename) for n in ns)
                if m is False: nxt.append(y); continue
                if m is None: nxt.append(y.copy())
                z = y.copy() if m is None else y
                z.ctrl = None
                z.env()["%exc"] = exc if ename != "?" or ns is None else ("exc", ns[0], exc[2])
                if h.name: z.env()[h.name] = z.env()["%exc"]
                sv = self.block(h.body, [z], f)
                for w in sv:
                    w.env().pop("%exc", None)
                    out.append(w)
            remaining = nxt
        return out + remaining
    def in_try(self): return bool(self.trys)
    def catches(self, name):
        "is there an enclosing handler that names this exception class explicitly (or a base of it)?"
        for kind, names in reversed(self.trys):
            if kind != "try": continue
            for ns in names:
                if ns is not None and any(n in self.exc_bases(name) and n != "Exception" for n in ns): return True
        return False

    # ---- loops -------------------------------------------------------------------------------------------
    def iter_sources(self, it, st):
        """how to iterate over `it`: list of (element term, extra conds, base iterable)"""
        it0 = it
        it = strip_copy(it)
        if it[0] == "call" and it[1] in ("list", "tuple", "sorted", "set", "iter", "frozenset") and len(it[2]) == 1: return self.iter_sources(it[2][0], st)
        if it[0] == "reversed": return self.iter_sources(it[1], st)
        if it[:2] == ("call", "range") and not it[3] and all(is_const(a) and type(a[1]) is int for a in it[2]) and 0 < len(range(*[a[1] for a in it[2]])) <= 8:
            return [(const(i), {}, it) for i in range(*[a[1] for a in it[2]])], "seq"
        if it[0] == "seq" and len(it[2]) <= 4 and it[2]: return [(e, {}, it) for e in it[2]], "seq"
        if it[0] in ("values", "items") and strip_copy(it[1])[0] == "obj":
            d = strip_copy(it[1]); srcs = self.obj_sources(d, st, True)
            if srcs is not None:
                return [((item(d, k) if it[0] == "values" else ("seq", "tuple", (k, item(d, k)))), c, o) for k, c, o in srcs], "fused"
        if it[0] == "values":
            d = it[1]; return [(item(d, self.elem(d, st)), {}, d)], "for"
        if it[0] == "items":
            d = it[1]; e = self.elem(d, st); return [(("seq", "tuple", (e, item(d, e))), {}, d)], "for"
        if it[0] == "call" and it[1] == "enumerate":
            src, kind = self.iter_sources(it[2][0], st)
            base = strip_copy(it[2][0])
            start = it[2][1] if len(it[2]) > 1 else const(0)
            return [(("seq", "tuple", (add(self.idx(b if kind != "fused" else base, st), start), e)), c, b) for e, c, b in src], "for"
        if it[0] == "call" and it[1] == "zip":
            base = strip_copy(it[2][0]); ix = self.idx(base, st)
            els = []
            for k, a in enumerate(it[2]):
                a = strip_copy(a)
                els.append(self.elem(a, st) if a == base else item(a, ix))
            return [(("seq", "tuple", tuple(els)), {}, base)], "for"
        if it[0] == "call" and it[1] == "range" and len(it[2]) == 1 and it[2][0][0] == "len":
            base = strip_copy(it[2][0][1]); return [(self.idx(base, st), {}, base)], "for"
        if it[0] == "call" and it[1] == "range" and len(it[2]) == 2 and it[2][1][0] == "len" and it[2][0] == const(0):
            base = strip_copy(it[2][1][1]); return [(self.idx(base, st), {}, base)], "for"
        if it[0] == "obj":
            srcs = self.obj_sources(it, st, True)
            if srcs is not None: return srcs, "fused"
        return [(self.elem(it, st), {}, it)], "for"
    def depth_of(self, it, st): return sum(1 for x in st.loops if x == it)
    def elem(self, it, st):
        d = self.depth_of(it, st); return ("elem", it) if d == 0 else ("elem", it, d)
    def idx(self, it, st):
        d = self.depth_of(it, st); return ("idx", it) if d == 0 else ("idx", it, d)
    def deeper(self, src, st, at):
        "what a local list holds stems from loops over these containers; inside such a loop the elements are others than the current one"
        v, conds, o = src
        m = {}
        for t in set(subterms(v)) | {x for k in conds for x in subterms(k[1])}:
            if t[0] in ("elem", "idx") and len(t) == 2:
                d = sum(1 for x, mk in zip(st.loops, st.marks) if x == strip_copy(t[1]) and at < mk)
                if d: m[t] = (t[0], t[1], d)
        if not m: return src
        return subst(v, m), {(k[0], subst(k[1], m)): d for k, d in conds.items()}, o
    def bases_of(self, srcs, base):
        return tuple(sorted({strip_copy(t[1]) for v, _, _ in srcs for t in subterms(v) if t[0] == "elem"} - {base}, key=repr))
    def obj_sources(self, o, st, deepen=False):
        "elements a local list/set may hold, from the recorded additions: [(value, conds, obj)], or None if unknown"
        out, bad, at = [], [False], [0]
        def go(evs, conds, top=False):
            for i, e in enumerate(evs):
                if top: at[0] = i
                if e.kind == "mut" and e.base == o:
                    if e.name in ("append", "add"):
                        out.append((e.args[0], conds, o, at[0]))
                    elif e.name == "extend":
                        r = strip_copy(e.args[0])
                        if r[0] == "obj":
                            sub = self.obj_sources(r, st, deepen)
                            if sub is None: bad[0] = True
                            else: out.extend((v, {**conds, **c}, o, at[0]) for v, c, _ in sub)
                        else: out.append((("elem", r), conds, o, at[0]))
                    elif e.name in ("clear",): out.clear()
                    elif e.name == "setdefault" and o[1] == "dict": out.append((e.args[0], conds, o, at[0]))
                    elif e.name in ("remove", "discard", "pop", "sort", "reverse"): pass
                    else: bad[0] = True
                elif e.kind == "setitem" and e.base == o:
                    out.append((e.args[0] if o[1] == "dict" else e.args[1], conds, o, at[0]))
                elif e.kind == "loop":
                    for ed in dict.fromkeys(e.loop.edges + ((e.loop.final,) if e.loop.final else ())):
                        go(ed.events, {**conds, **ed.conds})
        go(st.past + st.events, {}, True)
        if bad[0] or not out and st.ver.get(o): return None
        if o[1] not in ("list", "set", "dict", "gen"): return None
        seen, res = set(), []
        for v, c, b, i in out:
            if deepen: v, c, b = self.deeper((v, c, b), st, i)
            k = (v, frozenset(c.items()))
            if k not in seen: seen.add(k); res.append((v, c, b))
        return res if len(res) <= 8 else None

    def filtered(self, o, st):
        "a local list filled by one loop only: (that loop, [(edge, value kept)], [edges that keep nothing])"
        def touches(evs): return any(e.kind in ("mut", "setitem") and e.base == o for e in self.flat_events(evs))
        hit = [e for e in st.events if touches((e,))]
        if len(hit) != 1 or hit[0].kind != "loop" or hit[0].loop.final is not None: return None
        keep, drop = [], []
        for ed in hit[0].loop.edges:
            if ed.ctrl is not None and ed.ctrl[0] != "continue": return None
            if any(e.kind == "loop" and touches((e,)) for e in ed.events): return None
            adds = [e for e in ed.events if e.kind in ("mut", "setitem") and e.base == o]
            if len(adds) > 1 or adds and (adds[0].kind != "mut" or adds[0].name not in ("append", "add")): return None
            if adds: keep.append((ed, adds[0].args[0]))
            else: drop.append(ed)
        return hit[0].loop, keep, drop
    def s_For(self, s, st, f):
        out = []
        for it, x in self.ev(s.iter, st):
            if x.ctrl is not None: out.append(x); continue
            out += self.loop(s, x, f, it, lambda t, y: self.assign(s.target, t, y), s.body, s.orelse, None, s.target)
        return out
    def s_While(self, s, st, f):
        # while i < len(X) with an index: for over X
        it = ("call", "while", (), ())
        return self.loop(s, st, f, it, None, s.body, s.orelse, s.test, None)

    def unrolled_while(self, s, st, f, body, orelse, test, rounds):
        states, out = [st], []
        for i in range(rounds + 1):
            nx = []
            for y in states:
                for bv, z in self.cond(test, y):
                    if z.ctrl is not None: out.append(z)
                    elif not bv: out += self.block(orelse, [z], f) if orelse else [z]
                    elif i == rounds: z.ctrl = ("raise", ("exc", "%beyond", ())); out.append(z)
                    else:
                        for r in self.block(body, [z], f):
                            if r.ctrl is None or r.ctrl[0] == "continue": r.ctrl = None; nx.append(r)
                            else:
                                if r.ctrl[0] == "break": r.ctrl = None
                                out.append(r)
            states = self.merge(nx, None) if len(nx) > 1 else nx
        return out
    def loop(self, s, st, f, it, bind, body, orelse, test, target):
        if self.unroll and f.short.split(".")[-1] in self.unroll:
            rounds = self.unroll[f.short.split(".")[-1]]
            if test is not None: return self.unrolled_while(s, st, f, body, orelse, test, rounds)
            r = strip_copy(it)
            if r[:2] == ("call", "range") and all(is_const(a) and isinstance(a[1], int) for a in r[2]) and len(range(*[a[1] for a in r[2]])) <= 3 * rounds:
                return self.unrolled(s, st, f, [(const(i), {}, None) for i in range(*[a[1] for a in r[2]])], bind, body, orelse)
        live = self.live[f.node].head.get(id(s)) if f.node in self.live else None
        if live is not None: live = live | {"%comp"}
        tgt = stored(target) if target is not None else set()
        outer_conds, outer_events = dict(st.conds), st.events
        lid = (f.qual, getattr(s, "lineno", 0) and self.loop_ordinal(s, f))
        extra_bases = ()
        entry = st.copy(); entry.events = (); entry.past = st.past + st.events
        base = strip_copy(it)
        if test is None:
            srcs, kind = self.iter_sources(it, st)
            picked = self.filtered(strip_copy(it), st) if kind == "fused" else None
            if kind == "seq":
                return self.unrolled(s, st, f, srcs, bind, body, orelse)
            base = srcs[0][2] if srcs else base
            if kind == "fused": extra_bases = self.bases_of(srcs, base)
            if not srcs:   # known to be empty
                return self.block(orelse, [st], f) if orelse else [st]
            itname = strip_copy(it)
        else:
            picked = None
            srcs, kind, itname = [(None, {}, None)], "while", ("call", "while", (), ())
        idxterm = ("idx", base, self.depth_of(base, st)) if self.depth_of(base, st) else ("idx", base)
        if test is not None: idxterm = ("idx", ("call", "while", (const(lid[1] or 0),), ()))
        def head_key(x):
            env = {k: v for k, v in x.frames[-1].items() if (live is None or k in live or k.startswith("%")) and k not in tgt}
            ver = frozenset((c, n) for c, n in x.ver.items() if c[0] != "obj")
            ver = (ver, frozenset((o, x.facts.get(("v", self.verterm(x, o)))) for o in x.alloc_objs()))
            return (tuple(frozenset(fr.items()) for fr in x.frames[:-1]), frozenset(env.items()), frozenset(x.heap.items()), frozenset(x.items.items()), ver)
        def canon(x, y0):
            "prepare a state at the end of an iteration as a new loop head"
            n = x.copy()
            n.ctrl, n.events, n.loops = None, (), st.loops
            n.conds = dict(outer_conds)
            truth = {}
            for c, v in list(n.ver.items()):
                if v != st.ver.get(c, 0):
                    fact = n.facts.get(("v", self.verterm(n, c)))
                    n.ver[c] = ("L",) + lid
                    if fact is not None and c[0] == "obj": truth[("v", self.verterm(n, c))] = fact
                    for k in [k for k in n.items if k[0] == c]: del n.items[k]
            n.facts = {k: d for k, d in st.facts.items()}
            n.facts.update(truth)
            for k in list(n.frames[-1]):
                if k in tgt or (live is not None and k not in live and not k.startswith("%")): del n.frames[-1][k]
            # objects allocated in the body that nothing at the loop head refers to any more
            def inner(t): return t[0] == "new" and t[4] > st.alloc.get(t[1], 0) or t[0] == "obj" and isinstance(t[2], int) and t[2] > st.alloc.get(t[1], 0)
            held = set()
            for fr in n.frames:
                for v in fr.values(): held.update(t for t in subterms(v) if inner(t))
            for (b, a), v in n.heap.items():
                if not any(inner(t) for t in subterms(b)): held.update(t for t in subterms(v) if inner(t))
            for k in list(n.heap):
                if any(inner(t) and t not in held for t in subterms(k[0])): del n.heap[k]
            # what is known about one element (or one popped value) says nothing about the next
            def local(t): return t[0] == "ver" and t[2] == ("L",) + lid or t[0] in ("elem", "idx") and strip_copy(t[1]) == base and len(t) == len(self.elem(base, st))
            for k in list(n.heap):
                if k[0][0] != "mod" and any(local(t) for t in subterms(k[0])): del n.heap[k]
            for k in list(n.items):
                if any(local(t) for t in subterms(k[0])) or any(local(t) for t in subterms(k[1])): del n.items[k]
            for k in list(n.ver):
                if any(local(t) for t in subterms(k)): del n.ver[k]
            for k in list(n.ver):
                if inner(k) and k not in held: del n.ver[k]
            for k in list(n.facts):
                if any(inner(t) and t not in held for t in subterms(k[1])): del n.facts[k]
            n.alloc, n.impure = dict(st.alloc), dict(st.impure)
            return n
        # induction variables
        induct = {}
        def run_from(h):
            res = []
            for el, extra, b in srcs:
                y = h.copy()
                y.loops = st.loops + ((base,) + extra_bases if test is None else ())
                y.marks = st.marks + (len(st.past) + len(st.events),) * (len(y.loops) - len(st.loops))
                if test is None:
                    ok = True
                    for k, d in extra.items():
                        if not self.restrict(y, k, d): ok = False; break
                    if not ok: continue
                    for z in bind(el, y): res += self.block(body, [z], f)
                else:
                    for bval, z in self.cond(test, y):
                        if z.ctrl is not None: res.append(z)
                        elif bval: res += self.block(body, [z], f)
            return res
        probe = [x for x in run_from(entry.copy()) if x.ctrl is None or x.ctrl[0] == "continue"]
        cand = {}
        for fi, fr in enumerate(entry.frames):
            for k, v0 in fr.items():
                if k in tgt or k.startswith("%"): continue
                vals = {x.frames[fi].get(k) for x in probe}
                if len(vals) == 1 and None not in vals:
                    d = add(list(vals)[0], v0, -1)
                    if is_const(v0) and isinstance(v0[1], bool): continue
                    if is_const(d) and d[1] != 0 and isinstance(d[1], (int,)) and (is_const(v0) and isinstance(v0[1], int) or v0[0] in ("lin","attr","param")) and not self.byteish(v0):
                        cand[(fi, k)] = (v0, d[1])
        # a while loop guarded by  i < len(X)  iterates over X
        if test is not None and cand and len([1 for c in cand]) >= 1:
            for (fi, k), (v0, d) in cand.items():
                if fi == len(entry.frames)-1 and v0 == const(0) and d == 1:
                    X = self.while_over(test, k, entry, f)
                    if X is not None:
                        base = strip_copy(X); idxterm = self.idx(base, st); itname = base
        for (fi, k), (v0, d) in cand.items():
            if not self.induction and itname == ("call", "while", (), ()): continue
            induct[(fi, k)] = add(v0, scale(idxterm, d))
        h0 = entry.copy()
        for (fi, k), v in induct.items(): h0.frames[fi][k] = v
        # what the body changes has, at the head, its current (not its initial) version
        for x in probe:
            for c, v in x.ver.items():
                if c[0] != "obj" and v != entry.ver.get(c, 0) and c not in induct:
                    h0.ver[c] = ("L",) + lid
                    for k in [k for k in h0.items if k[0] == c]: del h0.items[k]
            for k, v in x.heap.items():
                v0 = entry.heap.get(k, attr(*k))
                if v != v0 and self.counterish(v, v0, entry.heap.get(k)): h0.heap[k] = ("ver", attr(*k), ("L",) + lid)
            for fi, fr in enumerate(entry.frames):
                for k, v0 in fr.items():
                    v = x.frames[fi].get(k)
                    if v is not None and (fi, k) not in induct and k not in tgt and v != v0 and not k.startswith("%") and self.counterish(v, v0, v0):
                        h0.frames[fi][k] = ("acc", lid[0], lid[1], k)
        h0 = canon(h0, h0) if test is None and False else h0
        heads, keys, edges, seen_edges = [h0], {head_key(h0): 0}, [], set()
        live_iter = test is not None or it[0] not in ("copy", "obj", "seq", "slice") and not (it[0] == "call" and it[1] in ("list", "tuple", "sorted", "set", "frozenset"))
        exits, steps = [], []         # (state, edge, src)
        init = {k: v for fr in entry.frames for k, v in fr.items()}
        init.update({("attr",) + k: v for k, v in entry.heap.items()})
        work = [0]
        joined_loops = st.loops + (base,)
        while work:
            i = work.pop(0)
            h = heads[i]
            res = run_from(h)
            res = self.merge(res, None) if len(res) > 1 else res
            for x in res:
                delta = {k: d for k, d in x.conds.items() if outer_conds.get(k) != d}
                steps.append(self.step_of(h, x, i, delta))
                if x.ctrl is None or x.ctrl[0] == "continue":
                    n = canon(x, h)
                    for (fi, k), v in induct.items(): n.frames[fi][k] = v
                    for k, v in h0.heap.items():
                        if v[0] == "ver" and v[2] == ("L",) + lid and k in n.heap: n.heap[k] = v
                    for fi, fr in enumerate(h0.frames):
                        for k, v in fr.items():
                            if v == ("acc", lid[0], lid[1], k) and k in n.frames[fi]: n.frames[fi][k] = v
                    kk = head_key(n)
                    if kk not in keys and len(heads) >= 2: n = self.widen(n, heads, lid); kk = head_key(n)
                    if kk not in keys:
                        if len(heads) >= 14:
                            n = self.havoc(n, heads, lid); kk = head_key(n)
                        if kk not in keys:
                            keys[kk] = len(heads); heads.append(n); work.append(keys[kk])
                    e = Edge(delta, x.events, None, i, keys[kk])
                    if (e, i, keys[kk]) in seen_edges: continue
                    seen_edges.add((e, i, keys[kk])); edges.append(e)
                else:
                    e = Edge(delta, x.events, x.ctrl, i, None)
                    edges.append(e); exits.append((x, e, i))
                if len(edges) > 2000: raise AnalysisBroken("loop too complex in %s" % f.qual)
        # reachability between heads
        n = len(heads)
        reach = [[i == j for j in range(n)] for i in range(n)]
        adj = [set() for _ in range(n)]
        for e in edges:
            if e.dst is not None: adj[e.src].add(e.dst)
        for i in range(n):
            seen, stk = {i}, [i]
            while stk:
                a = stk.pop()
                for b2 in adj[a]:
                    if b2 not in seen: seen.add(b2); stk.append(b2)
            for j in seen: reach[i][j] = True
        def edges_to(j):
            return [e for e in edges if e.dst is not None and reach[0][e.src] and reach[e.dst][j]]
        elemish = (("elem",), ("idx",))
        def about_elem(k, vers=True):
            return any(t[0] in ("elem", "idx") and strip_copy(t[1]) == base for t in subterms(k[1])) or vers and any(t[0] == "ver" and isinstance(t[2], tuple) and t[2][:1] == ("L",) for t in subterms(k[1]))
        out = []
        def finish(x, es, final, zero, conds):
            y = x.copy()
            y.loops, y.past, y.marks = st.loops, st.past, st.marks
            y.conds = conds
            sig = [e for e in es if e.events or e.ctrl]
            y.events = outer_events
            if es or final:
                uniq = list(dict.fromkeys(es))
                if picked: uniq += [Edge(ed.conds, (), None, 0, 0) for ed in picked[2]]
                if any(e.events for e in uniq) or (final and (final.events)) or True:
                    has = self.every_loop or any(e.events for e in uniq) or bool(final and final.events)
                    if not has and final and final.ctrl and test is None:   # a search whose result is used
                        of_elem = lambda t: any(q[0] == "elem" and strip_copy(q[1]) == base for q in subterms(t))
                        has = final.ctrl[0] == "return" and of_elem(final.ctrl[1]) or final.ctrl[0] == "break" and any(of_elem(v) for k, v in x.frames[-1].items() if live is None or k in live or k.startswith("%"))
                    if has:
                        y.events = outer_events + (Ev("loop", None, itname if not picked else picked[0].it, loop=LoopInfo(itname if not picked else picked[0].it, uniq, final, zero, ('while' if test is not None else 'live') if live_iter else 'copy', over=strip_copy(it) if test is None else None, steps=steps, init=init), where=self.where(s)),)
                        y.events[-1].loop.inorder = test is not None or in_order(it)
            y.alloc = dict(st.alloc)
            for c, v in x.alloc.items(): y.alloc[c] = max(y.alloc.get(c, 0), v)
            return y
        for j, h in enumerate(heads):
            es = edges_to(j)
            if j == 0 and not es and test is None and self.nonempty is not None and self.nonempty(base): continue
            y = finish(h, es, None, j == 0, dict(outer_conds))
            for e in es:
                # objects allocated in the body keep their numbers distinct from later ones
                pass
            y.alloc = self.bump_alloc(st.alloc, edges)
            y.impure = self.bump_impure(st.impure, edges)
            if j == 0 and not es: y.ver, y.heap, y.frames = dict(st.ver), dict(st.heap), [dict(fr) for fr in st.frames]
            sts = [y]
            if test is not None:
                sts = []
                for bval, z in self.cond(test, y):
                    if z.ctrl is not None or not bval: sts.append(z)
            for z in sts:
                if z.ctrl is None and orelse: out += self.block(orelse, [z], f)
                else: out.append(z)
        for x, e, i in exits:
            es = edges_to(i)
            conds = {k: d for k, d in x.conds.items() if not about_elem(k, test is None or x.ctrl[0] != "break")}
            y = finish(x, es, e, False, conds)
            if x.ctrl[0] == "break": y.ctrl = None
            out.append(y)
        return out
    def step_of(self, h, x, src, conds):
        "one pass through a loop body: (conditions, events, how it ends, {variable: (value before, value after)}, which head)"
        upd = {}
        for a, b in zip(h.frames, x.frames):
            for k, v in b.items():
                if a.get(k) != v: upd[k] = (a.get(k), v)
        for k, v in x.heap.items():
            if h.heap.get(k) != v: upd[("attr",) + k] = (h.heap.get(k, attr(*k)), v)
        return conds, x.events, x.ctrl, upd, src
    def flat_events(self, evs):
        for e in evs:
            yield e
            if e.kind == "loop":
                for ed in e.loop.edges + ((e.loop.final,) if e.loop.final else ()):
                    yield from self.flat_events(ed.events)
    def bump_alloc(self, alloc, edges):
        out = dict(alloc)
        for e in edges:
            for ev in self.flat_events(e.events):
                for t in (ev.args + ((ev.base,) if ev.base else ()) + ((ev.ret,) if ev.ret else ()) + tuple(v for _, v in ev.kw)):
                    for x in subterms(t):
                        if x[0] == "new": out[x[1]] = max(out.get(x[1], 0), x[4])
                        elif x[0] == "obj" and isinstance(x[2], int): out[x[1]] = max(out.get(x[1], 0), x[2])
        return out
    def bump_impure(self, imp, edges):
        out = dict(imp)
        for e in edges:
            for ev in self.flat_events(e.events):
                if ev.kind == "call": out[ev.name] = out.get(ev.name, 0) + 1
        return out
    def loop_ordinal(self, s, f):
        k = ("ord", f.qual)
        tab = self._cha.setdefault(k, {})
        return tab.setdefault(id(s), len(tab) + 1)
    def while_over(self, test, var, st, f):
        for n in ast.walk(test):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, op, b = n.left, n.ops[0], n.comparators[0]
                if isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(a, ast.Name) and a.id == var: rhs = b
                elif isinstance(op, ast.Gt) and isinstance(b, ast.Name) and b.id == var: rhs = a
                else: continue
                r = self.ev(rhs, st.copy())
                if len(r) == 1 and r[0][0][0] == "len": return r[0][0][1]
        return None
    def widen(self, n, heads, lid):
        "values that embed their own previous value grow without bound: replace them"
        prev = heads[-1]
        for fi, fr in enumerate(n.frames):
            for k, v in list(fr.items()):
                for h in heads[1:]:
                    pv = h.frames[fi].get(k) if fi < len(h.frames) else None
                    if pv is not None and pv != v and not is_const(pv) and (mentions(v, pv) or self.grown(v, pv)):
                        fr[k] = ("acc", lid[0], lid[1], k)
                        break
                p0 = heads[0].frames[fi].get(k) if fi < len(heads[0].frames) else None
                if is_const(v) and isinstance(v[1], (int, float)) and not isinstance(v[1], bool) and len(heads) > 4 and p0 is not None and p0 != v:
                    fr[k] = ("acc", lid[0], lid[1], k)
        for k, v in list(n.heap.items()):
            for h in heads[1:]:
                pv = h.heap.get(k)
                if pv is not None and pv != v and not is_const(pv) and (mentions(v, pv) or self.grown(v, pv)):
                    n.heap[k] = ("acc", lid[0], lid[1], repr(k)); break
        return n
    def counterish(self, v, v0, known):
        "a number that the loop body steps: widened at once"
        if is_const(v) and isinstance(v[1], bool) or is_const(v0) and isinstance(v0[1], bool): return False
        if self.byteish(v) or self.byteish(v0): return False
        d = add(v, v0, -1)
        if is_const(d) and isinstance(d[1], (int, float)) and d[1] != 0 and not (is_const(v) and is_const(v0)): return True
        if v[0] in ("lin", "op") and v0[0] in ("attr", "ver", "acc", "lin", "param") and mentions(v, v0): return True
        if is_const(v) and is_const(v0) and isinstance(v[1], int) and isinstance(v0[1], int): return True
        return is_const(v) and isinstance(v[1], int) and known is None and v0[0] == "attr" and v0[2] in NONNEG
    def grown(self, v, pv):
        if v[0] == "lin" and pv[0] == "lin": return all(any(t == t2 for t2, _ in v[2]) for t, _ in pv[2])
        if v[0] == "lin": return any(t == pv for t, _ in v[2])
        if v[0] == "cat": return pv[0] == "cat" and v[1][:len(pv[1])] == pv[1] or v[1][0] == pv
        return len(repr(v)) > 3000
    def havoc(self, n, heads, lid):
        h0 = heads[0]
        for fi, fr in enumerate(n.frames):
            for k, v in list(fr.items()):
                if h0.frames[fi].get(k) != v: fr[k] = ("acc", lid[0], lid[1], k)
        for k, v in list(n.heap.items()):
            if h0.heap.get(k) != v: n.heap[k] = ("acc", lid[0], lid[1], repr(k))
        for k in list(n.items):
            if k not in h0.items: del n.items[k]
        return n
    def unrolled(self, s, st, f, srcs, bind, body, orelse):
        states, out = [st], []
        for el, extra, b in srcs:
            nx = []
            for x in states:
                for z in bind(el, x):
                    for y in self.block(body, [z], f):
                        if y.ctrl is None: nx.append(y)
                        elif y.ctrl[0] == "continue": y.ctrl = None; nx.append(y)
                        elif y.ctrl[0] == "break": y.ctrl = None; y.env()["%broke"] = TRUE; out.append(y)
                        else: out.append(y)
            states = self.merge(nx, None)
        for y in out: y.env().pop("%broke", None)
        if orelse: states = self.block(orelse, states, f)
        return out + states

    # ---- effects -----------------------------------------------------------------------------------------
    def event(self, st, e):
        if self.focus is None or e.kind == "loop" or self.quantified and e.kind == "mut" and e.base[0] == "obj" or self.focus(e): st.events = st.events + (e,)
    def verterm(self, st, c):
        c = strip_copy(c)
        n = st.ver.get(c, 0)
        return ("ver", c, n) if n else c
    def mutated(self, st, c):
        c = strip_copy(c)
        n = st.ver.get(c, 0)
        st.ver[c] = (n + 1) if isinstance(n, int) else n + (1,)
    def do_setattr(self, st, b, n, v, node):
        b = strip_copy(b)
        st.heap[(b, n)] = v
        if n in FINITE and is_const(v) and isinstance(v[1], bool): pass
        self.event(st, Ev("setattr", n, b, (v,), where=self.where(node)))
    def do_delattr(self, st, b, n, node):
        st.heap[(b, n)] = ("deleted",)
        self.event(st, Ev("delattr", n, b, where=self.where(node)))
    def do_setitem(self, st, b, k, v, node):
        b = strip_copy(b)
        old = self.verterm(st, b)
        self.mutated(st, b)
        self.carry(st, b, old, True)
        st.items[(b, k)] = v
        self.note_added(st, b, k)
        self.event(st, Ev("setitem", None, b, (k, v), where=self.where(node)))
    def do_add(self, st, c, v, node, how):
        c = strip_copy(c)
        old = self.verterm(st, c)
        self.mutated(st, c)
        self.carry(st, c, old, True)
        self.note_added(st, c, v)
        self.event(st, Ev("mut", how, c, (v,), where=self.where(node)))
    def note_added(self, st, c, v):
        st.facts[("b", ("in", v, self.verterm(st, c)))] = YES
        st.facts[("v", self.verterm(st, c))] = Val(None, "T")
    def carry(self, st, c, old, adding):
        "membership facts that survive an addition (a removal): members stay members (non-members stay out)"
        new = self.verterm(st, c)
        for tab in (st.conds, st.facts):
            for k, d in list(tab.items()):
                if k[0] == "b" and k[1][0] == "in" and k[1][2] == old and d == (YES if adding else NO):
                    st.facts[("b", ("in", k[1][1], new))] = d
    def do_extend(self, st, c, v, node):
        c = strip_copy(c)
        old = self.verterm(st, c)
        self.mutated(st, c)
        self.carry(st, c, old, True)
        self.event(st, Ev("mut", "extend", c, (v,), where=self.where(node)))
    def do_remove(self, st, c, k, node, how):
        c = strip_copy(c)
        if k[0] == "idx":
            x = strip_copy(k[1])
            if x == c or x[0] == "ver" and x[1] == c: k, how = ("elem", c) + k[2:], "remove"    # c[i] while i goes through c
        old = self.verterm(st, c)
        self.mutated(st, c)
        self.carry(st, c, old, False)
        st.items.pop((c, k), None)
        if how in ("delitem", "discard"): st.facts[("b", ("in", k, self.verterm(st, c)))] = NO
        self.event(st, Ev("mut", "remove" if how != "delitem" else "delitem", c, (k,), where=self.where(node)))
    def key_guard(self, st, b, k):
        "subscript inside a try that names KeyError/IndexError: split on presence"
        if self.trys and (self.catches("KeyError")) and not (is_const(k) and isinstance(k[1], int)):
            out = []
            for bval, y in self.assume2(st, ("in", k, strip_copy(b))):
                if not bval: y.ctrl = ("raise", ("exc", "KeyError", (k,)))
                out.append(y)
            return out
        return [st]

    # ---- conditions --------------------------------------------------------------------------------------
    def restrict(self, st, key, d):
        cur = st.conds.get(key)
        if cur is None: cur = top_of(key)
        n = cur.meet(d)
        if n.empty(): return False
        if key[0] == "v" and key[1][0] != "len":
            pass
        if is_top(key, n): st.conds.pop(key, None)
        else: st.conds[key] = n
        return True
    def assume2(self, st, t):
        "[(bool, state)] for the truth of term t"
        a = self.atom(st, t)
        if a is True or a is False: return [(a, st)]
        key, pos, neg = a
        out = []
        cur = st.conds.get(key, top_of(key))
        fact = st.facts.get(key)
        if fact is not None and type(fact) == type(cur): cur = cur.meet(fact)
        if self.oracle is not None:
            d = self.oracle(key)
            if d is not None: cur = cur.meet(d)
        p, n = cur.meet(pos), cur.meet(neg)
        if n.empty() and not p.empty(): return [(True, st)]
        if p.empty() and not n.empty(): return [(False, st)]
        y = st.copy()
        if self.restrict(st, key, pos): out.append((True, st))
        if self.restrict(y, key, neg): out.append((False, y))
        return out
    def atom(self, st, t):
        "-> True/False or (key, positive domain, negative domain)"
        k = t[0]
        if k == "const": return bool(t[1])
        if k == "not":
            a = self.atom(st, t[1])
            if a is True or a is False: return not a
            return (a[0], a[2], a[1])
        if k == "bool": return self.atom(st, t[1])
        if k == "cmp": return self.atom_cmp(st, t[1], t[2], t[3])
        if k == "in": return self.atom_in(st, t[1], t[2])
        if k == "hasattr":
            v = st.heap.get((t[1], t[2]))
            if v is not None: return v != ("deleted",)
            if t[1][0] in self.BOOLISH or is_const(t[1]): return hasattr(t[1][1] if is_const(t[1]) else True, t[2])
            return (("b", t), YES, NO)
        if k in ("starts", "ends", "isinst"):
            if is_const(t[1]) and is_const(t[2]) and k == "starts": return t[1][1].startswith(t[2][1])
            return (("b", t), YES, NO)
        if k in ("new", "fn", "cls", "mod", "clos", "bmeth"): return True
        if k == "alt":
            rs = [self.atom(st, x) for x in t[1]]
            if all(r is True for r in rs): return True
            if all(r is False for r in rs): return False
            return (("b", t), YES, NO)
        if k == "seq": return bool(t[2])
        if k == "dictlit": return bool(t[1])
        if k == "cat" and any(is_const(p) and p[1] for p in t[1]): return True
        if k == "fmt" and is_const(t[1]) and isinstance(t[1][1], (str, bytes)) and has_text(t[1][1]): return True
        if k in ("copy", "keys", "values", "items", "reversed"): return self.atom(st, strip_copy(t) if k in ("copy","keys") else t[1])
        if k == "len": return self.atom(st, t[1])
        if k == "obj": t = self.verterm(st, t); return (("v", t), Val(None, "T"), Val(None, "NF"))
        if k == "call" and t[1] in ("list", "tuple", "set", "sorted") and len(t[2]) == 1: return self.atom(st, t[2][0])
        return (("v", self.verterm(st, t) if k in ("attr", "item", "param", "glob") else t), Val(None, "T"), Val(None, "NF"))
    BOOLISH = ("cmp", "not", "in", "hasattr", "starts", "ends", "isinst", "bool")
    def atom_cmp(self, st, op, a, b):
        neg = op in ("!=", "isnot")
        if op in ("==", "!=", "is", "isnot"):
            if is_const(a) and is_const(b):
                r = (a[1] == b[1]) if op in ("==", "!=") else (a[1] is b[1] or a[1] == b[1])
                return r != neg
            if is_const(a): a, b = b, a
            if a == b: return not neg
            if is_const(b):
                c = b[1]
                if a[0] in self.BOOLISH and c in (True, False) :
                    r = self.atom(st, a if c else ("not", a))
                    return self.flip(r) if neg else r
                if a[0] == "meth" and a[2] in ("find",) and c == -1:
                    r = self.atom_in(st, a[3][0], a[1]); return r if neg else self.flip(r)
                if a[0] == "meth" and a[2] == "count" and c == 0:
                    r = self.atom_in(st, a[3][0], a[1]); return r if neg else self.flip(r)
                if a[0] == "len" and c == 0:
                    r = self.atom(st, a[1]); return r if neg else self.flip(r)
                if a[0] == "item" and isinstance(c, str) and len(c) == 1 and a[2] == const(0):
                    r = self.atom(st, ("starts", a[1], b)); return self.flip(r) if neg else r
                if a[0] == "slice" and isinstance(c, str) and a[2] == const(0) and a[3] is not None and is_const(a[3]) and a[3][1] == len(c):
                    r = self.atom(st, ("starts", a[1], b)); return self.flip(r) if neg else r
                if a[0] in ("new", "clos", "fn", "cls"): return neg if c is None else neg
                if a[0] == "seq" : 
                    return neg if c is None or len(a[2]) else (not neg if c in ((), ) else neg)
                if a[0] in ("obj", "fmt", "op", "lin", "len", "slice", "dictlit", "set", "type") + self.BOOLISH and c is None: return neg
                if a[0] == "cat" and c is None: return neg
                if c is None and a[0] == "item" and a[1][0] == "attr" and a[1][2] in TABLES: return neg
                if a[0] == "call" and a[1] in ("min", "max") and type(c) is int and any(is_const(x) and type(x[1]) is int and (x[1] < c if a[1] == "min" else x[1] > c) for x in a[2]): return neg
                if a[0] == "lin":
                    co, ts = to_lin(a)
                    if isinstance(c, (int, float)) and len(ts) == 1:
                        (tt, coef), = ts.items()
                        if (c - co) % coef == 0: return self.atom_cmp(st, op, tt, const((c - co)//coef))
                    key = ("b", ("cmp", "==", a, b))
                    return (key, NO, YES) if neg else (key, YES, NO)
                if a[0] == "len":
                    key = ("d", a)
                    # exact complement not representable: boolean atom
                    key = ("b", ("cmp", "==", self.lenver(st, a), b))
                    return (key, NO, YES) if neg else (key, YES, NO)
                t = self.verterm(st, a) if a[0] in ("attr", "item", "param", "glob") else strip_copy(a)
                f = finite_of(t)
                if c is None: p, n = Val(None, "N"), Val(None, "FT")
                elif f is not None: p, n = Val([c]), Val(x for x in f if x != c)
                elif not c and not isinstance(c, (bytes,)) : p, n = Val(None, "F"), Val(None, "NT")
                elif c is True: p, n = Val(None, "T"), Val(None, "NF")
                elif isinstance(c, (bytes,)) and not c: p, n = Val(None, "F"), Val(None, "NT")
                else: p, n = Val([c]), Val(None, ALL, [c])
                return (("v", t), n, p) if neg else (("v", t), p, n)
            # empty literal compared
            for x, y in ((a, b), (b, a)):
                if y[0] == "seq" and not y[2] or y[0] == "obj" and y not in st.ver and y[1] in ("list", "dict", "set"):
                    r = self.atom(st, x); return r if neg else self.flip(r)
            x, y = sorted((a, b), key=repr)
            key = ("b", ("cmp", "==", x, y))
            if op in ("is", "isnot"): key = ("b", ("cmp", "==", x, y))
            return (key, NO, YES) if neg else (key, YES, NO)
        if op in ("in", "notin"):
            r = self.atom_in(st, a, b)
            return self.flip(r) if op == "notin" else r
        # ordering
        if op in (">", ">="): a, b, op = b, a, {">": "<", ">=": "<="}[op]
        a, b = self.lenver(st, a), self.lenver(st, b)
        for x, y, o in ((a, b, op), ):
            if x[0] == "meth" and x[2] == "find": pass
        d = add(a, b, -1)        # a - b  <  0   or   <= 0
        if is_const(d) and isinstance(d[1], (int, float)): return d[1] < 0 if op == "<" else d[1] <= 0
        c, ts = to_lin(d)
        # sum(ts) + c < 0   <=>  sum <= -c-1 ;  <= 0  <=> sum <= -c
        hi = (-c - 1) if op == "<" else -c
        items = sorted(ts.items(), key=repr)
        sign = 1 if items[0][1] > 0 else -1
        L = lin(0, {t: v*sign for t, v in ts.items()})
        pos = Iv(-INF, hi) if sign == 1 else Iv(-hi, INF)
        ng = Iv(hi + 1, INF) if sign == 1 else Iv(-INF, -hi - 1)
        if len(items) == 1 and items[0][1] in (1, -1):
            t = items[0][0]
            f = finite_of(t)
            if f is not None:
                return (("v", t), Val(x for x in f if pos.lo <= x <= pos.hi), Val(x for x in f if ng.lo <= x <= ng.hi))
            if t[0] == "meth" and t[2] in ("find", "count"):
                thr = -1 if t[2] == "find" else 0
                if pos == Iv(-INF, thr): return self.flip(self.atom_in(st, t[3][0], t[1]))
                if pos == Iv(thr + 1, INF): return self.atom_in(st, t[3][0], t[1])
            if self.nonneg(t):
                inner = t[1] if t[0] == "len" else t
                if t[0] == "ver" and t[1][0] == "len": inner = ("ver", t[1][1], t[2])
                if pos.hi == 0 or ng.hi == 0 or pos.hi < 0 or ng.hi < 0:
                    if pos.hi < 0: return False
                    if ng.hi < 0: return True
                    if inner[0] == "obj": inner = self.verterm(st, inner)
                    T, F = Val(None, "T"), Val(None, "NF")
                    if t[0] != "len" and t[0] != "ver": T, F = Val(None, "T"), Val(None, "F" if False else "NF")
                    return (("v", inner), F, T) if pos.hi == 0 else (("v", inner), T, F)
        return (("d", L), pos, ng)
    def lenver(self, st, t):
        "a length refers to the current version of its container"
        if t[0] == "len":
            return t if t[1][0] == "ver" else ("len", self.verterm(st, t[1]))
        if t[0] == "lin":
            c, ts = to_lin(t)
            return lin(c, {self.lenver(st, x): k for x, k in ts.items()})
        return t
    def nonneg(self, t):
        if t[0] == "ver": return self.nonneg(t[1])
        if t[0] == "len": return True
        n = t[2] if t[0] == "attr" else t[1] if t[0] == "param" else t[2][1] if t[0] == "item" and is_const(t[2]) else None
        return n in NONNEG
    def flip(self, r):
        if r is True or r is False: return not r
        return (r[0], r[2], r[1])
    def atom_in(self, st, a, c):
        if c[0] == "ver": base = c if c[2] else c[1]
        else:
            c = strip_copy(c)
            if c[0] == "call" and c[1] in ("list", "set", "tuple", "sorted") and len(c[2]) == 1: c = strip_copy(c[2][0])
            if c[0] == "seq" and all(is_const(x) for x in c[2]) and not is_const(a):
                vals = [x[1] for x in c[2]]
                t = self.verterm(st, a) if a[0] in ("attr", "item", "param", "glob") else a
                f = finite_of(t)
                if f: return (("v", t), Val(x for x in f if x in vals), Val(x for x in f if x not in vals))
                return (("v", t), Val(vals), Val(None, ALL, vals))
            if c[0] == "seq" and is_const(a) and all(is_const(x) for x in c[2]): return a[1] in [x[1] for x in c[2]]
            if c[0] == "seq" and len(c[2]) == 1: return self.atom_cmp(st, "==", a, c[2][0])
            if c[0] == "seq" and not c[2]: return False
            if is_const(c) and is_const(a):
                try: return a[1] in c[1]
                except TypeError: pass
            if c[0] == "obj" and not st.ver.get(c): return False
            if c[0] == "call" and c[1] == "range" and len(c[2]) == 2 and all(is_const(x) for x in c[2]):
                lo, hi = c[2][0][1], c[2][1][1]
                t = a; f = finite_of(t)
                vals = range(lo, hi)
                if f: return (("v", t), Val(x for x in f if x in vals), Val(x for x in f if x not in vals))
                if hi - lo <= 64: return (("v", t), Val(vals), Val(None, ALL, vals))
            base = self.verterm(st, c)
        return (("b", ("in", a, base)), YES, NO)
    OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot"}
    def cond(self, node, st):
        "[(bool, state)]"
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur, out = [st], []
            for i, v in enumerate(node.values):
                nx = []
                for x in cur:
                    for b, y in self.cond(v, x):
                        if y.ctrl is not None: out.append((b, y))
                        elif b == isand: nx.append(y)
                        else: out.append((b, y))
                cur = nx
            return out + [(isand, x) for x in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(not b, x) for b, x in self.cond(node.operand, st)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            # a op b op c
            out = []
            terms = [node.left] + node.comparators
            def go(i, left, x):
                for r, y in self.ev(terms[i+1], x):
                    if y.ctrl is not None: out.append((False, y)); continue
                    for b, z in self.assume2(y, ("cmp", self.OPS[type(node.ops[i])], left, r)):
                        if not b: out.append((False, z))
                        elif i + 1 == len(node.ops): out.append((True, z))
                        else: go(i+1, r, z)
            for l, x in self.ev(node.left, st):
                if x.ctrl is not None: out.append((False, x))
                else: go(0, l, x)
            return out
        if isinstance(node, ast.IfExp):
            out = []
            for b, x in self.cond(node.test, st):
                if x.ctrl is not None: out.append((False, x))
                else: out += self.cond(node.body if b else node.orelse, x)
            return out
        out = []
        for t, x in self.ev(node, st):
            if x.ctrl is not None: out.append((False, x)); continue
            out += self.assume2(x, t)
        return out

    # ---- expressions -------------------------------------------------------------------------------------
    def ev(self, node, st):
        "[(term, state)]"
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None: return [(("unk", type(node).__name__ ), st)]
        return m(node, st)
    def evs(self, nodes, st):
        res = [((), st)]
        for n in nodes:
            nx = []
            for ts, x in res:
                if x.ctrl is not None: nx.append((ts + (NONE,), x)); continue
                for t, y in self.ev(n, x): nx.append((ts + (t,), y))
            res = nx
        return res
    def e_Constant(self, n, st): return [(const(n.value), st)]
    def e_JoinedStr(self, n, st):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        txt = "".join(v.value if isinstance(v, ast.Constant) else "%s" for v in n.values)
        return [(("fmt", const(txt), ts), x) for ts, x in self.evs(vals, st)]
    def e_Name(self, n, st): return [(self.lookup(n.id, st), st)]
    def lookup(self, name, st):
        env = st.env()
        if "%g:"+name not in env:
            if name in env: return env[name]
            p = env.get("%parent")
            while p is not None:
                fr = st.frames[p[1]]
                if name in fr: return fr[name]
                p = fr.get("%parent")
        mod = self.stack[-1].module
        return self.global_name(mod, name, st)
    def global_name(self, mod, name, st):
        r = mod.resolve(name)
        return self.resolved(r, name, mod, st)
    def resolved(self, r, name, mod, st=None):
        if isinstance(r, Func): return ("fn", r.module.name, r.name)
        if isinstance(r, Class): return ("cls", r.qual)
        if isinstance(r, Module): return ("mod", r.name)
        if isinstance(r, tuple) and r[0] == "ext": return ("ext", r[1])
        if isinstance(r, tuple) and r[0] == "const":
            h = st.heap.get((("mod", r[1].name), name)) if st is not None else None
            if h is not None: return h
            v = self.ceval(r[2], r[1])
            if v is not _NOTCONST and not isinstance(v, (list, dict, set)) and not self.reassigned(r[1], name): 
                if isinstance(v, tuple): return ("seq", "tuple", tuple(const(x) for x in v)) if all(_simple(x) for x in v) else ("glob", r[1].name, name)
                if _simple(v): return const(v)
            if isinstance(v, (list, set)) and all(_simple(x) for x in v) and not self.reassigned(r[1], name): return ("seq", "list", tuple(const(x) for x in v))
            return ("glob", r[1].name, name)
        if name in ("True", "False", "None"): return const({"True": True, "False": False, "None": None}[name])
        h = st.heap.get((("mod", mod.name), name)) if st is not None else None
        if h is not None: return h
        return ("ext", name) if r is None and name in _BUILTINS else ("glob", mod.name, name)
    def reassigned(self, mod, name):
        k = ("reas", mod.name)
        if k not in self._cha:
            s = set()
            for fn in ast.walk(mod.tree):
                if isinstance(fn, ast.FunctionDef):
                    g = set()
                    for x in ast.walk(fn):
                        if isinstance(x, ast.Global): g |= set(x.names)
                    if g: s |= {t for t in g if t in stored(fn)}
            self._cha[k] = s
        return name in self._cha[k]
    def e_Attribute(self, n, st):
        out = []
        for b, x in self.ev(n.value, st):
            if x.ctrl is not None: out.append((NONE, x)); continue
            if self.trys and self.catches("AttributeError") and b[0] in ("attr", "param", "item", "elem") and isinstance(n.ctx, ast.Load) and (b, n.attr) not in x.heap and not n.attr.startswith("__"):
                for bv, y in self.assume2(x, ("hasattr", b, n.attr)):
                    if not bv: y.ctrl = ("raise", ("exc", "AttributeError", ())); out.append((NONE, y))
                    else: out.append((self.getattr(b, n.attr, y), y))
                continue
            out.append((self.getattr(b, n.attr, x), x))
        return out
    def getattr(self, b, name, st):
        if b[0] == "alt" and st.heap.get((b, name)) is None: return alt([self.getattr(x, name, st) for x in b[1]])
        if self.aliases and b[0] != "mod":
            c0 = self.typeof(b, st)
            a = self.aliases.get((c0.name, name)) if c0 is not None else None
            if a is not None: return a
        if b[0] == "mod":
            m = self.P.modules[b[1]]
            h = st.heap.get((b, name))
            if h is not None: return h
            r = m.resolve(name)
            if r is None: return ("glob", m.name, name)
            return self.resolved(r, name, m, st)
        if b[0] == "ext": return ("ext", b[1] + "." + name)
        if b[0] == "copy" or b[0] == "keys": b = strip_copy(b)
        h = st.heap.get((b, name))
        if h is not None: return h
        if b[0] == "item" and name in FILED:
            m = strip_copy(b[1])
            if m[0] == "ver": m = m[1]
            if m[0] == "attr" and m[2] in FILED[name]: return b[2]
        if b[0] == "cls":
            c = self.class_by_qual(b[1])
            if c is not None:
                if name in c.methods or c.find(name): return ("bmeth", b, name)
                v = self.class_const(c, name)
                if v is not _NOTCONST:
                    if _simple(v): return const(v)
                    if isinstance(v, (list, tuple)) and all(_simple(x) for x in v): return ("seq", "list", tuple(const(x) for x in v))
            return ("attr", b, name)
        c = self.typeof(b, st)
        if c is not None and c.find(name) is not None and not any(name in k.assigns for k in [c]):
            f = c.find(name)
            if any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list):
                r = self.call_func(f, b, (), (), st, None)
                if len(r) == 1: return r[0][0]
            return ("bmeth", b, name)
        if c is not None:
            v = self.class_const(c, name)
            if v is not _NOTCONST and _simple(v) and not self.instance_attr(c, name): return const(v)
        return ("attr", b, name)
    def instance_attr(self, c, name):
        for k in c.mro():
            if isinstance(k, Class):
                for f in k.methods.values():
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name: return True
        return False
    def class_by_qual(self, q):
        m, n = q.rsplit(".", 1)
        mod = self.P.modules.get(m)
        return mod.classes.get(n) if mod else None
    def class_const(self, c, name):
        for k in c.mro():
            if isinstance(k, Class) and name in k.assigns: return self.ceval_class(k, name)
        return _NOTCONST
    def ceval_class(self, c, name):
        key = ("cc", c.qual, name)
        if key in self._cha: return self._cha[key]
        self._cha[key] = _NOTCONST
        env = {}
        for s in c.node.body:
            if isinstance(s, ast.Assign):
                v = self.ceval(s.value, c.module, env)
                for t in s.targets:
                    if isinstance(t, ast.Name): env[t.id] = v
                    elif isinstance(t, ast.Tuple) and v is not _NOTCONST:
                        try: vs = list(v)
                        except TypeError: continue
                        for e, x in zip(t.elts, vs):
                            if isinstance(e, ast.Name): env[e.id] = x
        for k, v in env.items(): self._cha[("cc", c.qual, k)] = v
        return env.get(name, _NOTCONST)
    def ceval(self, e, mod, env=None, depth=0):
        "value of a constant expression (literal tables), or _NOTCONST"
        if depth > 40: return _NOTCONST
        if isinstance(e, tuple):
            if e[0] == "unpack":
                v = self.ceval(e[1], mod, env, depth+1)
                try: return list(v)[e[2]]
                except Exception: return _NOTCONST
            return _NOTCONST
        if e is None: return _NOTCONST
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.UnaryOp):
            v = self.ceval(e.operand, mod, env, depth+1)
            if v is _NOTCONST: return v
            try: return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Not: lambda x: not x, ast.Invert: lambda x: ~x}[type(e.op)](v)
            except Exception: return _NOTCONST
        if isinstance(e, ast.BinOp):
            a, b = self.ceval(e.left, mod, env, depth+1), self.ceval(e.right, mod, env, depth+1)
            if a is _NOTCONST or b is _NOTCONST: return _NOTCONST
            return _binop(e.op, a, b)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = [self.ceval(x, mod, env, depth+1) for x in e.elts]
            if any(v is _NOTCONST for v in vs): return _NOTCONST
            return tuple(vs) if isinstance(e, ast.Tuple) else list(vs) if isinstance(e, ast.List) else set(vs)
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                kk, vv = self.ceval(k, mod, env, depth+1), self.ceval(v, mod, env, depth+1)
                if kk is _NOTCONST or vv is _NOTCONST: return _NOTCONST
                try: out[kk] = vv
                except TypeError: return _NOTCONST
            return out
        if isinstance(e, ast.Name):
            if env and e.id in env: return env[e.id]
            r = mod.resolve(e.id)
            if isinstance(r, tuple) and r[0] == "const": return self.ceval(r[2], r[1], None, depth+1)
            return _NOTCONST
        if isinstance(e, ast.Attribute):
            r = mod.resolve_expr(e)
            if isinstance(r, tuple) and r[0] == "const": return self.ceval(r[2], r[1], None, depth+1)
            b = mod.resolve_expr(e.value)
            if isinstance(b, Class): return self.class_const(b, e.attr)
            return _NOTCONST
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            args = [self.ceval(x, mod, env, depth+1) for x in e.args]
            if any(a is _NOTCONST for a in args): return _NOTCONST
            fn = {"range": range, "set": set, "list": list, "tuple": tuple, "frozenset": frozenset, "len": len, "bytes": bytes, "bytearray": bytes}.get(e.func.id)
            if fn:
                try: return fn(*args)
                except Exception: return _NOTCONST
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            b, k = self.ceval(e.value, mod, env, depth+1), self.ceval(e.slice, mod, env, depth+1)
            try: return b[k] if b is not _NOTCONST and k is not _NOTCONST else _NOTCONST
            except Exception: return _NOTCONST
        return _NOTCONST

    def e_Subscript(self, n, st):
        out = []
        for b, x in self.ev(n.value, st):
            if x.ctrl is not None: out.append((NONE, x)); continue
            if isinstance(n.slice, ast.Slice):
                parts = [p if p is not None else ast.Constant(value=None) for p in (n.slice.lower, n.slice.upper)]
                if n.slice.step is not None:
                    if isinstance(n.slice.step, ast.UnaryOp) and n.slice.lower is None and n.slice.upper is None: out.append((("reversed", b), x))
                    else: out.append((("unk", "step"), x))
                    continue
                for (lo, hi), y in self.evs(parts, x):
                    if is_const(b) and isinstance(b[1], (str, bytes, list, tuple)) and is_const(lo) and is_const(hi): out.append((const(b[1][lo[1]:hi[1]]), y))
                    elif b[0] == "seq" and is_const(lo) and is_const(hi): out.append((("seq", b[1], b[2][lo[1]:hi[1]]), y))
                    else: out.append((slice_(b, lo, None if hi == NONE else hi), y))
                continue
            for k, y in self.ev(n.slice, x):
                if y.ctrl is not None: out.append((NONE, y)); continue
                for z in self.key_guard(y, b, k):
                    out.append((self.getitem(b, k, z) if z.ctrl is None else NONE, z))
        return out
    def getitem(self, b, k, st):
        b0 = strip_copy(b)
        if (b0, k) in st.items: return st.items[(b0, k)]
        if b0[0] == "seq" and is_const(k) and isinstance(k[1], int) and -len(b0[2]) <= k[1] < len(b0[2]): return b0[2][k[1]]
        if b0[0] == "dictlit" and is_const(k):
            for kk, v in b0[1]:
                if kk == k: return v
        if is_const(b0) and is_const(k):
            try: return const(b0[1][k[1]])
            except Exception: pass
        if b0[0] == "call" and b0[1] in ("list", "tuple") and len(b0[2]) == 1: b0 = strip_copy(b0[2][0])
        # last element just appended
        if is_const(k) and k[1] == -1 and st.events:
            for e in reversed(st.events):
                if e.kind == "mut" and e.base == b0:
                    if e.name == "append": return e.args[0]
                    break
                if e.kind == "loop": break
        if b0[0] == "obj" and is_const(k) and isinstance(k[1], int) and k[1] >= 0 and not st.loops:
            adds = []
            for e in st.events:
                if e.kind == "mut" and e.base == b0:
                    if e.name != "append": adds = None; break
                    adds.append(e.args[0])
                if e.kind == "loop" and adds is not None and any(z.base == b0 for z in self.flat_events((e,)) if z.base): adds = None; break
            if adds is not None and k[1] < len(adds): return adds[k[1]]
        return item(b0, k)
    def e_Tuple(self, n, st): return [(("seq", "tuple", ts), x) for ts, x in self.evs(n.elts, st)]
    def e_List(self, n, st):
        if not n.elts: return [(self.alloc_obj(st, "list"), st)]
        return [(("seq", "list", ts), x) for ts, x in self.evs(n.elts, st)]
    def e_Set(self, n, st): return [(("seq", "set", ts), x) for ts, x in self.evs(n.elts, st)]
    def e_Dict(self, n, st):
        if not n.keys: return [(self.alloc_obj(st, "dict"), st)]
        if any(k is None for k in n.keys): return [(("unk", "dict"), st)]
        out = []
        for ks, x in self.evs(n.keys, st):
            for vs, y in self.evs(n.values, x): out.append((("dictlit", tuple(zip(ks, vs))), y))
        return out
    def alloc_obj(self, st, kind):
        n = st.alloc.get(kind, 0) + 1
        st.alloc[kind] = n
        st.ver.pop(("obj", kind, n), None)
        st.facts[("v", ("obj", kind, n))] = Val(None, "F")
        return ("obj", kind, n)
    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(("not", t) if t[0] != "const" else const(not t[1]), x) for t, x in self.ev(n.operand, st)] if not isinstance(n.operand, ast.BoolOp) else [(const(not b), x) for b, x in self.cond(n.operand, st)]
        out = []
        for t, x in self.ev(n.operand, st):
            if is_const(t) and isinstance(t[1], (int, float)):
                out.append((const(-t[1] if isinstance(n.op, ast.USub) else ~t[1] if isinstance(n.op, ast.Invert) else +t[1]), x))
            elif isinstance(n.op, ast.USub): out.append((scale(t, -1), x))
            else: out.append((("op", "~", t, NONE), x))
        return out
    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        out, cur = [], [st]
        for i, v in enumerate(n.values):
            nx = []
            last = i == len(n.values) - 1
            for x in cur:
                for t, y in self.ev(v, x):
                    if y.ctrl is not None: out.append((NONE, y)); continue
                    if last: out.append((t, y)); continue
                    for b, z in self.assume2(y, t):
                        if b == isand: nx.append(z)
                        else: out.append((t if t[0] not in self.BOOLISH else const(b), z))
            cur = nx
        return out
    def e_Compare(self, n, st):
        if len(n.ops) > 1: return [(const(b), x) for b, x in self.cond(n, st)]
        out = []
        for (a, b), x in self.evs([n.left, n.comparators[0]], st):
            if x.ctrl is not None: out.append((NONE, x)); continue
            t = ("cmp", self.OPS[type(n.ops[0])], a, b)
            r = self.atom(x, t)
            out.append((const(r) if r is True or r is False else self.frozen_in(x, t, a, b) if t[1] in ("in", "notin") and strip_copy(b)[0] != "seq" else t, x))
        return out
    def frozen_in(self, st, t, a, b):
        "the truth value of a membership test, as of now"
        b = strip_copy(b)
        r = ("in", a, b if b[0] == "ver" else ("ver", b, st.ver.get(b, 0)))
        return r if t[1] == "in" else ("not", r)
    def e_IfExp(self, n, st):
        out = []
        for b, x in self.cond(n.test, st):
            if x.ctrl is not None: out.append((NONE, x)); continue
            out += self.ev(n.body if b else n.orelse, x)
        return out
    def e_NamedExpr(self, n, st):
        out = []
        for t, x in self.ev(n.value, st):
            if x.ctrl is None: self.assign(n.target, t, x)
            out.append((t, x))
        return out
    def e_Lambda(self, n, st):
        f = self.stack[-1]
        cid = ("clos", f.qual + ".<lambda>", n.lineno)
        fn = Func(f.module, n, f.cls, f)
        self.closures[cid] = (fn, len(st.frames)-1)
        return [(cid, st)]
    def e_Starred(self, n, st): return self.ev(n.value, st)
    def e_Await(self, n, st): return self.ev(n.value, st)
    def e_ListComp(self, n, st): return self.comp(n, st, "list")
    def e_SetComp(self, n, st): return self.comp(n, st, "set")
    def e_GeneratorExp(self, n, st): return self.comp(n, st, "list")
    def e_DictComp(self, n, st): return self.comp(n, st, "dict")
    def comp(self, n, st, kind):
        obj = self.alloc_obj(st, kind)
        f = self.stack[-1]
        saved = {k: st.env().get(k) for g in n.generators for k in stored(g.target)}
        def body_at(i):
            def run(states):
                out = []
                for x in states:
                    if i == len(n.generators):
                        if kind == "dict":
                            for (k, v), y in self.evs([n.key, n.value], x):
                                if y.ctrl is None: self.do_setitem(y, obj, k, v, n)
                                out.append(y)
                        else:
                            for t, y in self.ev(n.elt, x):
                                if y.ctrl is None: self.do_add(y, obj, t, n, "append" if kind == "list" else "add")
                                out.append(y)
                    else:
                        out += gen(i, x)
                return out
            return run
        def gen(i, x):
            g = n.generators[i]
            out = []
            for it, y in self.ev(g.iter, x):
                if y.ctrl is not None: out.append(y); continue
                fake = _CompBody(g, body_at(i+1), self)
                out += self.loop_comp(n, i, y, f, it, g, fake)
            return out
        res = gen(0, st)
        for y in res:
            for k, v in saved.items():
                if v is None: y.env().pop(k, None)
                else: y.env()[k] = v
        return [(obj, y) for y in self.merge(res, None)]
    def loop_comp(self, n, i, st, f, it, g, fake):
        def bind(t, y): return self.assign(g.target, t, y)
        class S: pass
        key = (id(n), i)
        s = self._cha.setdefault(("cs", key), _FakeFor(n))
        return self.loop(s, st, f, it, bind, [fake], [], None, g.target)
    def s__CompBody(self, s, st, f):
        states = [st]
        for c in s.g.ifs:
            nx = []
            for x in states:
                if x.ctrl is not None: nx.append(x); continue
                for b, y in self.cond(c, x):
                    if y.ctrl is None and not b: y.ctrl = ("continue",)
                    nx.append(y)
            states = nx
        out = []
        for x in states:
            if x.ctrl is not None: out.append(x)
            else: out += s.run([x])
        return out
    def e_BinOp(self, n, st):
        out = []
        for (a, b), x in self.evs([n.left, n.right], st):
            if x.ctrl is not None: out.append((NONE, x)); continue
            out.append((self.binop(n.op, a, b), x))
        return out
    def byteish(self, t):
        if is_const(t): return isinstance(t[1], (bytes, str))
        if t[0] in ("cat", "fmt", "slice"): return True
        if t[0] in ("call", "ret") and (t[1].split(".")[-1].startswith(("write", "pack")) or t[1] in ("bytes", "str", "bytearray", "struct.pack") or t[1].split(".")[-1] in ("encode", "sep", "chr")): return True
        if t[0] == "meth" and (t[2].startswith(("pack", "write")) or t[2] in ("encode", "decode", "join", "replace", "lower", "upper", "format", "getValue")): return True
        if t[0] == "acc": return "buf" in str(t[3]).lower() or "payload" in str(t[3]).lower()
        return False
    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            v = _binop(op, a[1], b[1])
            if v is not _NOTCONST and _simple(v): return const(v)
        if isinstance(op, ast.Add):
            if a[0] == "seq" and b[0] == "seq": return ("seq", a[1], a[2] + b[2])
            if self.byteish(a) or self.byteish(b): return cat(a, b)
            return add(a, b)
        if isinstance(op, ast.Sub): return add(a, b, -1)
        if isinstance(op, ast.Mult):
            if is_const(a) and isinstance(a[1], (int, float)): return scale(b, a[1])
            if is_const(b) and isinstance(b[1], (int, float)): return scale(a, b[1])
        if isinstance(op, ast.Mod) and is_const(a) and isinstance(a[1], (str, bytes)): return ("fmt", a, (b,))
        return ("op", _OPN.get(type(op), "?"), a, b)

    # ---- calls -------------------------------------------------------------------------------------------
    def e_Call(self, n, st):
        # logging and printing have no effect on the protocol
        dn = dotted(n.func)
        if not self.keep_log and dn is not None and self.is_log(dn, st):
            return [(NONE, st)]
        out = []
        for fn, x in self.ev_callee(n.func, st):
            if x.ctrl is not None: out.append((NONE, x)); continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                for ts, y in self.evs([a.value if isinstance(a, ast.Starred) else a for a in n.args], x):
                    spread = self.spread(fn, n, ts, y)
                    if spread is not None and y.ctrl is None: out += self.call(fn, spread, (), y, n); continue
                    out.append(self.opaque_call(fn, ts, (("*", const("star")),), y, n))
                continue
            quant = fn in (("ext", "any"), ("ext", "all")) or isinstance(n.func, ast.Name) and n.func.id in ("any", "all")
            self.quantified += quant
            argss = self.evs(list(n.args) + [k.value for k in n.keywords], x)
            self.quantified -= quant
            for ts, y in argss:
                if y.ctrl is not None: out.append((NONE, y)); continue
                args = ts[:len(n.args)]
                kw = tuple((k.arg, v) for k, v in zip(n.keywords, ts[len(n.args):]))
                out += self.call(fn, args, kw, y, n)
        return out
    def spread(self, fn, n, ts, st):
        "the arguments, where f(a, *t) can only be meant to fill the rest of the parameters"
        if n.keywords or not isinstance(n.args[-1], ast.Starred) or any(isinstance(a, ast.Starred) for a in n.args[:-1]): return None
        t = strip_copy(ts[-1])
        if t[0] == "seq": return list(ts[:-1]) + list(t[2])
        g = self.closures[fn][0] if fn[0] == "clos" else self.P.modules[fn[1]].functions.get(fn[2]) if fn[0] == "fn" else None
        if fn[0] == "bmeth":
            c = self.typeof(fn[1], st); g = c.find(fn[2]) if c is not None else None
            if g is not None and any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in g.node.decorator_list): return None
        if g is None or g.node.args.vararg or g.node.args.defaults or g.node.args.kwonlyargs: return None
        k = len(g.node.args.args) - (fn[0] == "bmeth") - (len(ts) - 1)
        return list(ts[:-1]) + [item(ts[-1], const(i)) for i in range(k)] if k >= 0 else None
    def is_log(self, dn, st):
        r = dn.split(".")[0]
        if r in ("print",): return True
        if r in st.env(): return False
        if r in ("logger", "log", "logging", "traceback"): return True
        return False
    def ev_callee(self, node, st):
        if isinstance(node, ast.Attribute):
            out = []
            for b, x in self.ev(node.value, st):
                if x.ctrl is not None: out.append((NONE, x)); continue
                if b[0] in ("mod", "ext", "cls"):
                    t = self.getattr(b, node.attr, x)
                    out.append((t, x)); continue
                h = x.heap.get((b, node.attr))
                if h is not None and h[0] in ("clos", "bmeth", "fn"): out.append((h, x)); continue
                out.append((("bmeth", b, node.attr), x))
            return out
        return self.ev(node, st)
    def call(self, fn, args, kw, st, node):
        self.calls += 1
        k = fn[0]
        if k == "clos":
            f, parent = self.closures[fn]
            return self.call_func(f, None, args, kw, st, node, parent)
        if k == "fn":
            f = self.P.modules[fn[1]].functions.get(fn[2])
            if f is not None: return self.maybe_inline(f, None, args, kw, st, node)
        if k == "cls":
            c = self.class_by_qual(fn[1])
            return self.construct(c, args, kw, st, node)
        if k == "bmeth":
            return self.call_method(fn[1], fn[2], args, kw, st, node)
        if k == "ext":
            return self.call_ext(fn[1], args, kw, st, node)
        return [self.opaque_call(fn, args, kw, st, node)]
    def may_raise(self, st, name, node):
        "states in which an opaque call raises, when some enclosing construct of the analysed code would see it"
        if not self.trys or name in self.noraise: return []
        excs = ["?"]
        if self.extraise is not None:
            excs = self.extraise(name)
        out = []
        for e in excs:
            y = st.copy(); y.ctrl = ("raise", ("exc", e, (("unk", "from " + str(name)),))); out.append((NONE, y))
        return out
    def opaque_call(self, fn, args, kw, st, node, pure=False):
        name = fn[1] if fn[0] in ("ext",) else fn[2] if fn[0] in ("bmeth", "fn") else fn[1] if fn[0] == "cls" else show(fn)
        base = fn[1] if fn[0] == "bmeth" else None
        r = self.record(name, base, args, kw, st, node)
        if st.events and st.events[-1].ret == r: st.events[-1].fn = fn
        return (r, st)
    def record(self, name, base, args, kw, st, node, short=None):
        n = st.impure.get(name, 0); st.impure[name] = n + 1
        ret = ("ret", name, ((base,) if base else ()) + tuple(args), tuple(kw)) + ((n,) if n else ())
        if name.split(".")[-1] == "set" and base is not None and base[0] == "attr" and base[2] == "reasonCode" and args: st.heap[(base[1], "%reason")] = args[0]
        self.event(st, Ev("call", name, base, args, kw, ret, self.snapshot(st, tuple(args) + tuple(v for _, v in kw) + ((base,) if base else ())), where=self.where(node) if node is not None else None))
        return ret
    def snapshot(self, st, terms):
        snap, work, seen = {}, [t for t in terms], set()
        while work:
            t = work.pop()
            if t in seen: continue
            seen.add(t)
            for x in subterms(t):
                if x[0] in ("new", "param", "attr", "item", "elem"):
                    for (b, n), v in st.heap.items():
                        r = b
                        while r != x and r[0] == "attr": r = r[1]
                        if r == x:
                            snap[(b, n)] = v
                            if v not in seen: work.append(v)
        return snap
    def short_of(self, f): return f.short
    def is_opaque(self, f):
        if f.short in self.opaque or f.name in self.opaque or f.qual in self.opaque: return True
        if self.only_inline is not None and not self.only_inline(f): return True
        return False
    def maybe_inline(self, f, selfterm, args, kw, st, node):
        if f.short in self.pure or f.name in self.pure or f.qual in self.pure:
            args, kw = self.canon_args(f, selfterm, args, kw)
            return [(("call", f.short, ((selfterm,) if selfterm is not None and selfterm[0] != "super" else ()) + tuple(args), tuple(kw)), st)]
        if self.is_opaque(f) or len(self.stack) > self.maxdepth or any(g.node is f.node for g in self.stack):
            args, kw = self.canon_args(f, selfterm, args, kw)
            rs = self.may_raise(st, f.short, node)
            t = self.record(f.short, selfterm, args, kw, st, node)
            return [(t, st)] + rs
        return self.call_func(f, selfterm, args, kw, st, node)
    def canon_args(self, f, selfterm, args, kw):
        "positional form of the arguments, with the callee's constant defaults filled in"
        names = f.params()
        if selfterm is not None and names: names = names[1:]
        if len(args) > len(names) and f.node.args.vararg is None: return tuple(args), tuple(kw)      # not this function, or a mistake
        vals = dict(zip(names, args))
        extra = []
        for k, v in kw:
            if k in names: vals[k] = v
            else: extra.append((k, v))
        defs = f.node.args.defaults
        allp = f.params()
        for p, d in zip(allp[len(allp)-len(defs):], defs):
            if p not in vals and p in names:
                c = self.ceval(d, f.module)
                if c is not _NOTCONST and _simple(c): vals[p] = const(c)
        out = []
        for n in names:
            if n in vals: out.append(vals[n])
            else:
                rest = [(m, vals[m]) for m in names[len(out)+1:] if m in vals]
                return tuple(out), tuple(rest + extra)
        return tuple(out), tuple(extra)
    def call_func(self, f, selfterm, args, kw, st, node, parent=None):
        self.functions.add(f.qual)
        if len(self.stack) > self.maxdepth + 4:
            return [(self.record(f.short, selfterm, args, kw, st, node), st)]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = (() if selfterm is None else (selfterm,)) + tuple(args)
        decos = [d.id for d in f.node.decorator_list if isinstance(d, ast.Name)] if hasattr(f.node, "decorator_list") else []
        if "staticmethod" in decos and selfterm is not None: vals = vals[1:]
        for nme, v in zip(names, vals): env[nme] = v
        if a.vararg: env[a.vararg.arg] = ("seq", "tuple", tuple(vals[len(names):]))
        extra = []
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw:
            if k in names or k in kwo: env[k] = v
            else: extra.append((const(k), v))
        if a.kwarg: env[a.kwarg.arg] = ("dictlit", tuple(extra))
        defs = list(zip(names[len(names)-len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(kwo, a.kw_defaults) if d is not None]
        for nme, d in defs:
            if nme not in env:
                c = self.ceval(d, f.module)
                env[nme] = const(c) if c is not _NOTCONST and _simple(c) else ("unk", "default", f.qual, nme)
        for nme in names:
            if nme not in env: env[nme] = ("unk", "missing", f.qual, nme)
        if parent is not None: env["%parent"] = ("frame", parent)
        st.frames.append(env)
        self.stack.append(f)
        res = self.run_body(f, st)
        self.stack.pop()
        out = []
        for x in res:
            x.frames.pop()
            if x.ctrl is None: out.append((NONE, x))
            elif x.ctrl[0] == "return":
                t = x.ctrl[1]; x.ctrl = None; out.append((t, x))
            else: out.append((NONE, x))
        return self.merge_vals(out)
    def merge_vals(self, res):
        if len(res) < 2: return res
        g = {}
        for t, x in res: g.setdefault((t, x.key(None)), []).append(x)
        out = []
        for (t, _), xs in g.items():
            if len(xs) == 1: out.append((t, xs[0])); continue
            facts = common_facts(xs)
            for c in merge_conds_exact([x.conds for x in xs]):
                y = xs[0].copy(); y.conds = dict(c); y.facts = dict(facts); out.append((t, y))
        return out
    def kept_args(self, c, init, depth=0):
        "parameters which a constructor assigns, as they are, to an attribute: name -> the attributes leading there"
        out, names = {}, init.params()
        if not names or depth > 3: return out
        for s in init.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.Name) and s.value.id in names[1:]:
                path, x = [], s.targets[0]
                while isinstance(x, ast.Attribute): path.insert(0, x.attr); x = x.value
                if isinstance(x, ast.Name) and x.id == names[0] and path: out[s.value.id] = path
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "__init__":
                b, a = s.value.func.value, s.value.args
                if isinstance(b, ast.Name) and len(a) and isinstance(a[0], ast.Name) and a[0].id == names[0]: a, base = a[1:], [k for k in c.mro() if getattr(k, "name", None) == b.id and k is not c]
                else: base = [k for k in c.mro()[1:]][:1]
                g = base[0].find("__init__") if base and hasattr(base[0], "find") else None
                if g is None or any(isinstance(y, ast.Starred) for y in a): continue
                up, theirs = self.kept_args(base[0], g, depth + 1), g.params()[1:]
                for n, v in list(zip(theirs, a)) + [(k.arg, k.value) for k in s.value.keywords]:
                    if isinstance(v, ast.Name) and v.id in names[1:] and n in up: out[v.id] = up[n]
        return out
    def construct(self, c, args, kw, st, node):
        q = c.qual
        init = c.find("__init__")
        if init is not None and c.name not in self.inline_init: 
            a2, kw2 = self.canon_args(init, ("x",), args, kw)
            # drop trailing constant defaults to keep the written arguments only
            args2, kw2 = tuple(args), tuple(kw)
        else: args2, kw2 = tuple(args), tuple(kw)
        n = st.alloc.get(q, 0) + 1; st.alloc[q] = n
        t = ("new", q, args2, kw2, n)
        if "Exception" in c.base_names() or "BaseException" in c.base_names(): return [(t, st)]
        if init is not None and (c.name in self.inline_init):
            out = []
            for _, x in self.call_func(init, t, args, kw, st, node): out.append((t, x))
            return out
        if init is not None and (args or kw) and any(n in ("Packets", "Messages") for n in c.base_names()):
            # arguments which the constructor keeps as they are stand for assignments after it
            names, kept = init.params()[1:], self.kept_args(c, init)
            given = [(names[i], v) for i, v in enumerate(args) if i < len(names)] + list(kw)
            if all(n in kept or v == NONE and n == "buffer" for n, v in given) and len(given) == len(args) + len(kw):
                t = ("new", q, (), (), n)
                for name, v in given:
                    if name not in kept: continue
                    b = t
                    for a in kept[name][:-1]: b = self.getattr(b, a, st)
                    self.do_setattr(st, b, kept[name][-1], v, node)
        return [(t, st)] + (self.may_raise(st, "new " + c.name, node) if self.extraise is not None else [])
    def typeof(self, t, st):
        if t[0] == "new": return self.class_by_qual(t[1])
        if t[0] == "cls": return None
        if t[0] == "alt":
            cs = {self.typeof(x, st) for x in t[1] if x != NONE}
            return cs.pop() if len(cs) == 1 else None
        if t[0] == "param" and t[1] == "self": return self.self_class
        if t[0] == "super": return t[1]
        if t[0] == "attr":
            bc = self.typeof(t[1], st)
            if bc is not None:
                n = self.attr_types.get((bc.name, t[2]))
                if n: return self.find_class(n)
                return self.infer_attr(bc, t[2])
            n = self.attr_types.get(("*", t[2]))
            if n: return self.find_class(n)
        if t[0] == "item" and t[1][0] == "attr":
            n = self.elem_types.get(t[1][2])
            if n: return self.find_class(n)
        if t[0] == "elem" and t[1][0] == "attr":
            n = self.elem_types.get("[]" + t[1][2])
            if n: return self.find_class(n)
        if t[0] == "param":
            n = self.attr_types.get(("param", t[1]))
            if n: return self.find_class(n)
        if t[0] == "ret":
            n = self.attr_types.get(("ret", t[1]))
            if n: return self.find_class(n)
        return None
    def find_class(self, name):
        for m in self.scope:
            mod = self.P.modules.get(m)
            if mod and name in mod.classes: return mod.classes[name]
        return None
    def infer_attr(self, c, name):
        key = (c.qual, name)
        if key in self._attrT: return self._attrT[key]
        self._attrT[key] = None
        found = set()
        for k in c.mro():
            if not isinstance(k, Class): continue
            for f in k.methods.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign):
                        for tg in x.targets:
                            if isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(tg.value, ast.Name) and tg.value.id == (f.params() or [""])[0]:
                                if isinstance(x.value, ast.Call):
                                    r = f.module.resolve_expr(x.value.func)
                                    if isinstance(r, Class): found.add(r.qual)
        if len(found) == 1: self._attrT[key] = self.class_by_qual(found.pop())
        return self._attrT[key]
    def cha(self, name):
        key = ("m", name)
        if key not in self._cha:
            found = []
            for m in self.scope:
                mod = self.P.modules.get(m)
                if mod:
                    for c in mod.classes.values():
                        if name in c.methods: found.append(c)
            self._cha[key] = found
        return self._cha[key]
    def call_method(self, b, name, args, kw, st, node):
        if b[0] == "super":
            f = None
            for c in b[1].mro()[1:]:
                if isinstance(c, Class) and name in c.methods: f = c.methods[name]; break
            if f is not None: return self.maybe_inline(f, ("param", "self"), args, kw, st, node)
        c = self.typeof(b, st)
        if b[0] == "cls":
            cc = self.class_by_qual(b[1]); f = cc.find(name) if cc else None
            if f is not None:
                decos = [d.id for d in f.node.decorator_list if isinstance(d, ast.Name)]
                if "staticmethod" in decos: return self.maybe_inline(f, None, args, kw, st, node)
                if args: return self.maybe_inline(f, args[0], args[1:], kw, st, node)
        if c is None and name not in CONTAINERISH and name not in SOCKETISH and b[0] in ("attr", "item", "elem", "param", "ret", "glob", "acc"):
            cs = self.cha(name)
            if len(cs) == 1: c = cs[0]
        if c is not None:
            f = c.find(name)
            if f is not None: return self.maybe_inline(f, b, args, kw, st, node)
        return self.builtin_method(b, name, args, kw, st, node)
    def builtin_method(self, b, name, args, kw, st, node):
        s = strip_copy(b)
        if name in ("keys",) and not args: return [(("keys", s), st)]
        if name == "values" and not args: return [(("values", s), st)]
        if name == "items" and not args: return [(("items", s), st)]
        if name == "copy" and not args: return [(("copy", s), st)]
        if name == "startswith" and len(args) == 1:
            if is_const(s) and is_const(args[0]): return [(const(s[1].startswith(args[0][1])), st)]
            return [(("starts", s, args[0]), st)]
        if name == "endswith" and len(args) == 1: return [(("ends", s, args[0]), st)]
        if name == "get" and len(args) in (1, 2) and not kw:
            out = []
            for bv, y in self.assume2(st, ("in", args[0], s)):
                v = self.getitem(s, args[0], y) if bv else (args[1] if len(args) > 1 else NONE)
                if bv and (len(args) == 1 or args[1] == NONE) and strip_copy(s)[0] == "attr":
                    a = self.atom(y, v)      # what is kept in a table of the state is something
                    if a is not True and a is not False and a[0][0] == "v":
                        f = y.facts.get(a[0]); y.facts = dict(y.facts); y.facts[a[0]] = a[1] if f is None or type(f) != type(a[1]) else f.meet(a[1])
                out.append((v, y))
            return out
        if name in ("append", "add") and len(args) == 1:
            self.do_add(st, s, args[0], node, name); return [(NONE, st)]
        if name == "insert" and len(args) == 2:
            if args[0] == ("len", s): self.do_add(st, s, args[1], node, "append"); return [(NONE, st)]
            self.mutated(st, s); self.event(st, Ev("mut", "insert", s, args, where=self.where(node))); return [(NONE, st)]
        if name in ("remove", "discard") and len(args) == 1:
            if self.catches("ValueError") or self.catches("KeyError"):
                out = []
                for bv, y in self.assume2(st, ("in", args[0], s)):
                    if bv: self.do_remove(y, s, args[0], node, name)
                    elif name == "remove": y.ctrl = ("raise", ("exc", "ValueError" if self.catches("ValueError") else "KeyError", ()))
                    out.append((NONE, y))
                return out
            self.do_remove(st, s, args[0], node, name); return [(NONE, st)]
        if name == "pop" and len(args) == 2:
            out = []
            for bv, y in self.assume2(st, ("in", args[0], s)):
                if bv:
                    v = self.getitem(s, args[0], y)
                    self.do_remove(y, s, args[0], node, "delitem"); out.append((v, y))
                else: out.append((args[1], y))
            return out
        if name in ("pop", "popleft") and len(args) <= 1:
            k = const(0) if name == "popleft" else (args[0] if args else const(-1))
            if is_const(k) and isinstance(k[1], int) and not isinstance(k[1], bool):
                v = self.getitem(self.verterm(st, s), k, st)
                self.mutated(st, s)
                self.event(st, Ev("mut", "popfirst" if k[1] == 0 else "poplast" if k[1] == -1 else "popindex", s, (k,), ret=v, where=self.where(node)))
                return [(v, st)]
            v = self.getitem(s, k, st)
            res = []
            for y in self.key_guard(st, s, k):
                if y.ctrl is None: self.do_remove(y, s, k, node, "delitem")
                res.append((v, y))
            return res
        if name == "extend" and len(args) == 1:
            v = args[0]
            if v[0] == "seq":
                for e in v[2]: self.do_add(st, s, e, node, "append")
            else: self.do_extend(st, s, v, node)
            return [(NONE, st)]
        if name == "clear" and not args:
            self.mutated(st, s); st.facts[("v", self.verterm(st, s))] = Val(None, "F")
            for k in [k for k in st.items if k[0] == s]: del st.items[k]
            self.event(st, Ev("mut", "clear", s, where=self.where(node))); return [(NONE, st)]
        if name in ("update", "sort", "reverse", "popitem", "setdefault") and s[0] not in ("ext",) :
            if name == "update" and len(args) == 1 and s[0] == "obj" and s[1] == "set": self.do_extend(st, s, args[0], node); return [(NONE, st)]
            self.mutated(st, s); self.event(st, Ev("mut", name, s, args, kw, where=self.where(node)))
            if name == "setdefault" and s[0] == "obj" and len(args) == 2 and args[1][0] == "obj": return [(("item", s, args[0]), st)]
            return [(("ret", name, (s,) + tuple(args), tuple(kw)), st)]
        if name in PURE_METH:
            if is_const(s) and all(is_const(a) for a in args) and isinstance(s[1], (str, bytes)) and name in ("lower", "upper", "encode", "strip", "count", "find"):
                try: return [(const(getattr(s[1], name)(*[a[1] for a in args])), st)]
                except Exception: pass
            return [(("meth", s, name, tuple(args), tuple(kw)), st)]
        rs = self.may_raise(st, name, node)
        t = self.record(name, s, args, kw, st, node)
        return [(t, st)] + rs
    def call_ext(self, name, args, kw, st, node):
        short = name[len("builtins."):] if name.startswith("builtins.") else name
        m = getattr(self, "b_" + short.replace(".", "_"), None)
        if m is not None:
            r = m(args, kw, st, node)
            if r is not None: return r
        if short in PURE or short in _PUREEXT: return [(("call", short, tuple(args), tuple(kw)), st)]
        if short in _EXCS: return [(("call", short, tuple(args), tuple(kw)), st)]
        rs = self.may_raise(st, short, node)
        t = self.record(short, None, args, kw, st, node)
        return [(t, st)] + rs
    # builtins
    def b_len(self, args, kw, st, node):
        a = strip_copy(args[0])
        if is_const(a):
            try: return [(const(len(a[1])), st)]
            except TypeError: pass
        if a[0] == "seq": return [(const(len(a[2])), st)]
        if a[0] == "call" and a[1] in ("list", "tuple") and len(a[2]) == 1: a = strip_copy(a[2][0])
        return [(("len", self.verterm(st, a) if a[0] != "ver" else a), st)]
    def b_super(self, args, kw, st, node):
        return [(("super", self.stack[-1].cls) if self.stack[-1].cls else ("unk", "super"), st)]
    def b_hasattr(self, args, kw, st, node):
        if is_const(args[1]):
            v = st.heap.get((args[0], args[1][1]))
            if v is not None: return [(const(v != ("deleted",)), st)]
            return [(("hasattr", args[0], args[1][1]), st)]
        return None
    def b_getattr(self, args, kw, st, node):
        if len(args) >= 2 and is_const(args[1]):
            if len(args) == 2: return [(self.getattr(args[0], args[1][1], st), st)]
            out = []
            for bv, y in self.assume2(st, ("hasattr", args[0], args[1][1])):
                out.append((self.getattr(args[0], args[1][1], y) if bv else args[2], y))
            return out
        return [(("call", "getattr", tuple(args), ()), st)]
    def b_object___setattr__(self, args, kw, st, node): return self.b_setattr(args, kw, st, node)
    def b_setattr(self, args, kw, st, node):
        if is_const(args[1]): self.do_setattr(st, args[0], args[1][1], args[2], node)
        else: self.event(st, Ev("call", "setattr", None, args, (), where=self.where(node)))
        return [(NONE, st)]
    def b_delattr(self, args, kw, st, node):
        if is_const(args[1]): self.do_delattr(st, args[0], args[1][1], node)
        return [(NONE, st)]
    def b_list(self, args, kw, st, node):
        if not args: return [(self.alloc_obj(st, "list"), st)]
        if args[0][0] in ("values", "items"): return [(("copy", args[0]), st)]
        return [(("copy", strip_copy(args[0])), st)]
    def b_sorted(self, args, kw, st, node): return [(("call", "sorted", (strip_copy(args[0]),), tuple(kw)), st)]
    def b_tuple(self, args, kw, st, node): return [(("copy", strip_copy(args[0])), st)] if args else [(("seq", "tuple", ()), st)]
    def b_set(self, args, kw, st, node):
        if not args: return [(self.alloc_obj(st, "set"), st)]
        a = strip_copy(args[0])
        if a[0] == "obj" and a[1] == "list":
            # a set built from a locally built list: same elements
            return [(("call", "set", (a,), ()), st)]
        return [(("call", "set", (a,), ()), st)]
    def b_dict(self, args, kw, st, node):
        if not args and not kw: return [(self.alloc_obj(st, "dict"), st)]
        return [(("copy", strip_copy(args[0])), st)] if args else None
    def b_bool(self, args, kw, st, node):
        t = args[0]
        r = self.atom(st, t)
        return [(const(r) if r in (True, False) and isinstance(r, bool) else ("bool", t), st)]
    def b_reversed(self, args, kw, st, node): return [(("reversed", strip_copy(args[0])), st)]
    def b_bytearray(self, args, kw, st, node):
        if not args: return [(const(b""), st)]
        return [(("call", "bytes", tuple(args), ()), st)] if args[0][0] == "seq" else [(("copy", args[0]), st)]
    def b_bytes(self, args, kw, st, node):
        if not args: return [(const(b""), st)]
        if len(args) == 2: return [(("meth", args[0], "encode", (), ()), st)]
        if args[0][0] == "seq":
            if all(is_const(x) for x in args[0][2]):
                try: return [(const(bytes([x[1] for x in args[0][2]])), st)]
                except Exception: pass
            return [(("call", "bytes", tuple(args), ()), st)]
        return [(("call", "bytes", tuple(args), ()), st)]
    def b_int(self, args, kw, st, node):
        if len(args) == 1 and is_const(args[0]) and isinstance(args[0][1], (int, bool)): return [(const(int(args[0][1])), st)]
        return None
    def b_min(self, args, kw, st, node):
        if len(args) >= 2: return [(("call", "min", tuple(sorted(args, key=repr)), ()), st)]
        return None
    def b_max(self, args, kw, st, node):
        if len(args) >= 2: return [(("call", "max", tuple(sorted(args, key=repr)), ()), st)]
        return None
    def b_isinstance(self, args, kw, st, node): return [(("isinst", args[0], args[1]), st)]
    def b_any(self, args, kw, st, node): return self.quant(args[0], st, True)
    def b_all(self, args, kw, st, node): return self.quant(args[0], st, False)
    def quant(self, o, st, isany):
        """any()/all() over a comprehension: the loop that stops at the first element deciding it"""
        if o[0] != "obj": return [(("call", "any" if isany else "all", (o,), ()), st)]
        # the comprehension's loop event was just recorded: turn it into two outcomes
        evs = list(st.events)
        pos = None
        for i in range(len(evs)-1, -1, -1):
            if evs[i].kind == "loop" and any(e.kind == "mut" and e.base == o for e in self.flat_events((evs[i],))): pos = i; break
        if pos is None: return [(const(not isany), st)]
        L = evs[pos].loop
        hit, miss = [], []
        for ed in L.edges:
            vals = [e.args[0] for e in ed.events if e.kind == "mut" and e.base == o]
            rest = tuple(e for e in ed.events if not (e.kind == "mut" and e.base == o))
            if not vals: miss.append(Edge(ed.conds, rest, None, 0, 0)); continue
            tmp = st.copy(); tmp.conds = dict(ed.conds)
            for b, y in self.assume2(tmp, vals[0]):
                (hit if b == isany else miss).append(Edge(y.conds, rest, None, 0, 0))
        out = []
        y = st.copy()
        y.events = tuple(evs[:pos]) + tuple(evs[pos+1:])
        keep = [e for e in miss if e.events]
        if keep: y.events = tuple(evs[:pos]) + (Ev("loop", None, L.it, loop=LoopInfo(L.it, miss, None, True, L.kind), where=evs[pos].where),) + tuple(evs[pos+1:])
        qk = ("b", ("call", "exists", (L.it, ("seq", "set", tuple(sorted((("unk", show_conds(h.conds)) for h in hit), key=repr)))), ()))
        for h in hit:
            z = st.copy()
            z.events = tuple(evs[:pos]) + ((Ev("loop", None, L.it, loop=LoopInfo(L.it, miss, h, False, L.kind), where=evs[pos].where),) if h.events or keep else ()) + tuple(evs[pos+1:])
            for k, d in h.conds.items():
                if not any(t[0] in ("elem", "idx") for t in subterms(k[1])): self.restrict(z, k, d)
            z.conds[qk] = YES
            out.append((const(isany), z))
            break
        y.conds[qk] = NO
        out.append((const(not isany), y))
        return out
    def b_next(self, args, kw, st, node):
        o = args[0]
        if o[0] == "call" and o[1] == "iter" and len(o[2]) == 1: return [(self.elem(strip_copy(o[2][0]), st), st)]
        if o[0] == "obj":
            srcs = self.obj_sources(o, st)
            if srcs is not None:
                out = []
                for v, c, _ in srcs: out.append((v, st.copy()))
                if len(args) > 1: out.append((args[1], st.copy()))
                else:
                    y = st.copy(); y.ctrl = ("raise", ("exc", "StopIteration", ())); out.append((NONE, y))
                return out
        return None
    def b_map(self, args, kw, st, node):
        return None
    def b_copy_deepcopy(self, args, kw, st, node): return [(("call", "deepcopy", tuple(args), ()), st)]
    def b_copy_copy(self, args, kw, st, node): return [(("call", "shallowcopy", tuple(args), ()), st)]

class _CompBody(ast.AST):
    _fields = ()
    def __init__(self, g, run, interp): self.g, self.run = g, run
class _FakeFor(ast.AST):
    _fields = ()
    def __init__(self, n): self.lineno = getattr(n, "lineno", 0)

def dotted(e):
    if isinstance(e, ast.Name): return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None
class _NC:
    def __repr__(self): return "NOTCONST"
    def __bool__(self): return False
_NOTCONST = _NC()
NOTCONST = _NOTCONST
def _simple(v): return v is None or isinstance(v, (int, str, bytes, float, bool))
_OPN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.Pow: "**"}
def _binop(op, a, b):
    import operator as o
    fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.LShift: o.lshift, ast.RShift: o.rshift,
          ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.BitXor: o.xor, ast.Pow: o.pow, ast.Div: o.truediv}.get(type(op))
    try:
        if fn is None: return _NOTCONST
        if isinstance(op, ast.Pow) and (abs(a) > 1000 or abs(b) > 200): return _NOTCONST
        if isinstance(op, ast.LShift) and b > 512: return _NOTCONST
        return fn(a, b)
    except Exception: return _NOTCONST
import builtins as _b
_BUILTINS = set(dir(_b))
_EXCS = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
_PUREEXT = {"time.monotonic", "time.time", "uuid.uuid4", "copy.copy", "copy.deepcopy", "os.path.join", "struct.pack", "struct.unpack", "json.dumps", "random.choice",
            "time.clock", "time.process_time", "os.path.exists", "base64.b64encode", "hashlib.sha1"}
