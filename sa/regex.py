"""Regular expressions as languages: what a pattern of the standard library's re accepts, decided by automata, and the module re on constants."""
import re, re._parser as sre, re._constants as K
from .fold import Sym, Ext, Model, Lost, Raised

# ---- automata ---------------------------------------------------------------------------------------------------
class Language:
    "the subjects a pattern matches, by 'match', 'fullmatch' or 'search'"
    def __init__(self, pattern, how="fullmatch", flags=0):
        self.how, self.flags, self.edges, self.final = how, flags, [], None
        try: tree = sre.parse(pattern, flags)
        except re.error as e: raise Raised(e)
        self.flags |= tree.state.flags
        if self.flags & ~(re.DOTALL | re.UNICODE | re.VERBOSE): raise Lost("regular expression flags")
        self.chars = {"/", "\n", "a", "0", "_", " ", "\u00e9", "\u2603"}
        s, e = self.node(), self.node()
        self.seq(list(tree), s, e)
        self.start, self.final = s, e
        if how == "search": self.edges[s].append((("set", lambda ch: True), s))
        if how != "fullmatch": self.edges[e].append((("set", lambda ch: True), e))
    def node(self): self.edges.append([]); return len(self.edges) - 1
    def eps(self, a, b): self.edges[a].append((("eps",), b))
    def seq(self, items, s, e):
        at = s
        for op, av in items:
            n = self.node(); self.one(op, av, at, n); at = n
        self.eps(at, e)
    def one(self, op, av, s, e):
        put = lambda f: self.edges[s].append((("set", f), e))
        if op is K.LITERAL: self.chars.add(chr(av)); put(lambda ch: ord(ch) == av)
        elif op is K.NOT_LITERAL: self.chars.add(chr(av)); put(lambda ch: ord(ch) != av)
        elif op is K.ANY: put((lambda ch: True) if self.flags & re.DOTALL else (lambda ch: ch != "\n"))
        elif op is K.IN: put(self.charset(av))
        elif op is K.BRANCH:
            for x in av[1]: self.seq(list(x), s, e)
        elif op is K.SUBPATTERN:
            if av[1] or av[2]: raise Lost("flags within a regular expression")
            self.seq(list(av[3]), s, e)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, body = av; at = s
            if lo > 50 or (hi is not K.MAXREPEAT and hi > 50): raise Lost("long repetition")
            for _ in range(lo): n = self.node(); self.seq(list(body), at, n); at = n
            if hi is K.MAXREPEAT:
                n, m = self.node(), self.node(); self.eps(at, n); self.seq(list(body), n, m); self.eps(m, n); self.eps(n, e)
            else:
                self.eps(at, e)
                for _ in range(hi - lo): n = self.node(); self.seq(list(body), at, n); at = n; self.eps(at, e)
        elif op is K.AT:
            kind = {K.AT_BEGINNING: "begin", K.AT_BEGINNING_STRING: "begin", K.AT_END: "end", K.AT_END_STRING: "very end"}.get(av)
            if kind is None: raise Lost("assertion in a regular expression")
            self.edges[s].append(((kind,), e))
        else: raise Lost("regular expression with %s" % op)
    def charset(self, items):
        neg, tests = False, []
        for op, av in items:
            if op is K.NEGATE: neg = True
            elif op is K.LITERAL: self.chars.add(chr(av)); tests.append(lambda ch, av=av: ord(ch) == av)
            elif op is K.RANGE:
                for x in (av[0] - 1, av[0], av[1], av[1] + 1):
                    if 0 <= x < 0x110000: self.chars.add(chr(x))
                tests.append(lambda ch, av=av: av[0] <= ord(ch) <= av[1])
            elif op is K.CATEGORY:
                c = {K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s", K.CATEGORY_NOT_SPACE: r"\S", K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W"}.get(av)
                if c is None: raise Lost("category in a regular expression")
                r = re.compile(c); tests.append(lambda ch, r=r: r.match(ch) is not None)
            else: raise Lost("character set with %s" % op)
        return lambda ch: any(t(ch) for t in tests) != neg
    # a state is a set of (node, what may still come: 0 anything, 1 nothing or one line end, 2 nothing)
    def close(self, states, begin):
        todo, seen = list(states), set(states)
        while todo:
            n, m = todo.pop()
            for lab, t in self.edges[n]:
                if lab[0] == "eps": x = (t, m)
                elif lab[0] == "begin" and begin: x = (t, m)
                elif lab[0] == "end": x = (t, max(m, 1))
                elif lab[0] == "very end": x = (t, 2)
                else: continue
                if x not in seen: seen.add(x); todo.append(x)
        return frozenset(seen)
    def first(self): return self.close({(self.start, 0)}, True)
    def step(self, states, ch):
        out = set()
        for n, m in states:
            if m == 2 or m == 1 and ch != "\n": continue
            for lab, t in self.edges[n]:
                if lab[0] == "set" and lab[1](ch): out.add((t, 2 if m == 1 else m))
        return self.close(out, False)
    def accepts(self, states): return any(n == self.final for n, m in states)

def compare(languages, judge, forbidden="", extra=(), most=20000):
    "a shortest nonempty subject on which judge(which of the languages accept it) complains, with its complaint, or None"
    chars = set(extra)
    for l in languages: chars |= l.chars
    chars = sorted(chars - set(forbidden))
    start = tuple(l.first() for l in languages)
    work, seen = [(start, "")], {start}
    while work:
        nxt = []
        for st, s in work:
            for ch in chars:
                n = tuple(l.step(x, ch) for l, x in zip(languages, st))
                if n in seen: continue
                seen.add(n)
                if len(seen) > most: raise Lost("a regular expression with too many states")
                m = judge([l.accepts(x) for l, x in zip(languages, n)])
                if m: return s + ch, m
                nxt.append((n, s + ch))
        work = nxt

# ---- the module re, for Fold ------------------------------------------------------------------------------------
def flags(v):
    if v is None: return 0
    if isinstance(v, bool) or not isinstance(v, (int, Ext)): raise Lost("flags which are not constant")
    if isinstance(v, int): return int(v)
    n = v.name.split(".")[-1]
    if not isinstance(getattr(re, n, None), re.RegexFlag): raise Lost("flags which are not constant")
    return int(getattr(re, n))

def stubs(decide):
    "re.compile and the like, with decide(how, pattern, subject, flags) as the outcome"
    HOW = ("match", "fullmatch", "search")
    def ask(how, pattern, subject, fl):
        if not isinstance(pattern, str): raise Lost("a pattern which is not constant")
        return decide(how, pattern, subject, flags(fl))
    def arg(a, k, i, n): return a[i] if len(a) > i else k.get(n)
    def comp(f, a, k):
        p, fl = arg(a, k, 0, "pattern"), arg(a, k, 1, "flags")
        if isinstance(p, Model): return p
        m = Model("pattern", pattern=p)
        for h in HOW: m.attrs[h] = lambda f, b, kk, h=h: ask(h, p, arg(b, kk, 0, "string"), fl)
        return m
    out = {"re.compile": comp}
    for h in HOW:
        def direct(f, a, k, h=h):
            p = arg(a, k, 0, "pattern")
            return ask(h, p.attrs["pattern"] if isinstance(p, Model) else p, arg(a, k, 1, "string"), arg(a, k, 2, "flags"))
        out["re." + h] = direct
    out["re.escape"] = lambda f, a, k: re.escape(a[0]) if isinstance(a[0], str) else Sym(("escape", f.term(a[0])), str)
    return out

def constant(how, pattern, subject, fl):
    if not isinstance(subject, str): raise Lost("a subject which is not constant")
    try: m = getattr(re, how)(pattern, subject, fl)
    except re.error as e: raise Raised(e)
    return None if m is None else Model("match", group=lambda f, a, k: m.group(*a), groups=lambda f, a, k: m.groups())
