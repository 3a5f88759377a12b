"""Topic filters: placement of wildcards and matching of names."""
import itertools, re
from ..brokers import both
from ..query import *
from ..fold import Raised, Lost, Unclear, Endless, Sym
from ..terms import subterms
from ..dom import YES, NO
from ..project import AnalysisBroken
from .. import regex
from .c08 import say

def check(c):
    c.rule("valid", "a filter is accepted exactly if it is not empty and each + is alone in its level and a # alone in the last level; the code is folded for all arrangements of these characters up to six, and for the lengths about the limit")
    c.rule("language", "for each shape of filter and each special character, the pattern the code makes of the filter accepts the same topic names, of any length, as the standard's rule: decided by comparing automata")
    c.rule("stored", "a subscription is stored only for a filter found valid, and a message retained only under a name found valid and without wildcards")
    for b in both(c):
        c.part(b.v + ".valid", valid, c, b)
        c.part(b.v + ".matching", matching, c, b)
        c.part(b.v + ".stored", stored, c, b)

def good(f):
    "the standard's rule about wildcards"
    if not f: return False
    ls = f.split("/")
    return all(("+" not in l or l == "+") and ("#" not in l or l == "#" and i == len(ls) - 1) for i, l in enumerate(ls))

def spec(f):
    "a pattern for the names a filter matches"
    ls = f.split("/")
    more = ls[-1] == "#"
    if more: ls = ls[:-1]
    if more and not ls: return ".*"
    return "/".join("[^/]*" if l == "+" else re.escape(l) for l in ls) + ("(/.*)?" if more else "")

def valid(c, b):
    fn = c.P.func(b.mods[4], "isValidTopicName"); where = "%s:%d: isValidTopicName" % (fn.module.rel, fn.node.lineno)
    from ..fold import Fn as FF
    F = c.fold(most=4, steps=2000000)
    bad = []
    def ask(f):
        rs = F.run(lambda g: g.call(FF(fn), f)); c.count("filters folded")
        if len(rs) != 1: raise Lost("whether a filter is valid is not determined")
        v = rs[0][0]
        if isinstance(v, Lost): raise v
        if isinstance(v, Endless): return None
        return False if isinstance(v, Raised) else bool(v)
    for n in range(7):
        for f in itertools.product("a/+#", repeat=n):
            f = "".join(f)
            v = ask(f)
            if v is not good(f): bad.append("%r is %s" % (f, {True: "accepted", False: "refused", None: "examined for ever"}[v]))
        if bad: break
    for n, want in ((65534, True), (65535, True), (65536, False), (70000, False)):
        if ask("a" * n) is not want: bad.append("a filter of %d characters is %s" % (n, "refused" if want else "accepted"))
    c.ob(b.v + ".valid", not bad, where, "; ".join(bad[:4]))

SPECIAL = [chr(i) for i in range(1, 128) if chr(i) not in "+#/"] + ["\u00e9", "\u2603", "\U0001f600"]
def shapes(five):
    levels = ["", "a", "+", "bc"]
    out = []
    for n in range(1, 5):
        for ls in itertools.product(levels if n < 4 else levels[1:3], repeat=n):
            for tail in ("", "/#"): out.append("/".join(ls) + tail)
    out += ["#", "a/+/b/+/c/#", "+/+/+/+/+", "a/b/c/d/e/f"]
    for ch in SPECIAL: out += ["x%sy/+" % ch, "%s/#" % ch, "+/%s" % ch, "x%sy" % ch, "+/%s%s" % (ch, ch)]
    meta = "\\.^$*?{}[]|()-&~dwsAbZB0,!=<:Pi"
    out += ["+/" + x + y for x in meta for y in meta] + ["x" + x + y + "/#" for x in meta[:16] for y in meta]
    out += ["+/" + x for x in ("(?i)a", "(?P<n>a)", "[a-z]", "a{2}", "a{2,3}", "\\d+"[:2], "a|b", ".*", "(a)", "^a$", "\\Z", "[^/]")]
    seen, res = set(), []
    for f in out:
        if good(f) and f not in seen: seen.add(f); res.append((f, f))
    if five: res += [("$share/g/" + f, f) for f in ("a", "+", "#", "a/#", "+/b", "/#", "/", "a/+/b") ] + [(f, f) for f in ("$share/g", "$shared", "$SYS/+", "$SYS/#", "$share")]
    else: res += [(f, f) for f in ("$share/g/a", "$share/g/+", "$SYS/#", "$SYS/+/a")]
    return res

TOPIC = ("$topic",)
class Topic:
    "what is known about a name: neither empty nor too long, without wildcards"
    def __call__(self, t):
        v = self.ev(t)
        return v if isinstance(v, bool) else None
    def ev(self, t):
        if not isinstance(t, tuple) or not t: return t
        k = t[0]
        mentions = lambda x: x == TOPIC or isinstance(x, tuple) and any(mentions(y) for y in x)
        if not mentions(t): return t[1] if k in ("const", "c") and len(t) == 2 else None
        if k in (".find", ".count", ".rfind") and len(t) == 3 and self.const(t[2]) in ("+", "#"): return 0 if k == ".count" else -1
        if k == "in" and self.const(t[1]) in ("+", "#"): return False
        if k in ("==", "!=", "<") and len(t) == 3:
            x, y = self.ev(t[1]), self.ev(t[2])
            if isinstance(x, int) and isinstance(y, int): return x == y if k == "==" else x != y if k == "!=" else x < y
            n = lambda z: isinstance(z, tuple) and z and z[0] == "len" and TOPIC in z
            if n(t[1]) and isinstance(y, int):
                if k == "<": return True if y > 65535 else False if y <= 1 else None
                if k == "==" and not 1 <= y <= 65535: return False
            if n(t[2]) and isinstance(x, int) and k == "<": return True if x < 1 else False if x >= 65535 else None
            e = lambda z: self.const(z) == ""
            if k in ("==", "!=") and (t[1] == TOPIC and e(t[2]) or t[2] == TOPIC and e(t[1])): return k == "!="
        if k == "not":
            v = self.ev(t[1]); return None if v is None else not v
        return None
    def const(self, t):
        if isinstance(t, (str, int)): return t
        return t[1] if isinstance(t, tuple) and len(t) == 2 and t[0] in ("const", "c") else None

def atoms(t, out):
    "the conditions about the name a term is made of, as languages; a function from which of them hold to the term's truth"
    if isinstance(t, bool): return lambda h: t
    const = Topic().const
    def add(p, how="fullmatch", fl=re.DOTALL):
        k = (p, how, fl)
        if k not in out: out.append(k)
        i = out.index(k)
        return lambda h: h[i]
    k = t[0]
    if t == TOPIC: return lambda h: True
    if k == "not": f = atoms(t[1], out); return lambda h: not f(h)
    if k in ("!=", "isnot", "notin"): f = atoms(({"!=": "==", "isnot": "is", "notin": "in"}[k],) + t[1:], out); return lambda h: not f(h)
    if k == "matched": return add(t[2], t[1], t[3])
    if k in ("==", "is"):
        x, y = t[1], t[2]
        for u, w in ((x, y), (y, x)):
            if isinstance(u, tuple) and u and u[0] == "matched" and w in (None, ("const", None), ("c", None)): f = atoms(u, out); return lambda h: not f(h)
            if u == TOPIC and isinstance(const(w), str): return add(re.escape(const(w)))
            if isinstance(u, tuple) and u and u[0] in (".startswith", ".endswith", "==", "in", "not", "matched") and const(w) in (True, False):
                f, want = atoms(u, out), const(w); return lambda h: f(h) == want
            if isinstance(u, tuple) and u and u[0] == ".find" and u[1] == TOPIC and isinstance(const(u[2]), str) and const(w) in (-1, 0):
                s = re.escape(const(u[2]))
                f = add(s, "search" if const(w) == -1 else "match"); return (lambda h: not f(h)) if const(w) == -1 else f
    if k == ".startswith" and t[1] == TOPIC and isinstance(const(t[2]), str): return add(re.escape(const(t[2])), "match")
    if k == ".endswith" and t[1] == TOPIC and isinstance(const(t[2]), str): return add(".*" + re.escape(const(t[2])))
    if k == "in" and t[2] == TOPIC and isinstance(const(t[1]), str): return add(re.escape(const(t[1])), "search")
    raise Lost("the condition %r about a name" % (t,))

def matching(c, b):
    fn = c.P.func(b.mods[4], "topicMatches"); where = "%s:%d: topicMatches" % (fn.module.rel, fn.node.lineno)
    from ..fold import Fn as FF
    F = c.fold(most=60, steps=2000000, oracle=Topic())
    F.stubs["isValidTopicName"] = lambda f, a, k: True       # both are valid; see .valid
    def decide(how, pattern, subject, fl):
        if isinstance(subject, str): return regex.constant(how, pattern, subject, fl)
        if not isinstance(subject, Sym) or subject.term != TOPIC: raise Lost("something made of the name is matched")
        return Sym(("matched", how, pattern, fl), None)
    F.stubs.update(regex.stubs(decide))
    bad, lost = [], None
    for wild, core in shapes(b.five):
        for chk in ((), (True,), (False,)) if wild in ("a", "a/+", "#") else ((),):
            try: m = one(c, F, FF(fn), wild, core, chk)
            except Unclear as e: lost = e; break
            if m: bad.append("the filter %r: %s" % (wild, m))
        if lost or len(bad) > 3: break
    if lost and not bad:
        F2 = c.fold(most=60, steps=200000); F2.stubs.update(regex.stubs(regex.constant))
        bad = samples(c, F2, FF(fn), b, lost)
    c.ob(b.v + ".matching", not bad, where, "; ".join(bad[:4]))

def one(c, F, fn, wild, core, chk):
    rs = F.run(lambda f: f.call(fn, wild, Sym(TOPIC, str), *chk)); c.count("filters compared with the standard's rule")
    langs, ways = [(spec(core), "fullmatch", re.DOTALL)], []
    for v, asked, _ in rs:
        if isinstance(v, Lost): raise v
        conds = []
        for t, a in asked:
            f = atoms(t, langs); conds.append((f, a))
        if isinstance(v, (Raised, Endless)): out = say(v)
        elif isinstance(v, Sym): out = atoms(v.term, langs)
        else: out = (lambda x: lambda h: x)(bool(v))
        ways.append((conds, out))
    ls = [regex.Language(*k) for k in langs]
    def judge(h):
        for conds, out in ways:
            if all(f(h) == a for f, a in conds):
                if isinstance(out, str): return out
                return None if bool(out(h)) == h[0] else "matches" if not h[0] else "does not match"
        return "no outcome"
    r = regex.compare(ls, judge, forbidden="+#\0")
    if r: return "%r %s" % r if r[1] in ("matches", "does not match") else "%r: %s" % r

def samples(c, F, fn, b, why):
    "when the code compares level by level: names of up to five characters"
    c.count("filters folded with constant names instead (%s)" % why)
    names = ["".join(x) for n in range(1, 5) for x in itertools.product("ab/", repeat=n)] + ["a\n", "a/b\n", "\n", "a\n/b", ".", "a.b", "axb", "bc/bc", "a/bc/a/a/a"]
    bad = []
    wilds = [(w, k) for w, k in shapes(b.five) if set(w) <= set("ab+#/") and w.count("/") <= 3 or w in ("a.b", "+/.", "a.b/#") or w.startswith("$share/g/")]
    for wild, core in wilds:
        r = re.compile(spec(core), re.DOTALL)
        for n in names:
            rs = F.run(lambda f: f.call(fn, wild, n))
            if len(rs) != 1 or isinstance(rs[0][0], Lost): raise rs[0][0] if isinstance(rs[0][0], Lost) else Lost("whether a filter matches is not determined")
            v = rs[0][0]
            if isinstance(v, (Raised, Endless)): bad.append("the filter %r with %r: %s" % (wild, n, say(v)))
            elif bool(v) != (r.fullmatch(n) is not None): bad.append("the filter %r: %r %s" % (wild, n, "matches" if v else "does not match"))
            if len(bad) > 3: return bad
    return bad

def stored(c, b):
    f = b.fn("SubscriptionEngines.__subscribe")
    name = "aTopic"
    def proven(p, what):
        "the path's conditions say that the name is valid"
        for k, d in p.conds.items():
            if k[0] not in ("b", "v"): continue
            t = norm(k[1])
            if t[0] in ("call", "ret") and str(t[1]).split(".")[-1] == "isValidTopicName" and t[2] and norm(t[2][-1]) == what:
                if d == YES or repr(d) in ("T",): return True
        return False
    def stores(p):
        out = []
        for o in p.flat():
            op, base, args = event_op(o.ev)
            if op in ("ADD", "PUT") and base is not None and base[0] != "obj": out.append(o)
            if o.ev.kind == "call" and o.ev.name.split(".")[-1] == "resubscribe": out.append(o)
        return out
    n = [0]
    def test(p):
        s = stores(p); n[0] += len(s)
        if s and not proven(p, norm(f.T(name))): return "a subscription is stored without isValidTopicName having found its filter valid"
    c.each(b.v + ".stored.subscription", f, [], test)
    if not n[0]: raise AnalysisBroken("%s: nothing is stored" % f.where)
    g = b.fn("SubscriptionEngines.setRetained")
    m = [0]
    def test2(p):
        s = [o for o in p.flat() if event_op(o.ev)[0] == "PUT"]; m[0] += len(s)
        if not s: return
        if not proven(p, norm(g.T(name))): return "a message is retained without isValidTopicName having found its name valid"
        free = [w for w in "+#" if p.entails("aTopic.find('%s') == -1" % w) or p.entails("'%s' not in aTopic" % w)]
        if len(free) == 1 and (p.entails("aTopic.find('#') == aTopic.find('+')") or p.entails("aTopic.find('+') == aTopic.find('#')")): return
        if len(free) < 2: return "a message may be retained under a name with %s" % ("#" if free == ["+"] else "+")
    c.each(b.v + ".stored.retained", g, [], test2)
    if not m[0]: raise AnalysisBroken("%s: nothing is retained" % g.where)
