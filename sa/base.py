"""Obligations, evidence and verdicts."""
import json, os, sys, time, traceback
from .project import Project, AnalysisBroken
from .interp import Interp, show_conds
from .query import *
from .query import event_op
from .terms import *
from .loops import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("VERIF_REPO", "/repo")

def known_findings():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = line[len("finding:"):].strip()
                parts = f.split(None, 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                out.setdefault(d["property"], {})[d["key"]] = parts[2] if len(parts) > 2 else ""
    return out

def holds(t, attrs):
    "the term is (part of) what one of these attributes of an existing object holds"
    while True:
        if t[0] in ("ver", "copy"): t = t[1]
        elif t[0] == "attr":
            if t[2] in attrs: return t[1][0] != "new"
            t = t[1]
        elif t[0] == "alt": return any(holds(x, attrs) for x in t[1])
        else: return False

def judged(m):
    "an obligation whose code the analysis does not understand is reported as undecided"
    import functools
    @functools.wraps(m)
    def w(self, oid, *a, **k):
        try: return m(self, oid, *a, **k)
        except AnalysisBroken as e: return self.undecided_(oid, e)
        except (RecursionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
            if os.environ.get("VERIF_DEBUG"): raise
            return self.undecided_(oid, e)
    return w

class Check:
    def __init__(self, pid, project=None, tier=None):
        self.pid = pid
        self.P = project or Project(REPO)
        self.obs = []
        self.rules = {}
        self.fns = {}
        self.interps = []
        self.units = {}
        self.t0 = time.time()
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.only = None
        self.undecided = []
    # ---- obligations
    def undecided_(self, oid, e):
        if (oid, str(e)) not in self.undecided: self.undecided.append((oid, str(e) or repr(e)))
        return None
    def part(self, name, fn, *a, **k):
        "a part of the check that does not keep the others from being made if it cannot be"
        return judged(lambda self, oid: fn(*a, **k))(self, name)
    def ob(self, oid, ok, where, msg=""):
        self.obs.append((oid, bool(ok), where, msg))
        return ok
    def rule(self, rid, text): self.rules[rid] = text
    def count(self, unit, n=1): self.units[unit] = self.units.get(unit, 0) + n
    # ---- function summaries
    def interp(self, **kw):
        I = Interp(self.P, **kw); self.interps.append(I); return I
    def fold(self, **kw):
        from .fold import Fold
        F = Fold(self.P, **kw); self.interps.append(F); return F
    # ---- rule forms
    @judged
    def each(self, oid, fn, guards, test, skip_raised=True, what=""):
        "every class of paths of fn consistent with the guards passes the test (returns None or a complaint)"
        ps = fn.given(*guards)
        n = 0
        for p in ps:
            if skip_raised and p.raised: continue
            n += 1
            m = test(p)
            if m:
                self.ob(oid, False, fn.where, "%s [on the path %s]" % (m, p.text()[:600]))
                return False
        self.count("path classes judged", n)
        self.ob(oid, True, fn.where, what)
        return True
    def exactly(self, oid, fn, guards, patterns, n=1, at=None, skip_raised=True):
        patterns = [patterns] if isinstance(patterns, str) else patterns
        def test(p):
            lo, hi = p.count(*patterns)
            if lo == hi == n: return None
            if hi < n: return "%s does not happen" % " / ".join(patterns) if n == 1 else "%s happens fewer than %d times" % (patterns, n)
            if lo > n or hi > n: return "%s can happen %s times, expected %s" % (" / ".join(patterns), "many" if hi == float("inf") else hi, n)
            return "%s happens only under some further condition" % " / ".join(patterns)
        return self.each(oid, fn, guards, test, skip_raised)
    def never(self, oid, fn, guards, patterns, skip_raised=False, unless=None):
        patterns = [patterns] if isinstance(patterns, str) else patterns
        def test(p):
            ms = p.find(*patterns)
            for m in ms:
                # the event may sit under conditions (a loop edge) that contradict the guards
                if not fn.assume(m.conds, guards): continue
                if unless and not (fn.assume(m.conds, ["not (%s)" % unless]) and fn.assume(erase(m.conds), ["not (%s)" % unless])): continue
                return "%s happens (%s)" % (m.ev, m.where)
        return self.each(oid, fn, guards, test, skip_raised)
    def must(self, oid, fn, guards, patterns, skip_raised=True):
        patterns = [patterns] if isinstance(patterns, str) else patterns
        def test(p):
            lo, hi = p.count(*patterns)
            return None if lo >= 1 else "%s does not happen" % " / ".join(patterns)
        return self.each(oid, fn, guards, test, skip_raised)
    @judged
    def only_if(self, oid, fn, patterns, cond, atleast=1):
        "every occurrence of the effect lies under the condition"
        patterns = [patterns] if isinstance(patterns, str) else patterns
        n = 0
        for p in fn.paths:
            for m in p.find(*patterns):
                n += 1
                if fn.assume(m.conds, ["not (%s)" % cond]) and fn.assume(erase(m.conds), ["not (%s)" % cond]):
                    return self.ob(oid, False, fn.where, "%s (%s) is reached without %s [path %s]" % (m.ev, m.where, cond, show_conds(m.conds)[:500]))
        self.count("path classes judged", n)
        return self.ob(oid, n >= atleast, fn.where, "" if n >= atleast else "the effect %s never happens" % " / ".join(patterns))
    def before(self, oid, fn, guards, first, second, skip_raised=True, every=True):
        "whenever second happens, first has happened before it (on the same path)"
        def test(p):
            fl = p.flat()
            seen = False
            p1, p2 = fn.pat(first), fn.pat(second)
            for o in fl:
                if p1.match(o.ev) is not None: seen = True
                if p2.match(o.ev) is not None and not seen:
                    return "%s happens before %s" % (o.ev, first)
        return self.each(oid, fn, guards, test, skip_raised)
    def order(self, oid, fn, guards, first, second, skip_raised=False):
        "first never happens after second"
        firsts = [first] if isinstance(first, str) else first
        def test(p):
            p1, p2 = [fn.pat(x) for x in firsts], fn.pat(second)
            gone = None
            for o in p.flat():
                if gone is not None and any(x.match(o.ev) is not None for x in p1): return "%s happens only after %s" % (o.ev, gone)
                if p2.match(o.ev) is not None: gone = o.ev
        return self.each(oid, fn, guards, test, skip_raised)
    @judged
    def for_each(self, oid, fn, guards, cont, elguards, patterns, n=1, early=False, skip_raised=True, optional=False, test=None):
        """for every element of the container with elguards the effect happens exactly n times (test(edge path) instead, if given),
        and no element is left out by leaving the loop early"""
        patterns = [patterns] if isinstance(patterns, str) else list(patterns)
        pats = [fn.pat(x) for x in patterns]
        c = fn.T(cont)
        having = []
        def vacuous(p):
            "the path differs from one with the loop only in what the loop finds"
            if not having: having.extend([q.conds for q in fn.given(*guards) if loops_over(q, c)] or [None])
            return p.conds in having
        def judge(p):
            ls = loops_over(p, c)
            if not ls: return None if optional or p.entails("not " + cont) or p.entails("len(%s) == 0" % cont) or vacuous(p) else "%s is not gone through" % cont
            lo = hi = 0
            for o, e in skips(p):
                if any(x.ev is o.ev for x in ls): return "the loop over %s skips elements: its body removes some (%s)" % (cont, e)
            for o in ls:
                if not early:
                    for ed in edges_of(o.ev.loop):
                        if ed.ctrl is not None and ed.ctrl[0] not in ("continue",) and not (skip_raised and ed.ctrl[0] == "raise"):
                            return "the loop over %s may end before all elements were handled" % cont
                los, his = [], []
                for ed in edges_of(o.ev.loop):
                    if ed.ctrl is not None and ed.ctrl[0] == "raise" and skip_raised: continue
                    cc = erase(o.conds); cc.update(erase(ed.conds))
                    if not fn.assume(cc, list(guards) + list(elguards)): continue
                    if test is not None:
                        m = test(PathQ(fn, dict(o.conds, **{}) | dict(ed.conds), ed.events, ed.ctrl, p.heap, p.facts))
                        if m: return m
                    l, h = count_events(ed.events, pats)
                    los.append(l); his.append(h)
                if los: lo += min(los); hi += max(his)
            if test is None and (lo, hi) != (n, n):
                return "%s happens %s times for an element of %s%s, expected %d" % (" / ".join(patterns), lo if lo == hi else "%s to %s" % (lo, "many" if hi == INF else hi), cont, (" with " + " and ".join(elguards)) if elguards else "", n)
        return self.each(oid, fn, guards, judge, skip_raised)
    def stable(self, oid, fn):
        "no loop of the function goes on through a container that its body shrinks"
        def test(p):
            for o, e in skips(p): return "the loop over %s goes on after its body removed an element (%s)" % (show(o.ev.loop.it), e)
        return self.each(oid, fn, [], test, skip_raised=False)
    @judged
    def mentions(self, oid, modules, attrs, allowed):
        "every function of these modules that mentions one of the attributes is among the allowed (analysed) ones"
        import ast
        bad, n = [], 0
        for m in modules:
            M = self.P.mod(m)
            fs = list(M.functions.values()) + [f for cl in M.classes.values() for f in cl.methods.values()]
            for f in fs:
                if any(isinstance(x, ast.Attribute) and x.attr in attrs for x in ast.walk(f.node)):
                    n += 1
                    if f.qual not in allowed: bad.append(f.short)
        self.count("functions searched for uses", n)
        return self.ob(oid, not bad, ", ".join(modules), "" if not bad else "%s used in %s, outside the functions analysed" % ("/".join(attrs), ", ".join(bad)))
    def untouched(self, oid, fn, *attrs, fresh=True):
        "the function changes no attribute of these names, nor what it holds (objects it creates itself excepted)"
        def test(p):
            for o in p.flat():
                e = o.ev
                if e.kind in ("setattr", "delattr") and e.name in attrs and e.base[0] != "new": return "%s (%s)" % (e, e.where)
                op, cont, a = event_op(e)
                if op and holds(cont, attrs): return "%s (%s)" % (e, e.where)
        return self.each(oid, fn, [], test, skip_raised=False)
    # ---- verdict
    def finish(self):
        kf = known_findings().get(self.pid, {})
        bad = [o for o in self.obs if not o[1]]
        new, known = [], []
        for o in bad:
            (known if o[0] in kf else new).append(o)
        for o, w in self.undecided: print("UNDECIDED %s: %s" % (o, w))
        for o in known: print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, o[0], kf[o[0]]))
        os.makedirs(EVID, exist_ok=True)
        files = sorted({self.P.modules[m].rel for m in self.P.consulted})
        funcs = sorted(set().union(*[i.functions for i in self.interps]) if self.interps else set())
        cov = {
            "explanation": "Static analysis of the current source: guarded effect summaries (path-sensitive dataflow with finite condition domains and loop widening) of the functions below, judged obligation by obligation; no code of the repository is executed.",
            "obligations": len(self.obs), "discharged": len(self.obs) - len(bad),
            "rules": self.rules, "functions_analysed": len(funcs), "functions": funcs, "files": files,
            "path_classes": sum(i.npaths for i in self.interps), "abstract_states": sum(i.nstates for i in self.interps),
            "units": self.units, "undecided": [{"obligation": o, "why": w} for o, w in self.undecided],
            "samples": [{"obligation": o[0], "at": o[2], "holds": o[1], "detail": o[3]} for o in self.obs[:400]],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        path = os.path.join(EVID, self.pid + ".json")
        with open(path, "w") as f: json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(EVID, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for o in new: f.write("%s\n  at %s\n  %s\n\n" % (o[0], o[2], o[3]))
            for o in new: print("%s: at %s: %s" % (o[0], o[2], o[3]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)))
            return 1
        print("%s: %d obligations hold (%d functions, %d path classes)%s" % (self.pid, len(self.obs) - len(bad), len(funcs), cov["path_classes"], ", %d known findings" % len(known) if known else ""))
        return 0

def run(pid, fn, project=None):
    c = Check(pid, project)
    c.part("rest", fn, c)
    try:
        rc = c.finish()
    except Exception: traceback.print_exc(); return 2
    # no answer if most of the property could not be judged
    if rc == 0 and len(c.obs) <= len(c.undecided): return 2
    return rc
