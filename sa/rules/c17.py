from ..brokers import both
from .c15 import *
from .c15 import own_edges, innermost, is_own_list, is_min, V5Router

def picked(r, f, p, t):
    """the term is one element picked from a local list of matching subscriptions: [(member, conditions)], the subscription itself
    if it is one of the loop's own, None if not understood"""
    t = strip(t)
    if t[0] in ("call", "ret") and t[1].split(".")[-1] in ("choice",) and t[2]: return among(r, p, t[2][-1])
    if t[0] == "meth" and t[2] == "choice": return among(r, p, t[3][0])
    if t[0] == "item" and local_obj(t[1]) is not None: return among(r, p, t[1])
    return None

def among(r, p, t):
    "what the container picked from holds; members of a dictionary's lists are marked as having the filter they are filed under"
    t = strip(t)
    if t[0] == "item" and local_obj(t[1]) is not None and local_obj(t[1])[1] == "dict":
        out = []
        for o in PathQ.flat(p):
            e = o.ev
            if e.kind == "mut" and e.name in ("append", "add") and e.base is not None and strip(e.base)[0] == "item" and local_obj(strip(e.base)[1]) == local_obj(t[1]):
                x, k = strip(e.args[-1]), strip(e.base)[2]
                same = norm(k) == norm(("attr", x, r.topic))
                out.append((x, {**o.conds, **({("b", ("eq", ("attr", ("elem", x), r.topic), ("attr", x, r.topic))): YES} if same else {})}))
        return out or None
    ms = members(p, t)
    if ms and any(local_obj(x) is not None for m, _ in ms for x in subterms(m)): return None
    return ms

def subject(r, t):
    "the subscription whose client the term is"
    t = strip(t)
    if t[0] == "attr" and t[2] == r.client: return strip(t[1])
    if t[0] in ("call", "ret") and t[1].split(".")[-1] == "getClientid": return strip(t[2][0])
    if t[0] == "meth" and t[2] == "getClientid": return strip(t[1])
    return None

def topic_eq(r, conds):
    "the conditions say that two subscriptions have the same filter"
    for k, d in conds.items():
        if k[0] == "b" and k[1][0] in ("cmp", "eq") and d == YES:
            ts = [x for x in k[1][1:] if isinstance(x, tuple)]
            if len(ts) == 2 and all(t[0] == "attr" and t[2] == r.topic for t in ts) and ts[0] != ts[1]: return True
    return False

def share_cond(conds, sub):
    for k, d in conds.items():
        if k[0] == "b" and k[1][0] == "starts" and k[1][2][0] == "const" and str(k[1][2][1]).startswith("$share") and mentions(k[1][1], sub):
            return "yes" if d == YES else "no" if d == NO else None
    return None

def complete(r, f, p, lp, seen=()):
    "complaint if a group is left out on the way to the loop that serves them"
    o = local_obj(lp.over) if lp.over is not None else None
    if o is None or o in seen: return None
    for e in p.events:
        if e.kind != "loop" or not fills([e], o): continue
        for ed in edges_of(e.loop):
            if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the loop over the groups may end before all were served"
            if any(share_of(k) and d == NO for k, d in ed.conds.items()): continue
            same = any(k[0] == "b" and k[1][0] == "in" and d == YES and strip(k[1][1])[0] == "attr" and strip(k[1][1])[2] == r.topic for k, d in ed.conds.items())
            if not fills(ed.events, o) and not same: return "a group may be left out%s" % (" when " + show_conds(ed.conds)[:200] if ed.conds else "")
        m = complete(r, f, p, e.loop, seen + (o,))
        if m: return m

def share_of(k): return k[0] == "b" and k[1][0] == "starts" and k[1][2][0] == "const" and str(k[1][2][1]).startswith("$share")

def grouped(r, f, p, loop, seen=()):
    "does the loop run once per different filter: True, False, or None if not understood"
    o = local_obj(loop.over) if loop.over is not None else None
    if o is None: return False if norm(unwrap(loop.it)) == r.matches(f) else None
    if o in seen: return None
    if o[1] in ("set", "dict"):
        vals = [strip(x.ev.args[0 if o[1] == "dict" else -1]) for x in p.flat() if x.ev.kind in ("mut", "setitem") and x.ev.base is not None and local_obj(x.ev.base) == o and x.ev.args]
        if not vals: return None
        return all(v[0] == "attr" and v[2] == r.topic for v in vals)
    at = [e for e in p.events if e.kind == "loop" and fills([e], o)]
    if not at or any(e for e in p.events if e.kind != "loop" and fills([e], o)): return None
    out = []
    for e in at:
        adds = [len([x for x in ed.events if x.kind == "mut" and local_obj(x.base) == o]) for ed in edges_of(e.loop)]
        vals = [strip(v) for v, _, _ in fills([e], o)]
        if all(v[0] == "elem" or v[0] == "attr" for v in vals): # the entries themselves, or their filters, one by one
            if any(k[0] == "b" and k[1][0] == "in" and d == YES and strip(k[1][1])[0] == "attr" and strip(k[1][1])[2] == r.topic for ed in edges_of(e.loop) for k, d in ed.conds.items()): out.append(True)
            else: out.append(grouped(r, f, p, e.loop, seen + (o,)))
        else: out.append(grouped(r, f, p, e.loop, seen + (o,)))
    return False if False in out else None if None in out else True

def check(c):
    c.rule("one-per-group", "of the matching subscriptions with the same $share filter exactly one is picked, and its client is given exactly one copy; this happens for every such filter")
    c.rule("apart", "shared subscriptions take no part in what their clients are given for ordinary subscriptions, nor the other way round")
    b = both(c)[1]
    r = V5Router(b)
    v = b.v
    for single in (1, 0):
        for own, nl in ((0, 0), (0, 1), (1, 0)):
            f = r.publish(single=single, share=1, many=0, own=own, nolocal=nl, pubid=0, ident=0)
            name = "%s.group.%s.own%d-nolocal%d" % (v, "merged" if single else "each", own, nl)
            def test(p):
                ds = deliveries(p.events)
                if not ds: return "no member of a group is given the message"
                outer = [e for e in p.events if e.kind == "loop" and deliveries([e])]
                if any(not d.stack for d in ds) or len(outer) != 1: return "the members of the groups are not served in one loop"
                lp = outer[0].loop
                if grouped(r, f, p, lp) is False: return "the message is not given once per group of subscriptions with the same filter (%s)" % show(lp.over or lp.it)
                m = complete(r, f, p, lp)
                if m: return m
                for ed in edges_of(lp):
                    if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the loop over the groups may end before all were served"
                    n = 0
                    for evs, stack in innermost(ed):
                        n += len([e for e in evs if e.kind == "call" and e.name.split(".")[-1] == "publishArrived"])
                        if stack and any(norm(unwrap(l.it))[0] in ("call", "ret") and norm(unwrap(l.it))[1].split(".")[-1] == "getSubscriptions" for l in stack): return "a shared subscription is served once per matching subscription of its client"
                    if n != 1: return "a group is given %d copies%s" % (n, " when " + show_conds(ed.conds)[:200] if ed.conds else "")
                for d in ds:
                    nb = norm(d.ev.base)
                    s = subject(r, nb[2]) if nb[0] == "item" else None
                    if s is None: return "the message is given to %s" % show(d.ev.base)
                    if s[0] == "elem": continue     # one of the loop's own, judged by what the loop goes through
                    ms = picked(r, f, p, s)
                    if ms is None: continue
                    for m, cs in ms:
                        if not topic_eq(r, cs): return "the member is picked among %s, not among those with the group's filter" % show(m)
                    q = d.arg(2, "qos")
                    if not is_min(q, lambda x: from_picked(r, x, s), norm(f.T("qos")), d.conds): return "the QoS is %s, expected the lower of the publication's and the chosen subscription's" % show(q)
            c.each(name, f, ["len(topic) > 0"], test)
    # apart
    for single in (1, 0):
        f = r.publish(single=single, share=0, theirs=None, many=None, pubid=0, ident=0)
        def own(p):
            for ed in own_edges(p, r, f):
                for d in deliveries(ed.events):
                    if single:
                        for o in {x for x in subterms(strip(d.arg(2, "qos"))) if x[0] == "obj"}:
                            for m, cs in members(p, o) or []:
                                if m[0] == "elem" and share_cond(cs, m) != "no": return "shared subscriptions take part in a delivery for ordinary ones (%s)" % show(m)
                        for x in subterms(strip(d.arg(2, "qos"))):
                            if x[0] in ("call", "ret") and x[1].split(".")[-1] in ("optionsOf", "qosOf") and len(x[2]) == 3: return "shared subscriptions take part in a delivery for ordinary ones (%s)" % show(x)
                    elif d.stack:
                        lp, e2 = d.stack[-1]
                        el = ("elem", norm(unwrap(lp.it)))
                        if is_own_list(r, b, f, el[1]) and share_cond({(k[0], norm(k[1])): x for k, x in d.conds.items()}, el) != "no": return "a shared subscription is served as if it were an ordinary one"
        c.each("%s.apart.own.%s" % (v, "merged" if single else "each"), f, ["len(topic) > 0"], own)
    f = r.publish(single=1, share=None, theirs=0, many=0, pubid=0, ident=0)
    def sorts(p):
        for e in p.events:
            if e.kind != "loop": continue
            for ed in edges_of(e.loop):
                if not any(share_of(k) and d == YES for k, d in ed.conds.items()): continue
                if any(k[0] == "b" and k[1][0] == "in" and local_obj(k[1][2]) is not None and client_of(r, k[1][1]) for k, d in ed.conds.items()): return "whether a group's member is served depends on its client's other subscriptions (%s)" % show_conds(ed.conds)[:200]
        for d in deliveries(p.events):
            nb = norm(d.ev.base)
            s = subject(r, nb[2]) if nb[0] == "item" else None
            if s is None: continue
            if s[0] == "elem":
                if share_cond({(k[0], norm(k[1])): x for k, x in d.conds.items()}, s) is None: return "shared subscriptions are served among the ordinary ones"
            else:
                for m, cs in picked(r, f, p, s) or []:
                    if share_cond(cs, m) != "yes" and share_cond(d.conds, m) != "yes": return "an ordinary subscription is served as if it were shared (%s)" % show(m)
    c.each(v + ".apart.sorted", f, ["len(topic) > 0"], sorts)

def client_of(r, t):
    t = strip(t)
    return t[0] == "attr" and t[2] == r.client or t[0] in ("call", "ret") and t[1].split(".")[-1] == "getClientid" or t[0] == "meth" and t[2] == "getClientid"

def from_picked(r, q, s):
    q = norm(strip(q)); s = norm(s)
    if q[0] == "attr" and q[2] == "QoS" and q[1][0] == "item" and q[1][2] == const(0):
        t = q[1][1]
        if t[0] in ("call", "ret") and t[1].split(".")[-1] == "optionsOf": return len(t[2]) == 4 and t[2][3][0] == "seq" and [norm(strip(x)) for x in t[2][3][2]] == [s]
        if t == ("attr", s, r.options): return True
        if t[0] in ("call", "ret") and t[1].split(".")[-1] == "getOptions" or t[0] == "meth" and t[2] == "getOptions": return mentions(t, s)
    return q[0] in ("call", "ret", "meth") and "getQoS" in (q[1] if q[0] != "meth" else q[2]) and mentions(q, s)
