from ..brokers import both
from ..query import *
from ..loops import *
from ..routing import *
from ..scene import *
from ..store import *

def isum(t, a, b): return t == a

def is_min(t, test, pub, conds=()):
    "min(publication's QoS, a QoS that passes the test), in any order and writing"
    t = strip(t)
    if t[0] == "call" and t[1] == "min":
        xs = [strip(z) for z in (t[2] if len(t[2]) > 1 else t[2][0][2] if t[2] and t[2][0][0] == "seq" else ())]
        return len(xs) == 2 and (norm(xs[0]) == pub and test(xs[1]) or norm(xs[1]) == pub and test(xs[0]))
    if norm(t) != pub and not test(t): return False
    for (k, l), d in dict(conds).items():   # chosen by a comparison of the two
        if k != "d" or l[0] != "lin" or len(l[2]) != 2: continue
        (x, i), (y, j) = l[2]
        if i * j != -1: continue
        pos, neg = (x, y) if i == 1 else (y, x)
        if not (norm(pos) == pub and test(neg) or norm(neg) == pub and test(pos)): continue
        lo, hi = d.lo - l[1], d.hi - l[1]      # pos - neg + const in d
        if hi <= 0 and norm(t) == norm(pos) or lo >= 0 and norm(t) == norm(neg): return True
    return False

def truth(t, f, conds, oracle):
    "is the value known to be true / false"
    t = norm(strip(t))
    while t[0] == "bool" or t[0] == "call" and t[1] == "bool" and len(t[2]) == 1: t = norm(strip(t[1] if t[0] == "bool" else t[2][0]))
    if is_const(t): return bool(t[1])
    d = oracle(("v", t))
    for (k, x), v in list(dict(conds).items()):
        if k == "v" and norm(x) == t: d = v if d is None else d.meet(v)
    if isinstance(d, Val):
        if d.meet(Val(None, "T")).empty(): return False
        if d.meet(Val(None, "NF")).empty(): return True
    return None

class V5Router(Routing):
    def ordinary(self, f, x):
        "the client's own matching subscriptions"
        return ("call", "getSubscriptions", (norm(f.T("self.se")), norm(f.T("topic")), x), ())

def check(c):
    c.rule("recipients", "each client with a matching subscription is given the message exactly once when overlapping deliveries are merged, and once per matching subscription otherwise; nobody else is")
    c.rule("qos", "with the lower of the publication's QoS and that of the subscription (the highest of several when merged)")
    c.rule("content", "topic, payload and arrival time are those of the publication; the retain flag is only passed on for Retain As Published")
    c.rule("nolocal", "a subscription with No Local gives its own publisher nothing, and is disregarded when the others are merged")
    c.rule("identifiers", "the copy carries the subscription identifiers of the matching subscriptions, and no others")
    c.rule("matching", "the store's lookups return exactly the entries whose filter matches the topic (and whose client is the one asked for)")
    pair = list(both(c))
    for b in pair:
        r = V5Router(b) if b.five else Routing(b)
        r.pair = pair
        store(c, b, r)
        v = b.v
        for single in (1, 0):
            for retained in (0, 1):
                grid = [dict(own=own, nolocal=nl, many=many, rap=rap) for own in (0, 1) for nl in (0, 1) for many in (0, 1) for rap in (0, 1)] if b.five else [dict(many=m, own=o) for m in (0, 1) for o in (0, 1)]
                for g in grid:
                    f = r.publish(single=single, retained=retained, **g)
                    deliver = not (g.get("own") and g.get("nolocal"))
                    name = "%s.%s.%s.%s" % (v, "merged" if single else "each", "retained" if retained else "plain", "-".join("%s%d" % (k, x) for k, x in g.items()))
                    def inner(it, f=f): return is_own_list(r, b, f, it)
                    c.each(name + ".recipients", f, ["len(topic) > 0"] if b.five else [], lambda p: r.judge(p, f, deliver, single, inner))
                    if deliver: c.each(name + ".content", f, [], lambda p: content(r, b, f, p, single, retained, g.get("rap")))
        for single in (1, 0):
            for retained in (0, 1):
                for many in (0, 1):
                    f = r.publish(single=single, retained=retained, many=many, mine=0)
                    name = "%s.other-version.%s.%s.many%d" % (v, "merged" if single else "each", "retained" if retained else "plain", many)
                    c.each(name, f, [], lambda p: elsewhere(r, b, f, p, single))
        if b.five:
            mixed(c, b, r)
            identifiers(c, b, r)

def is_own_list(r, b, f, it):
    "getSubscriptions(topic, <the client>)"
    return it[0] in ("call", "ret") and it[1].split(".")[-1] == "getSubscriptions" and len(it[2]) >= 3 and it[2][1] == norm(f.T("topic")) and r.is_client(it[2][2], f)

def content(r, b, f, p, single, retained, rap):
    for d in deliveries(p.events):
        names = b.params["MQTTClients.publishArrived"][1:]
        a = {n: d.arg(i, n) for i, n in enumerate(names)}
        base = d.ev.base
        reg = norm(f.T("self." + r.registry()))
        nb = norm(base)
        if not (nb[0] == "item" and nb[1] == reg and r.is_client(nb[2], f)): return "the message is given to %s, not to the matching client" % show(base)
        for n, want in (("topic", "topic"), ("msg", "message"), ("receivedTime", "receivedTime")):
            if n in a and norm(a[n] or NONE) != norm(f.T(want)): return "%s is %s, expected the publication's" % (n, show(a[n]) if a[n] else "missing")
        client = nb[2]
        if not is_min(a["qos"], lambda q: sub_qos(r, b, f, p, q, single, client, d), norm(f.T("qos")), d.conds): return "the QoS is %s, expected the lower of the publication's and the subscription's" % show(a["qos"])
        if b.five:
            if truth(a["retained"] or FALSE, f, {**p.conds, **d.conds}, r.oracle(rap=rap)) is not bool(rap and retained): return "the retain flag is %s, expected %s" % (show(a["retained"]), "the publication's" if rap else "False")
        elif a.get("retained") is not None and norm(a["retained"]) != FALSE: return "the retain flag is %s, expected False" % show(a["retained"])

def elsewhere(r, b, f, p, single):
    "what clients of the other protocol version are given"
    o = [x for x in r.pair if x is not b]
    if not o or (b.five and o[0].five): return None
    names = o[0].params["MQTTClients.publishArrived"][1:]; se, topic = norm(f.T("self.se")), norm(f.T("topic"))
    ds = deliveries(p.events)
    if not ds: return "a client of the other protocol version is not given the message"
    for d in ds:
        nb = norm(d.ev.base)
        if nb == NONE: continue  # a client that is in neither registry: not reached
        other = ("attr", ("param", "self"))
        if nb[0] in ("call", "ret") and nb[1].split(".")[-1] == "getClient" and nb[2]: owner, client = nb[2][0], nb[2][-1]
        elif nb[0] == "item" and nb[1][0] == "attr": owner, client = nb[1][1], nb[2]
        else: owner, client = NONE, NONE
        if not (owner[:2] == other and r.is_client(client, f)): return "the message is given to %s, not to the matching client of the other broker" % show(d.ev.base)
        a = {n: d.arg(i, n) for i, n in enumerate(names)}
        for n, want in (("topic", "topic"), ("msg", "message")):
            if norm(a.get(n) or NONE) != norm(f.T(want)): return "%s is %s, expected the publication's" % (n, show(a[n]) if a.get(n) else "missing")
        if a.get("retained") is not None and truth(a["retained"], f, {**p.conds, **d.conds}, r.oracle(mine=0)) is not False: return "a live message is flagged as retained (%s) for a client of the other protocol version" % show(a["retained"])
        if a.get("properties") is not None and norm(a["properties"]) != NONE and local_obj(a["properties"]) is None and not any(x[0] == "new" for x in subterms(a["properties"])): return "the properties are %s" % show(a["properties"])
        def test(q):
            q = norm(strip(q))
            if q[0] in ("call", "ret") and q[1].split(".")[-1] == "qosOf": return r.is_client(q[2][1], f) and q[2][2] == topic and q[2][1] == client
            return sub_qos(r, b, f, p, q, single, client, d)
        if not is_min(a["qos"], test, norm(f.T("qos")), d.conds): return "the QoS is %s, expected the lower of the publication's and the subscription's" % show(a["qos"])

def sub_qos(r, b, f, p, q, single, client, d):
    q = norm(strip(q)); se, topic = norm(f.T("self.se")), norm(f.T("topic"))
    def asks(t, fn):
        return t[0] in ("call", "ret") and t[1].split(".")[-1] == fn and t[2][0] == se and r.is_client(t[2][1], f) and t[2][2] == topic and t[2][1] == client
    if single:
        if asks(q, "qosOf"): return True
        if q[0] == "attr" and q[2] == "QoS" and q[1][0] == "item" and q[1][2] == const(0):
            t = q[1][1]
            if asks(t, "optionsOf"):
                if len(t[2]) == 3: return True
                ms = members(p, t[2][3])
                return ms is not None and bool(ms) and all(of_client(r, f, m, client) for m, _ in ms)
        return False
    # one copy per subscription
    for e in subterms(q):
        if of_client(r, f, e, client) and any(norm(unwrap(l.it)) == e[1] for l, _ in d.stack):
            if not b.five: return q in (("attr", e, r.options), ("call", "getQoS", (e,), ()))
            return q == ("attr", ("item", ("attr", e, r.options), const(0)), "QoS")
    return False

def of_client(r, f, e, client):
    e = norm(strip(e))
    return e[0] == "elem" and is_own_list(r, r.b, f, norm(e[1])) and norm(e[1])[2][2] == client


def own_edges(p, r, f):
    "the ways through the loop over the clients on which a client is given the message"
    for e in p.events:
        if e.kind == "loop" and deliveries([e]):
            for ed in edges_of(e.loop):
                if not r.seen_before(ed.conds, f, p): yield ed

def nolocal_key(conds):
    "'on' / 'off' / None: what the conditions say about No Local of a subscription"
    for k, d in conds.items():
        if k[0] == "v" and k[1][0] == "attr" and k[1][2] == "noLocal": return "off" if isinstance(d, Val) and not d.meet(Val(None, "NF")).empty() and d.meet(Val(None, "T")).empty() else "on"
    return None

def mixed(c, b, r):
    "of several subscriptions of the publisher itself, those with No Local are disregarded"
    f = r.publish(single=1, own=1, nolocal=None, many=1)
    reached = [0]
    def test(p):
        for ed in own_edges(p, r, f):
            for d in deliveries(ed.events):
                reached[0] += 1
                q = strip(d.arg(2, "qos"))
                lists = {x for x in subterms(q) if x[0] == "obj"}
                if not lists and not any(x[0] in ("call", "ret") and x[1].split(".")[-1] == "optionsOf" for x in subterms(q)): continue
                if not lists: return "the QoS %s takes subscriptions with No Local into account" % show(q)
                for o in lists:
                    ms = members(p, o)
                    if ms is None: continue
                    for m, cs in ms:
                        if nolocal_key(cs) != "off": return "the merged delivery takes subscriptions with No Local into account (%s)" % show(m)
                    for e in ed.events:
                        if e.kind != "loop" or not fills([e], o): continue
                        for e2 in edges_of(e.loop):
                            if nolocal_key(e2.conds) == "off" and not fills(e2.events, o): return "a subscription without No Local is disregarded"
    c.each(b.v + ".nolocal.merged", f, [], test)
    c.ob(b.v + ".nolocal.merged.reached", reached[0] > 0, f.where, "" if reached[0] else "the publisher never gets its own message")
    # the same subscriptions, the message comes from somebody else
    f2 = r.publish(single=1, own=0, nolocal=None, many=1)
    def test2(p):
        for ed in own_edges(p, r, f2):
            if not deliveries(ed.events): return "a client other than the publisher is given nothing because of No Local%s" % (" when " + show_conds(ed.conds)[:200])
            for e in ed.events:
                if e.kind == "loop":
                    for e2 in edges_of(e.loop):
                        if nolocal_key(e2.conds) == "on" and any(fills(e3.events, o) for e3 in edges_of(e.loop) for o in objs(e3.events)) and not any(fills(e2.events, o) for o in objs(e2.events)):
                            return "a subscription with No Local is disregarded for a message of another client"
    c.each(b.v + ".nolocal.others", f2, ["len(topic) > 0"], test2)

def objs(events):
    return {local_obj(e.base) for e in events if e.base is not None and e.kind in ("mut", "setitem") and local_obj(e.base) is not None}

def sets(events, stack=()):
    "assignments of SubscriptionIdentifier: (event, loops around it)"
    out = []
    for e in events:
        if e.kind == "setattr" and e.name == "SubscriptionIdentifier": out.append((e, stack))
        if e.kind == "loop":
            for ed in edges_of(e.loop): out += sets(ed.events, stack + (e.loop,))
    return out

def identifiers(c, b, r):
    "subscription identifiers in the copies"
    SID = "SubscriptionIdentifier"
    for single in (1, 0):
        for many in (0, 1):
            how = "%s.%s" % ("merged" if single else "each", "many" if many else "one")
            # no matching subscription has an identifier: none is sent, not even one the publication carries
            for pubid in (0, 1):
                f = r.publish(single=single, many=many, ident=0, pubid=pubid)
                def none(p):
                    for ed in own_edges(p, r, f):
                        for evs, stack in innermost(ed):
                            s = sets(evs)
                            if s: return "%s though no matching subscription has an identifier" % s[0][0]
                            gone = [e for e in evs if e.kind == "delattr" and e.name == SID]
                            if pubid and not gone: return "the publication's own subscription identifier is passed on"
                c.each("%s.identifiers.%s.none.%d" % (b.v, how, pubid), f, ["len(topic) > 0"], none)
            if single and many:
                f0 = r.publish(single=1, many=1, ident=None, pubid=0)
                def mix(p):
                    for ed in own_edges(p, r, f0):
                        for evs, stack in innermost(ed):
                            if sets(evs): continue
                            empty = any(k[0] == "v" and local_obj(k[1]) is not None and isinstance(d, Val) and d.meet(Val(None, "T")).empty() for k, d in ed.conds.items())
                            def without(e2): return any(k[0] == "b" and k[1][0] == "hasattr" and k[1][2] == SID and d == NO for k, d in e2.conds.items())
                            ls = [e for e in evs if e.kind == "loop" and norm(unwrap(e.loop.it))[0] in ("call", "ret") and len(edges_of(e.loop)) and any(e2.conds for e2 in edges_of(e.loop))]
                            if not empty and not any(all(without(e2) for e2 in edges_of(e.loop)) for e in ls): return "identifiers of matching subscriptions are left out when " + show_conds(ed.conds)[:200]
                c.each("%s.identifiers.%s.mixed" % (b.v, how), f0, ["len(topic) > 0"], mix)
            f = r.publish(single=single, many=many, ident=1, pubid=0)
            def some(p):
                for ed in own_edges(p, r, f):
                    for evs, stack in innermost(ed):
                        s = sets(evs)
                        at = [i for i, e in enumerate(evs) if deliveries([e])]
                        late = [i for i, e in enumerate(evs) if sets([e]) and at and i > at[-1]]
                        if late: return "the subscription identifiers are set after the message was handed over"
                        emptied = any(k[0] == "v" and local_obj(k[1]) is not None and isinstance(d, Val) and d.meet(Val(None, "T")).empty() for k, d in ed.conds.items())
                        # the list of identifiers of a subscription that has any is not empty
                        if not s and any(any(x[0] == "attr" and x[2] == SID for x in subterms(k[1])) and (k[0] == "v" and isinstance(d, Val) and d.meet(Val(None, "T")).empty() or k[0] == "b" and k[1][0] == "alt" and d == NO)
                                         for k, d in {**p.conds, **ed.conds, **{k: d for _, e2 in stack for k, d in e2.conds.items()}}.items()): continue
                        if not s: return "the subscription identifier is missing%s" % (" when " + show_conds(ed.conds)[:200] if ed.conds else "")
                        if single and many and not emptied:
                            if not all(st for _, st in s): return "of several matching subscriptions only one identifier is sent"
                        elif len(s) != 1: return "%d identifiers are set for one subscription" % len(s)
                        for e, st in s:
                            v = norm(e.args[0])
                            if not any(x[0] == "attr" and x[2] == SID for x in subterms(v)) or any(x == ("param", "properties") for x in subterms(v)):
                                return "the subscription identifier is %s, not one of a matching subscription" % show(v)
                            el = [x for x in subterms(v) if x[0] == "attr" and x[2] == SID]
                            if not sid_of(r, f, v): return "the subscription identifier is %s, not one of a matching subscription" % show(v)
            c.each("%s.identifiers.%s.some" % (b.v, how), f, ["len(topic) > 0"], some)

def sid_of(r, f, v):
    "an identifier of a matching subscription of the client"
    for x in subterms(v):
        if x[0] == "attr" and x[2] == "SubscriptionIdentifier" and x[1][0] == "item" and x[1][2] == const(1):
            t = x[1][1]
            if t[0] in ("call", "ret") and t[1].split(".")[-1] == "optionsOf" and r.is_client(t[2][1], f): return True
            if t[0] == "attr" and t[2] == r.options and t[1][0] == "elem" and is_own_list(r, r.b, f, norm(t[1][1])): return True
    return False

def innermost(ed, stack=()):
    "event lists that hand the message over directly"
    out = []
    if any(e.kind == "call" and e.name.split(".")[-1] == "publishArrived" for e in ed.events): out.append((ed.events, stack))
    for e in ed.events:
        if e.kind == "loop":
            for e2 in edges_of(e.loop): out += innermost(e2, stack + ((e.loop, e2),))
    return out

def store(c, b, r):
    st = r.st; v = b.v
    lookups = [("subscriptions" if b.five else "subscribers", None), ("getSubscriptions", "all"), ("getSubscriptions", "one")]
    for fname, who in lookups:
        f = b.fn("SubscriptionEngines." + fname)
        guards = [VALID % "aTopic"] + (["aClientid == None"] if who == "all" else ["aClientid != None"] if who == "one" else [])
        for kind, gs, dollar in st.names("aTopic"):
            src = f.T("self." + st.attrs[dollar + "subscriptions"])
            el = "EACH(self.%s)" % st.attrs[dollar + "subscriptions"]
            match = ["Topics.topicMatches(%s.%s, aTopic)" % (el, r.topic)] + (["%s.%s == aClientid" % (el, r.client)] if who == "one" else [])
            want = ("elem", norm(src)) if b.five or fname != "subscribers" else ("attr", ("elem", norm(src)), r.client)
            def test(p):
                res = result_objs(p)
                if res is None: return None if p.ret is None else "the result %s is not the entries found" % show(p.ret)
                ls = loops_over(p, src)
                for o in ls:
                    for ed in edges_of(o.ev.loop):
                        if ed.ctrl is not None and ed.ctrl[0] in ("break", "return"): return "the search may end before all entries were looked at"
                        adds = [e for e in ed.events if e.kind in ("mut", "setitem") and local_obj(e.base) in res]
                        cs = erase(ed.conds)
                        known = any(k[0] == "b" and k[1][0] == "in" and local_obj(k[1][2]) in res and d == YES for k, d in ed.conds.items())
                        if f.assume(cs, match + guards) and not adds and not known: return "a matching entry is left out%s" % (" when " + show_conds(ed.conds)[:200])
                        if adds:
                            for m in match:
                                if f.assume(cs, ["not (%s)" % m] + guards): return "an entry is included without %s" % m
                            for e in adds:
                                x = norm(e.args[0 if e.kind == "setitem" and local_obj(e.base)[1] == "dict" else -1])
                                if x != want: return "%s is included instead of %s" % (show(x), show(want))
                for e in p.events:
                    if e.kind in ("mut", "setitem") and local_obj(e.base) in res and e.name not in ("sort", "reverse", "extend"): return "%s changes what was found" % e
            c.each("%s.matching.%s%s.%s" % (v, fname, "." + who if who else "", kind), f, guards + gs, test)
            if fname == "subscribers":
                def once(p):
                    res = result_objs(p)
                    if not res or any(o[1] in ("set", "dict") for o in res): return
                    ls = loops_over(p, src)
                    if ls and not any(k[0] == "b" and k[1][0] == "in" and d == YES for o in ls for ed in edges_of(o.ev.loop) for k, d in ed.conds.items()): return "a client with several matching entries is included several times"
                c.each("%s.matching.%s.%s.once" % (v, fname, kind), f, guards + gs, once)
            c.ob("%s.matching.%s%s.%s.searched" % (v, fname, "." + who if who else "", kind), any(loops_over(p, src) for p in f.given(*(guards + gs))), f.where, "the entries are not gone through")
    best(c, b, r)

def result_objs(p):
    "the local containers that make up the result"
    if p.ret is None: return None
    out = set()
    def go(t):
        t = strip(t)
        if t[0] == "obj": out.add(t); return True
        if t[0] == "call" and t[1] in ("list", "set", "tuple", "sorted", "frozenset", "unique") and len(t[2]) == 1: return go(t[2][0])
        if t[0] in ("keys", "values"): return go(t[1])
        return False
    return out if go(p.ret) else None

def best(c, b, r):
    "the options (QoS) of several matching subscriptions are those of one with the highest QoS"
    short = "SubscriptionEngines." + ("optionsOf" if b.five else "qosOf")
    f = b.fn(short)
    srcs = [(["subscriptions == None"], "self.getSubscriptions(topic, clientid)"), (["subscriptions != None"], "subscriptions")] if b.five else [([], "self.getSubscriptions(topic, clientid)")]
    for gs, src in srcs:
        want = norm(f.T(src))
        def test(p):
            t = p.ret
            if t is None: return
            for x in subterms(norm(t)):
                if x[0] == "elem" and x[1] != want and norm(unwrap(x[1])) != want: return "the result stems from %s, expected %s" % (show(x[1]), src)
        c.each("%s.highest.source.%s" % (b.v, "given" if src == "subscriptions" else "all"), f, gs, test)
    s = Step(b, short)
    if s.loop is None or len(s.accs) != 1 or not s.elem.isidentifier():
        c.ob(b.v + ".highest.step", True, f.where, "not written as a loop with one accumulator: not judged"); return
    g, acc, el = s.fn, s.accs[0], s.elem
    q = "%s.%s[0].QoS" % (el, r.options) if b.five else "%s.%s" % (el, r.options)
    aq = acc + "[0].QoS" if b.five else acc
    from_el = lambda t: t is not None and any(x == ("param", el) for x in subterms(t)) or t is not None and t[0] == "seq"
    first = lambda p: None if from_el(s.result(p, acc)) or p.raised else "the first matching subscription is not taken"
    c.each(b.v + ".highest.first", g, [acc + " == None"], first)
    c.each(b.v + ".highest.more", g, [acc + " != None", "%s > %s" % (q, aq)], lambda p: None if from_el(s.result(p, acc)) else "a subscription with a higher QoS is not preferred")
    c.each(b.v + ".highest.less", g, [acc + " != None", "%s < %s" % (q, aq)], lambda p: None if norm(s.result(p, acc)) == ("param", acc) else "a subscription with a lower QoS is preferred")
    def left(p):
        if not s.left(p): return
        t = s.result(p, acc)
        top = "%s == 2" % (q if from_el(t) else aq)
        if not p.entails(top): return "the search ends early though the QoS found is not known to be the highest one"
    c.each(b.v + ".highest.complete", g, [], left)
    if not b.five:
        for name, gs in (("first", [acc + " == None"]), ("more", [acc + " != None", "%s > %s" % (q, aq)])):
            c.each(b.v + ".highest.%s.value" % name, g, gs, lambda p: None if norm(s.result(p, acc)) == norm(g.T(q)) else "the QoS is %s, expected that of the subscription" % show(s.result(p, acc)))
