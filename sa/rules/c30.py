from ..fold import Fold, Raised, Lost, Endless, Model, ModelCall, Obj, Unclear

MBT = "mbt.main"
def say(v): return "%s is raised" % (v.name + (" (%s)" % v.exc if isinstance(v.exc, BaseException) else "")) if isinstance(v, Raised) else "an endless loop (%s)" % v if isinstance(v, Endless) else repr(v)[:80]

class Run:
    "a test with its surroundings: the callbacks answer and packets come in as the scenario says"
    def __init__(self, f, c, callback=False, checks=None, lines=(), comes=None, rcs=()):
        self.f, self.asked, self.matched, self.waits, self.said, self.comes, self.restarts, self.rcs = f, 0, None, 0, [], comes or {}, 0, list(rcs)
        self.calls = []
        quiet = lambda f, a, k: None
        def info(f, a, k): self.said.append(str(a[0]))
        log = Model("logger", info=info, error=info, warning=info, warn=info, critical=info, debug=quiet, setLevel=quiet)
        f.memo[("%glob", MBT, "logger")] = log
        text = "".join(l + "\n" for l in lines)
        lst = text.splitlines(True); self.at = 0
        def readline(f, a, k):
            self.at += 1
            return lst[self.at - 1] if self.at <= len(lst) else ""
        file = Model("file", readline=readline, close=quiet, readlines=lambda f, a, k: list(lst), __iter__=lambda f, a, k: list(lst), __exit__=quiet, read=lambda f, a, k: text)
        file.attrs["__enter__"] = lambda f, a, k: file
        f.stubs.update({"time.sleep": self.sleep, "sleep": self.sleep, "builtins.open": lambda f, a, k: file, "logging.getLogger": lambda f, a, k: log, "getLogger": lambda f, a, k: log, "builtins.eval": lambda f, a, k: {}, "builtins.input": lambda f, a, k: "", "traceback.format_exc": lambda f, a, k: "E"})
        def act(f, a, k):
            rc = self.rcs.pop(0); self.calls.append(rc)
            if rc is Raised: raise Raised(ValueError("E"))
            return rc
        action = self.action = Model("action", __call__=act, getName=lambda f, a, k: "act", getReturnType=lambda f, a, k: "type", getParmNames=lambda f, a, k: [])
        model = Model("model", actions=[action], restartCallback=ModelCall(self.restart, "restart"), choices={}, return_types=[])
        self.t = f.new(c.P.cls(MBT, "Tests"), [model, "log.log", dict(checks or {}), ModelCall(self.match, "match") if callback else None], {})
    def restart(self, f, a, k): self.restarts += 1
    def sleep(self, f, a, k):
        self.waits += 1
        if self.waits > 200: raise Endless("waiting")
        for s in self.comes.get(self.waits, ()): self.add(s)
    def add(self, s):
        p = Model(s, __str__=lambda f, a, k, s=s: s)
        self.f.call(self.f.getattr(self.t, "addResult"), s if self.plain else p)
    plain = True
    def match(self, f, a, k):
        "the model's own judgement: at some moment (or never) some packet matches"
        self.asked += 1
        here = [x for x, y in a[1]]
        m = None
        if self.when is not None and self.asked >= self.when and here: m = self.pick(here)
        self.matched = m
        return m
    def get(self, n): return self.f.getattr(self.t, n)
    def tally(self): return self.get("passes"), self.get("failures")
    def left(self): return [x for x, y in self.get("added_results")]
    def do(self, name, *args): return self.f.call(self.f.getattr(self.t, name), *args)

def check(c):
    c.rule("match", "an expected packet that is found counts as one pass and takes exactly one received packet away; one that is not found counts as one failure and takes nothing away")
    c.rule("wait", "an expected packet that is there when the driver looks for the last time is found")
    c.rule("result", "a call's result counts once: as a pass if it is the expected one, and as a failure if not")
    c.rule("run", "every expectation of the log is judged exactly once, in order, and the verdict is good only if none failed")
    where = MBT + ":Tests.handleObserved"
    def go(oid, where, name, body, judge, **kw):
        f = Fold(c.P, most=200, steps=2000000)
        bad = und = None
        try:
            for out, asked, calls in f.run(body):
                if isinstance(out, Lost): und = str(out); continue
                m = judge(out) if not isinstance(out, (Raised, Endless)) else say(out)
                if m: bad = bad or m
        except Unclear as e: und = str(e)
        if und and not bad: c.undecided_(oid, und)
        else: c.ob(oid, not bad, where, "%s: %s" % (name, bad) if bad else name)
    OBS = "OBSERVED EVENT "
    # with a callback
    for when in [1, 2, 3, 9, 10, 11, 12, None]:
        for which in (0, 1, 2):
            if when is None and which: continue
            def body(f, when=when, which=which):
                r = Run(f, c, callback=True); r.when, r.pick = when, lambda here: here[which]
                f.setattr(r.t, "results", {})
                f.setattr(r.t, "lineno", 1)
                for s in ("a", "b", "c"): r.add(s)
                r.do("handleObserved", OBS + "x")
                return r.matched, r.tally(), sorted(r.left())
            def judge(o):
                m, t, left = o
                exp = (m, (1, 0), sorted({"a", "b", "c"} - {m})) if m else (m, (0, 1), ["a", "b", "c"])
                if o != exp: return "%s, but (passes, failures) are %s and what is left is %s" % ("packet %s matches" % m if m else "nothing matches", t, left)
            go("match", where, "a packet that matches at look %s" % when if when else "no packet matches", body, judge)
    for at in [1, 2, 8, 9]:
        def body(f, at=at):
            r = Run(f, c, callback=True, comes={at: ["x7"]}); r.when, r.pick = 1, lambda here: next((s for s in here if s[0] == "x"), None)
            f.setattr(r.t, "results", {}); f.setattr(r.t, "lineno", 1)
            r.add("a")
            r.do("handleObserved", OBS + "x")
            return r.waits >= at, r.tally(), sorted(r.left())
        def judge(o):
            if o != ((True, (1, 0), ["a"]) if o[0] else (False, (0, 1), ["a"])): return "the packet %s, but (passes, failures) are %s and what is left is %s" % ("has come" if o[0] else "has not come", o[1], o[2])
        go("wait", where, "a packet like the expected one comes after %s waits" % at, body, judge)
    # without one
    for at in [0, 1, 2, 8, 9, 10, 11, None]:
        def body(f, at=at):
            r = Run(f, c, comes={at: ["x"]} if at else {})
            f.setattr(r.t, "results", {}); f.setattr(r.t, "lineno", 1)
            for s in ["a"] + (["x"] if at == 0 else []) + ["b"]: r.add(s)
            r.do("handleObserved", OBS + "x")
            came = at is not None and at <= r.waits
            return came, r.tally(), sorted(r.left())
        def judge(o):
            came, t, left = o
            if o != ((True, (1, 0), ["a", "b"]) if came else (False, (0, 1), ["a", "b"])): return "the packet %s, but (passes, failures) are %s and what is left is %s" % ("has come" if came else "has not come", t, left)
        go("wait", where, "a packet that comes after %s waits" % at if at is not None else "a packet that never comes", body, judge)
    # packets that look the same
    for n in range(5):
        for want in range(1, 4):
            def body(f, n=n, want=want):
                r = Run(f, c); f.setattr(r.t, "results", {}); f.setattr(r.t, "lineno", 1)
                r.add("y")
                for i in range(n): r.add("x")
                for i in range(want): r.do("handleObserved", OBS + "x")
                return r.tally(), sorted(r.left())
            def judge(o, n=n, want=want):
                k = min(n, want)
                if o != ((k, want - k), ["x"] * (n - k) + ["y"]): return "(passes, failures) are %s and what is left is %s" % o
            go("match", where, "%d alike received, %d expected" % (n, want), body, judge)
    # results of calls
    where = MBT + ":Tests.handleResult"
    for how in ("plain", "checked", "exception", "exception unchecked"):
        for good in (True, False):
            for rc in (["r", 3, None] if how in ("plain", "checked") else ["exception E"]):
                def body(f, how=how, good=good, rc=rc):
                    ch = ModelCall(lambda f, a, k: good, "check")
                    r = Run(f, c, checks={"checked": {"type": ch}, "exception": {"exception": ch}}.get(how, {}))
                    f.setattr(r.t, "results", {}); f.setattr(r.t, "lineno", 1); f.setattr(r.t, "last_action", r.action); f.setattr(r.t, "last_rc", rc)
                    exp = ("is %s" % (rc,)) if good or how in ("checked", "exception") else "is other"
                    line = "RESULT from act " + exp
                    r.do("handleResult", line, line.split(" ", 3))
                    return r.tally()
                def judge(o, good=good):
                    if o != ((1, 0) if good else (0, 1)): return "(passes, failures) are %s" % (o,)
                go("result", where, "%s result %r that is %s" % (how, rc, "expected" if good else "not expected"), body, judge)
    # a whole run
    where = MBT + ":Tests.run"
    CALL, RES, OK, NO, RST = "CALL act with {}", "RESULT from act is r", OBS + "x", OBS + "z", "RESTART"
    LOGS = [([CALL, RES, OK], ["r"], ["x"], 2, 0, 0), ([CALL, RES, NO], ["r"], ["x"], 1, 1, 0), ([CALL, RES], ["q"], [], 0, 1, 0), ([CALL, RES, OK, OK], ["r"], ["x"], 2, 1, 0), ([CALL, RES, OK, OK], ["r"], ["x", "x"], 3, 0, 0),
            ([NO, CALL, RES], ["r"], [], 1, 1, 0), ([RST, CALL, RES, OK], ["r"], ["x"], 1, 1, 1), ([CALL, RES, CALL, RES, OK], ["r", "q"], ["x"], 2, 1, 0), ([CALL, RES, CALL, RES, OK], ["q", "r"], ["x"], 2, 1, 0), ([], [], [], 0, 0, 0),
            (["", "INFO other", OK, "", OK], [], ["x"], 1, 1, 0), ([CALL, RES], [Raised], [], 0, 1, 0)]
    for lines, rcs, recv, good, bad_, rs in LOGS:
        def body(f, lines=lines, rcs=rcs, recv=recv):
            r = Run(f, c, lines=lines, rcs=rcs)
            for s in recv: r.add(s)
            r.said.clear()
            r.do("run", False)
            return r.tally(), r.restarts, r.said
        def judge(o, good=good, bad_=bad_, rs=rs):
            t, n, said = o
            if t != (good, bad_): return "(passes, failures) are %s instead of %s" % (t, (good, bad_))
            if n != rs: return "the system under test is restarted %d times instead of %d" % (n, rs)
            end = [s for s in said if "successful" in s]
            if end and any(("unsuccessful" in s) != (bad_ > 0) for s in end): return "the run is reported as %r with %d failures" % (end[-1], bad_)
        go("run", where, "log %s" % "; ".join(lines), body, judge)
    # the model's judgement of what matches
    SPEC = "specifications.MQTTV311"
    c.rule("alike", "a packet matches if it looks as expected in everything but the packet identifier, which is up to the system under test; what is found is one of the packets received")
    where = SPEC + ":observationCheckCallback"
    pub = lambda s=1, q=1, i=5, d="b'x'", t="a", r=False, dup=False: "(%d, Publishes(DUP=%s, QoS=%d, Retain=%s, MsgId=%d, TopicName='%s', Payload=%s))" % (s, dup, q, r, i, t, d)
    rel = lambda s=1, i=5: "(%d, Pubrels(DUP=False, QoS=1, Retain=False, MsgId=%d))" % (s, i)
    ack = lambda s=1, i=5: "(%d, Pubacks(DUP=False, QoS=0, Retain=False, MsgId=%d))" % (s, i)
    cases = [(pub(), [pub()], 0), (pub(), [pub(i=17)], 0), (pub(), [pub(s=2)], None), (pub(), [pub(q=2)], None), (pub(), [pub(d="b'y'")], None), (pub(), [pub(t="b")], None), (pub(), [pub(r=True)], None), (pub(), [pub(dup=True)], None), (pub(), [], None),
             (pub(), [ack(), pub(t="c"), pub(i=900), pub()], 2), (pub(i=1234), [pub(i=1)], 0), (pub(), [rel()], None), (rel(), [rel()], 0), (rel(), [rel(i=77)], 0), (rel(), [rel(s=2)], None), (rel(), [pub()], None), (rel(), [ack(), rel(i=1)], 1),
             (ack(), [ack()], 0), (ack(), [ack(i=6)], None), (ack(), [ack(s=2)], None), (ack(), [], None), (pub(d="b'MsgId=1,'"), [pub(d="b'MsgId=2,'")], None), (pub(d="b'MsgId=1,'"), [pub(i=8, d="b'MsgId=1,'")], 0)]
    for obs, recv, k in cases:
        def body(f, obs=obs, recv=recv):
            f.memo[("%glob", SPEC, "logger")] = Model("logger", **{"*": lambda f, a, k: None})
            return f.call(c.P.func(SPEC, "observationCheckCallback"), obs, [(s, None) for s in recv])
        def judge(o, recv=recv, k=k):
            if o != (None if k is None else recv[k]): return "%s is found" % (o,)
        go("alike", where, "%s expected, %s received" % (obs, recv), body, judge)
    c.count("driver", 1)
