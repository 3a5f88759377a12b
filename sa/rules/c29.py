import getopt
from ..fold import Fold, Raised, Lost, Endless, Sym, Bytes, Obj, Ext, Model, ModelCall, Fn, Unclear, show

START, TCP, UDP, HTTP = "mqtt.brokers.start", "mqtt.brokers.listeners.TCPListeners", "mqtt.brokers.listeners.UDPListeners", "mqtt.brokers.listeners.HTTPListeners"
DEFAULTS = dict(visual=False, persistence=False, overlapping_single=True, dropQoS0=True, zero_length_clientids=True, publish_on_pubrel=False, topicAliasMaximum=2, maximumPacketSize=256,
                receiveMaximum=2, serverKeepAlive=60, maximum_qos=2, retain_available=True, subscription_identifier_available=True, shared_subscription_available=True, server_keep_alive=None)
# line of the configuration file -> options
LINES = [("receive_maximum 1", {"receiveMaximum": 1}), ("receive_maximum 65535", {"receiveMaximum": 65535}), ("topic_alias_maximum 0", {"topicAliasMaximum": 0}), ("topic_alias_maximum 17", {"topicAliasMaximum": 17}),
         ("maximum_packet_size 1000", {"maximumPacketSize": 1000}), ("maximum_packet_size 100", {"maximumPacketSize": 100}), ("message_size_limit 20", {"maximumPacketSize": 20}), ("topic_alias_maximum 1", {"topicAliasMaximum": 1}), ("server_keep_alive 90", {"server_keep_alive": 90, "serverKeepAlive": 90}), ("receive_maximum 300", {"receiveMaximum": 300}), ("receive_maximum 2\nmaximum_packet_size 255\ntopic_alias_maximum 1", {"receiveMaximum": 2, "maximumPacketSize": 255, "topicAliasMaximum": 1}), ("message_size_limit 200000000", {"maximumPacketSize": 200000000}), ("persistence true", {"persistence": True}), ("persistence false", {}),
         ("maximum_qos 1", {"maximum_qos": 1}), ("maximum_qos 0", {"maximum_qos": 0}), ("retain_available false", {"retain_available": False}), ("retain_available true", {"retain_available": True}),
         ("subscription_identifier_available false", {"subscription_identifier_available": False}), ("shared_subscription_available false", {"shared_subscription_available": False}),
         ("server_keep_alive 30", {"server_keep_alive": 30, "serverKeepAlive": 30}), ("server_keep_alive 0", {"server_keep_alive": 0, "serverKeepAlive": 0}), ("visual true", {"visual": True}), ("mscfile a.msc", {"mscfile": "a.msc"}),
         ("allow_anonymous true", {}), ("log_type error", {}), ("loglevel debug", {})]
R, O = Ext("ssl.CERT_REQUIRED"), Ext("ssl.CERT_OPTIONAL")
def tls(port, host="", TLS=False, cert_reqs=R, ca_certs=None, certfile=None, keyfile=None, sni=True, proto="mqtt"):
    d = dict(host=host, port=port, TLS=TLS, cert_reqs=cert_reqs, ca_certs=ca_certs, certfile=certfile, keyfile=keyfile)
    if proto == "mqtt": d["allow_non_sni_connections"] = sni
    return (proto, d)
LISTENERS = [
    (["listener"], [tls(1883)]), (["listener 1890"], [tls(1890)]), (["listener 1890 127.0.0.1"], [tls(1890, "127.0.0.1")]), (["listener 1890 h mqtt"], [tls(1890, "h")]),
    (["listener 1883", "listener 1884 INADDR_ANY mqttsn"], [tls(1883), ("mqttsn", dict(host="INADDR_ANY", port=1884))]),
    (["listener 1883 INADDR_ANY mqttsn", "listener 1884", "listener 80 h http"], [("mqttsn", dict(host="INADDR_ANY", port=1883)), tls(1884), tls(80, "h", proto="http")]),
    (["# x", "listener 18884", "cafile a.crt", "  certfile s.crt", "", "# y", "keyfile s.key", "require_certificate true", "listener 18885", "allow_non_sni_connections false", "cafile b.crt", "certfile t.crt", "keyfile t.key", "require_certificate false", "listener 1"],
     [tls(18884, "", True, R, "a.crt", "s.crt", "s.key"), tls(18885, "", True, O, "b.crt", "t.crt", "t.key", False), tls(1)]),
    (["listener 8080 INADDR_ANY http", "certfile s.crt", "keyfile s.key", "require_certificate false", "listener 18888", "ciphers PSK-AES128-CBC-SHA", "psk_hint Test"], [tls(8080, "INADDR_ANY", True, O, None, "s.crt", "s.key", proto="http"), tls(18888)]),
    (["listener 18886", "keyfile s.key", "require_certificate true", "allow_non_sni_connections true", "listener 18887", "cafile c.crt"], [tls(18886, "", True, R, None, None, "s.key"), tls(18887, "", True, R, "c.crt")]),
]
def say(v): return "%s is raised" % (v.name + (" (%s)" % v.exc if isinstance(v.exc, BaseException) else "")) if isinstance(v, Raised) else "an endless loop (%s)" % v if isinstance(v, Endless) else repr(v)[:80]

class World:
    "everything around main(): the brokers' and the listeners' constructors are recorded"
    def __init__(self, f, c, lines=None):
        self.made, self.created, self.set, self.blocked = {}, [], {}, None
        self.lock = Model("lock", **{"*": lambda f, a, k: None, "__enter__": lambda f, a, k: None, "__exit__": lambda f, a, k: None})
        g = lambda m, n, v: f.memo.__setitem__(("%glob", m, n), v)
        for n in ("MQTTV3Brokers", "MQTTV5Brokers", "MQTTSNBrokers"):
            def make(f, a, k, n=n):
                b = Model(n, shutdown=lambda f, a, k: None, broker=Model(n + ".broker"))
                for s in ("setBroker3", "setBroker5"): b.attrs[s] = lambda f, a, k, s=s: self.set.__setitem__((n, s), a[0])
                o = a[0] if a else k.get("options")
                self.made[n] = (b, o, a[1] if len(a) > 1 else k.get("lock"), a[2] if len(a) > 2 else k.get("sharedData"))
                return b
            g(START, n, ModelCall(make, n))
        for m, p in ((TCP, "mqtt"), (UDP, "mqttsn"), (HTTP, "http")):
            def create(f, a, k, p=p):
                k = dict(k)
                for n, v in zip(("port", "host"), a): k[n] = v
                self.created.append((p, k, self.blocked is not None))
                if k.get("serve_forever") is True: self.blocked = len(self.created)
                return Model("server", shutdown=lambda f, a, k: None)
            g(m, "create", ModelCall(create, p))
        g(START, "filter", Model("filter", **{"*": lambda f, a, k: None}))
        g(START, "setup_persistence", ModelCall(lambda f, a, k: (Model("connection", close=lambda f, a, k: None), Model("sharedData")), "setup_persistence"))
        text = "".join(l + "\n" for l in lines or [])
        def open_(f, a, k):
            if a[0] != "c.conf": raise Raised(FileNotFoundError(a[0]))
            done = lambda f, a, k: None
            m = Model("file", read=lambda f, a, k: text, readlines=lambda f, a, k: text.splitlines(True), close=done, __exit__=done, __iter__=lambda f, a, k: text.splitlines(True))
            m.attrs["__enter__"] = lambda f, a, k: m
            return m
        def opts(f, a, k):
            try: return getopt.gnu_getopt(*a)
            except getopt.GetoptError as e: raise Raised(e)
        f.stubs = {"builtins.open": open_, "getopt.gnu_getopt": opts, "threading.RLock": lambda f, a, k: self.lock, "getopt.getopt": lambda f, a, k: getopt.getopt(*a)}
        self.f = f

def check(c):
    c.rule("options", "each option given in the configuration file or on the command line reaches the constructors of both brokers with its value, wherever it is given; the others have their defaults")
    c.rule("listeners", "each listener is created once, with its own protocol, port, address and TLS settings, and only the last one is served in this thread")
    c.rule("create", "each kind of listener binds its own address and port, with the TLS context as configured")
    c.rule("kept", "the constructors keep the options given")
    mod = c.P.mod(START); main = c.P.func(START, "main"); where = "%s:%d: main" % (mod.rel, main.node.lineno)
    F = c.fold(oracle=lambda t: False if t[0] == "==" and Ext("module.__name__") in t else None, most=600, steps=2000000)
    def ways(what):
        rs = F.run(what); c.count("starts folded", len(rs))
        for r in rs:
            if isinstance(r[0], Lost): raise r[0]
        return [r[0] for r in rs]
    def start(argv, lines=None):
        def go(f):
            w = World(f, c, lines); f.call(main, ["x"] + argv); return w
        return ways(go)
    def options(bad, name, argv, lines, want):
        for w in start(argv, lines):
            if not isinstance(w, World): bad.append("%s: %s" % (name, say(w))); continue
            for n in ("MQTTV3Brokers", "MQTTV5Brokers"):
                if n not in w.made: bad.append("%s: %s are not made" % (name, n)); continue
                o = w.made[n][1]
                if o is None: bad.append("with %s, %s are not given the options" % (name, n)); continue
                if not isinstance(o, dict): raise Unclear("the options of %s are %r" % (n, o))
                for k, v in {**DEFAULTS, **want}.items():
                    if k not in o or o[k] != v or type(o[k]) is not type(v): bad.append("with %s, %s is %s in %s, not %r" % (name, k, repr(o[k]) if k in o else "missing", n, v))
                if "mscfile" in o and "mscfile" not in want: bad.append("with %s, there is a file for sequence charts" % name)
    def defaults():
        bad = []
        options(bad, "nothing given", [], None, {}); options(bad, "a listener only", ["-c", "c.conf"], ["listener 1"], {}); options(bad, "an empty configuration", ["-c", "c.conf"], [], {})
        c.ob("options.defaults", not bad, where, "; ".join(bad[:3]))
    c.part("options.defaults", defaults)
    def config():
        bad = []
        for l, want in LINES:
            for lines in ([l, "listener 1"], ["", "# comment", "  " + l + "  ", "listener 1", "listener 2"], ["listener 1", "cafile x", l, "listener 2"], ["listener 1", l]):
                options(bad, "%r in the configuration" % l, ["-c", "c.conf"], lines, want)
            if len(bad) > 3: break
        allof = [l for l, w in LINES if w]; want = {}
        for l, w in LINES: want.update(w)
        options(bad, "all options in the configuration", ["--config-file=c.conf"], allof + ["listener 1"], want)
        options(bad, "two options in the configuration", ["-c", "c.conf"], ["# receive_maximum 9", "receive_maximum 7", "#topic_alias_maximum 6", "topic_alias_maximum 5", "listener"], {"receiveMaximum": 7, "topicAliasMaximum": 5})
        c.ob("options.config", not bad, where, "; ".join(bad[:3]))
    c.part("options.config", config)
    def command():
        bad = []
        for k, short in (("publish_on_pubrel", None), ("overlapping_single", "-o"), ("dropQoS0", "-d"), ("zero_length_clientids", "-z")):
            for v, val in (("true", True), ("false", False), ("0", False), ("1", True), ("off", False), ("on", True)):
                for argv in [["--%s=%s" % (k, v)], ["--" + k, v]] + ([[short, v]] if short else []):
                    options(bad, " ".join(argv), argv, None, {k: val})
                    options(bad, " ".join(argv) + " with a configuration", ["-c", "c.conf"] + argv, ["listener 1", "receive_maximum 9"], {k: val, "receiveMaximum": 9})
            if len(bad) > 3: break
        options(bad, "all options of the command line", ["--publish_on_pubrel=true", "--overlapping_single=false", "--dropQoS0=false", "--zero_length_clientids=false", "--port=9"], None, dict(publish_on_pubrel=True, overlapping_single=False, dropQoS0=False, zero_length_clientids=False))
        c.ob("options.command", not bad, where, "; ".join(bad[:3]))
    c.part("options.command", command)
    def shared():
        bad = []
        for w in start([]):
            if not isinstance(w, World): bad.append(say(w)); continue
            b = {n: x[0] for n, x in w.made.items()}
            if len(b) != 3: bad.append("not all brokers are made"); continue
            if any(x[2] is not w.lock for x in w.made.values()): bad.append("the brokers do not get the same lock")
            if len({id(x[3]) for x in w.made.values()}) != 1: bad.append("the brokers do not get the same shared data")
            if w.made["MQTTV3Brokers"][1] is w.made["MQTTV5Brokers"][1]: bad.append("both brokers get the same dictionary of options")
            for (n, s), o in {("MQTTV3Brokers", "setBroker5"): "MQTTV5Brokers", ("MQTTV5Brokers", "setBroker3"): "MQTTV3Brokers", ("MQTTSNBrokers", "setBroker3"): "MQTTV3Brokers", ("MQTTSNBrokers", "setBroker5"): "MQTTV5Brokers"}.items():
                if w.set.get((n, s)) is not b[o]: bad.append("%s.%s is not given %s" % (n, s, o))
            for m, n, o in ((TCP, "broker3", "MQTTV3Brokers"), (TCP, "broker5", "MQTTV5Brokers"), (UDP, "brokerSN", "MQTTSNBrokers"), (HTTP, "broker3", "MQTTV3Brokers"), (HTTP, "broker5", "MQTTV5Brokers")):
                if w.f.memo.get(("%glob", m, n)) is not b[o]: bad.append("%s of %s is not %s" % (n, m, o))
            if w.f.memo.get(("%glob", HTTP, "lock")) is not w.lock: bad.append("the HTTP listeners do not get the brokers' lock")
            if w.f.memo.get(("%glob", HTTP, "sharedData")) is not w.made["MQTTV3Brokers"][3]: bad.append("the HTTP listeners do not get the shared data")
        c.ob("options.shared", not bad, where, "; ".join(bad[:3]))
    c.part("options.shared", shared)
    def listeners():
        bad = []
        def look(name, argv, lines, want):
            for w in start(argv, lines):
                if not isinstance(w, World): bad.append("%s: %s" % (name, say(w))); continue
                if [p for p, _, _ in w.created] != [p for p, _ in want]: bad.append("%s: the listeners created are %s" % (name, [(p, k.get("port")) for p, k, _ in w.created])); continue
                D = dict(host="", TLS=False, cert_reqs=R, ca_certs=None, certfile=None, keyfile=None, allow_non_sni_connections=True, serve_forever=False)
                for i, ((p, k, late), (_, e)) in enumerate(zip(w.created, want)):
                    if late: bad.append("%s: listener %d would only start when the one before it ends" % (name, i + 1))
                    for a, v in e.items():
                        if k.get(a, D.get(a)) != v: bad.append("%s: %s of listener %d is %r, not %r" % (name, a, i + 1, k.get(a, D.get(a)), v))
                if w.blocked != len(want): bad.append("%s: the program ends at once" % name)
        for lines, want in LISTENERS:
            look(repr(lines), ["-c", "c.conf"], lines, want); look(repr(lines), ["-c", "c.conf"], ["receive_maximum 5", "# listener 7"] + lines + ["", "topic_alias_maximum 4"], want)
        for argv, port in (([], 1883), (["--port=1999"], 1999), (["--port", "1999"], 1999), (["-p", "1999"], 1999), (["-p1999"], 1999)):
            look(" ".join(argv) or "nothing given", argv, None, [("mqtt", dict(port=port, host="", TLS=False))])
        look("a configuration without a listener", ["-c", "c.conf"], ["receive_maximum 5"], [("mqtt", dict(port=1883, host="", TLS=False))])
        c.ob("listeners", not bad, where, "; ".join(bad[:3]))
    c.part("listeners", listeners)
    for m, p, cls, hand in ((TCP, "tcp", "ThreadingTCPServer", "WebSocketTCPHandler"), (UDP, "udp", "ThreadingUDPServer", "UDPHandler"), (HTTP, "http", "http.server.HTTPServer", "requestHandler")):
        fn = c.P.func(m, "create"); wh = "%s:%d: create" % (fn.module.rel, fn.node.lineno)
        def create():
            bad = []
            handler = c.P.cls(m, hand)
            cases = [(dict(port=7, host="10.0.0.1"), ("10.0.0.1", 7)), (dict(port=9), ("", 9)), (dict(port=9, host="INADDR_ANY"), ("", 9)), (dict(port=8, host="", serve_forever=True), ("", 8))]
            if p != "udp":
                for ca in (None, "ca"):
                    for cert in (None, "cert"):
                        for req in (R, O): cases.append((dict(port=5, TLS=True, ca_certs=ca, certfile=cert, keyfile="key" if cert else None, cert_reqs=req), ("", 5)))
                if p == "tcp": cases += [(dict(port=5, TLS=True, certfile="cert", allow_non_sni_connections=x), ("", 5)) for x in (True, False)]
            for k, addr in cases:
                def go(f):
                    ev = []
                    plain = Model("plain socket")
                    def made(f, a, kw):
                        s = Model("server", socket=plain); s.attrs["*"] = lambda f, a, k: None
                        for n in ("server_bind", "server_activate", "serve_forever"): s.attrs[n] = lambda f, a, k, n=n: ev.append(n)
                        ev.append(("made", a[0], a[1] if len(a) > 1 else kw.get("RequestHandlerClass"), s, a[2] if len(a) > 2 else kw.get("bind_and_activate", True)))
                        return s
                    def context(f, a, kw):
                        ctx = Model("context", verify_mode=None)
                        ctx.attrs["load_cert_chain"] = lambda f, a, k: ev.append(("cert",) + tuple(a) + tuple(k.values()))
                        ctx.attrs["load_verify_locations"] = lambda f, a, k: ev.append(("ca",) + tuple(a) + tuple(k.values()))
                        ctx.attrs["wrap_socket"] = lambda f, a, k: (ev.append(("wrap", a[0], k.get("server_side"), ctx.attrs["verify_mode"], ctx.attrs.get("sni_callback"))), Model("wrapped"))[1]
                        return ctx
                    def thread(f, a, kw):
                        t = kw.get("target", a[1] if len(a) > 1 else None)
                        return Model("thread", start=lambda f, a, k: (ev.append("thread"), f.apply(t, list(kw.get("args", ())), {}))[1])
                    f.stubs = {"http.server.HTTPServer": made, "ssl.SSLContext": context, "ssl.create_default_context": context, "threading.Thread": thread, "ssl.wrap_socket": lambda f, a, k: (_ for _ in ()).throw(Raised(AttributeError("ssl.wrap_socket")))}
                    if p != "http": f.memo[("%glob", m, cls)] = ModelCall(made, cls)
                    f.call(fn, **k)
                    for e in ev:
                        if e[0] == "wrap" and e[4] is not None: ev.append(("sni",) + tuple(f.call(e[4], Model("s"), t, None) for t in (None, "host"))); break
                    return ev
                for ev in ways(go):
                    if not isinstance(ev, list): bad.append("%r: %s" % (k, say(ev))); continue
                    mk = [e for e in ev if e[0] == "made"]
                    if len(mk) != 1 or mk[0][1] != addr: bad.append("%r: the address bound is %r" % (k, [e[1] for e in mk])); continue
                    if mk[0][2] is not handler: bad.append("%r: connections are handled by %r" % (k, mk[0][2]))
                    if mk[0][4] is False and ("server_bind" not in ev or "server_activate" not in ev or ev.index("server_bind") > ev.index("server_activate")): bad.append("%r: the server is not bound and activated" % k)
                    if ev.count("serve_forever") != 1 or ("thread" in ev) == bool(k.get("serve_forever")): bad.append("%r: the server is served %d times %s" % (k, ev.count("serve_forever"), "in a thread" if "thread" in ev else "here"))
                    if mk[0][4] is False and "serve_forever" in ev and "server_activate" in ev and ev.index("serve_forever") < ev.index("server_activate"): bad.append("%r: served before it is active" % k)
                    wr = [e for e in ev if e[0] == "wrap"]
                    if bool(wr) != bool(k.get("TLS")): bad.append("%r: %s" % (k, "TLS is not used" if k.get("TLS") else "TLS is used"))
                    if wr:
                        if mk[0][3].attrs["socket"].name != "wrapped": bad.append("%r: the TLS socket is not the server's" % k)
                        if wr[0][2] is not True: bad.append("%r: the TLS socket is not a server's" % k)
                        if wr[0][3] != k.get("cert_reqs", R): bad.append("%r: client certificates are %r" % (k, wr[0][3]))
                        i = ev.index(wr[0])
                        if [e for e in ev[:i] if e[0] == "cert"] != ([("cert", "cert", k.get("keyfile"))] if k.get("certfile") else []): bad.append("%r: the certificate is %r" % (k, [e for e in ev[:i] if e[0] == "cert"]))
                        if [e for e in ev[:i] if e[0] == "ca"] != ([("ca", "ca")] if k.get("ca_certs") else []): bad.append("%r: the certificate authorities are %r" % (k, [e for e in ev[:i] if e[0] == "ca"]))
                        sni = [e for e in ev if e[0] == "sni"]
                        if "allow_non_sni_connections" in k and (not sni or (sni[0][1] is None) != k["allow_non_sni_connections"] or sni[0][2] is not None): bad.append("%r: connections without and with a server name give %r" % (k, sni and sni[0][1:]))
            c.ob("create.%s" % p, not bad, wh, "; ".join(bad[:3]))
        c.part("create.%s" % p, create)
    for n, m, keep in (("V5", "mqtt.brokers.V5.MQTTBrokers", lambda o: o.attrs.get("options")), ("V311", "mqtt.brokers.V311.MQTTBrokers", lambda o: o.attrs)):
        cls = c.P.cls(m, "MQTTBrokers"); wh = "%s: class MQTTBrokers" % cls.module.rel
        def kept():
            bad = []
            for flip in (False, True):
                opts = {k: (not v) if isinstance(v, bool) and flip else v for k, v in DEFAULTS.items()}
                opts.update(topicAliasMaximum=11 if flip else 2, receiveMaximum=13 if flip else 2, visual=False, persistence=False)
                for given in (opts,):
                    def go(f):
                        lock = Model("lock", **{"*": lambda f, a, k: None}); data = {}
                        if n == "V5": f.memo[("%glob", m, "cleanupThreads")] = ModelCall(lambda f, a, k: Model("thread", **{"*": lambda f, a, k: None}), "cleanupThreads")
                        o = f.new(cls, [], {"options": dict(given), "lock": lock, "sharedData": data})
                        return o, lock, data
                    for r in ways(go):
                        if not isinstance(r, tuple): bad.append(say(r)); continue
                        o, lock, data = r; k = keep(o)
                        if not isinstance(k, dict): raise Unclear("where the options are kept")
                        for x in ("publish_on_pubrel", "overlapping_single", "dropQoS0", "zero_length_clientids") + (("topicAliasMaximum", "maximumPacketSize", "receiveMaximum", "serverKeepAlive") if n == "V5" else ()):
                            if k.get(x) != given[x]: bad.append("%s=%r is kept as %r" % (x, given[x], k.get(x)))
                        b = o.attrs.get("broker")
                        for x in ("overlapping_single",) + (("topicAliasMaximum",) if n == "V5" else ()):
                            if not isinstance(b, Obj) or b.attrs.get(x) != given[x]: bad.append("%s=%r reaches the broker's store as %r" % (x, given[x], b.attrs.get(x) if isinstance(b, Obj) else None))
                        if o.attrs.get("lock") is not lock: bad.append("the lock is not the one given")
                        if not isinstance(b, Obj) or b.attrs.get("sharedData") is not data: bad.append("the shared data is not the one given")
            c.ob("kept.%s" % n, not bad, wh, "; ".join(bad[:3]))
        c.part("kept.%s" % n, kept)
