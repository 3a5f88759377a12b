"""The two TCP brokers, described uniformly so that one rule can be stated for both."""
from .query import Fn
from .interp import Interp
from .dom import Val, Bo, ALL
from .terms import const
from .project import AnalysisBroken

PURE = {"topicMatches", "isValidTopicName", "SubscriptionEngines.subscriptions", "SubscriptionEngines.subscribers",
        "SubscriptionEngines.getSubscriptions", "SubscriptionEngines.optionsOf", "SubscriptionEngines.qosOf",
        "SubscriptionEngines.getRetained", "SubscriptionEngines.getRetainedTopics"}
PARAMS = {
    "respond": ["sock", "packet", "maximumPacketSize"],
    "MQTTBrokers.handleRequest": ["self", "sock"], "MQTTBrokers.handlePacket": ["self", "packet", "sock"],
    "MQTTBrokers.keepalive": ["self", "sock"], "MQTTBrokers.closeSocket": ["self", "sock"],
    "MQTTClients.puback": ["self", "msgid"], "MQTTClients.pubrec": ["self", "msgid"], "MQTTClients.pubcomp": ["self", "msgid"], "MQTTClients.pubrel": ["self", "msgid"],
    "MQTTClients.sendFirst": ["self", "pub"], "MQTTClients.resendPub": ["self", "pub"], "MQTTClients.discard": ["self", "pub"],
    "Brokers.cleanSession": ["self", "aClientid"], "Brokers.terminate": ["self", "aClientid"], "Brokers.sendWillMessage": ["self", "aClientid"],
    "Brokers.setupWillMessage": ["self", "aClientid"], "Brokers.getClient": ["self", "clientid"], "Brokers.getAliasTopic": ["self", "aClientid", "topicAlias"],
    "Brokers.unsubscribe": ["self", "aClientid", "topic"],
}
for h in ("connect", "subscribe", "unsubscribe", "publish", "pubrel", "pubrec", "puback", "pubcomp", "pingreq"):
    PARAMS["MQTTBrokers." + h] = ["self", "sock", "packet"]
P5 = dict(PARAMS)
P5.update({
    "MQTTBrokers.disconnect": ["self", "sock", "packet", "sendWillMessage", "reasonCode", "properties"],
    "MQTTClients.publishArrived": ["self", "topic", "msg", "qos", "properties", "receivedTime", "retained"],
    "Brokers.connect": ["self", "aClient", "clean"], "Brokers.disconnect": ["self", "aClientid", "willMessage", "sessionExpiryInterval"],
    "Brokers.publish": ["self", "aClientid", "topic", "message", "qos", "retained", "properties", "receivedTime"],
    "Brokers.__doRetained__": ["self", "aClientid", "topic", "subsoptions", "resubscribeds", "subsprops"],
    "Brokers.subscribe": ["self", "aClientid", "topic", "optionsprops"],
    "SubscriptionEngines.setRetained": ["self", "aTopic", "aMessage", "aQoS", "receivedTime", "properties"],
})
P3 = dict(PARAMS)
P3.update({
    "respond": ["sock", "packet"],
    "MQTTBrokers.disconnect": ["self", "sock", "packet", "terminate"],
    "MQTTClients.publishArrived": ["self", "topic", "msg", "qos", "retained"],
    "Brokers.connect": ["self", "aClient"], "Brokers.disconnect": ["self", "aClientid"],
    "Brokers.publish": ["self", "aClientid", "topic", "message", "qos", "retained", "receivedTime"],
    "Brokers.__doRetained__": ["self", "aClientid", "topic", "qos"],
    "Brokers.subscribe": ["self", "aClientid", "topic", "qos"],
    "SubscriptionEngines.setRetained": ["self", "aTopic", "aMessage", "aQoS", "receivedTime"],
})
SE = {
    "SubscriptionEngines.subscribe": ["self", "aClientid", "topic", "options"],
    "SubscriptionEngines.__subscribe": ["self", "aClientid", "aTopic", "options"],
    "SubscriptionEngines.unsubscribe": ["self", "aClientid", "aTopic"],
    "SubscriptionEngines.__unsubscribe": ["self", "aClientid", "aTopic"],
    "SubscriptionEngines.clearSubscriptions": ["self", "aClientid"],
    "SubscriptionEngines.getSubscriptions": ["self", "aTopic", "aClientid"],
    "SubscriptionEngines.subscriptions": ["self", "aTopic"], "SubscriptionEngines.subscribers": ["self", "aTopic"],
    "SubscriptionEngines.getRetained": ["self", "aTopic"], "SubscriptionEngines.getRetainedTopics": ["self", "aTopic"],
    "SubscriptionEngines.optionsOf": ["self", "clientid", "topic", "subscriptions"], "SubscriptionEngines.qosOf": ["self", "clientid", "topic"],
}
P5.update(SE); P3.update(SE)

class Broker:
    "one protocol version's broker"
    def parts(self, cls, ok):
        "the methods ok of a class, and those that are called by nothing but them"
        import ast
        ok = set(ok)
        fns = [(m, f) for m in self.mods if m in self.P.modules for f in self.P.modules[m].all_functions()]
        names = [n for m in self.mods if m in self.P.modules and cls in self.P.modules[m].classes for n in self.P.modules[m].classes[cls].methods]
        callers = {n: set() for n in names}
        for m, f in fns:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr in callers:
                    if f.cls and f.cls.name != cls and isinstance(x.value, ast.Name) and x.value.id == "self" and f.cls.find(x.attr): continue
                    callers[x.attr].add((f.cls.name if f.cls else None, f.name))
        more = True
        while more:
            more = {n for n in names if n not in ok and callers[n] and all(k == cls and g in ok for k, g in callers[n])}
            ok |= more
        return ok
    def __init__(self, check, version):
        self.c, self.P, self.v = check, check.P, version
        self.five = version == "V5"
        self.fmt = "mqtt.formats.MQTTV5.MQTTV5" if self.five else "mqtt.formats.MQTTV311.MQTTV311"
        pk = "mqtt.brokers." + version + "."
        self.mods = [pk + x for x in ("MQTTBrokers", "Brokers", "SubscriptionEngines", "Subscriptions", "Topics")]
        self.scope = self.mods + [self.fmt]
        self.params = P5 if self.five else P3
        self.ID = "packetIdentifier" if self.five else "messageIdentifier"
        self.TYPE = "PacketType" if self.five else "MessageType"
        self.formatfns = set()
        for c in self.P.mod(self.fmt).classes.values():
            for n in c.methods: self.formatfns.add(c.name + "." + n)
        self._fns = {}
    def opt(self, name): return "self.options['%s']" % name if self.five else "self.%s" % name
    def home(self, short):
        return self.mods[{"MQTTBrokers": 0, "MQTTClients": 0, "cleanupThreads": 0, "Brokers": 1, "SubscriptionEngines": 2, "Subscriptions": 3}.get(short.split(".")[0], 0)]
    def func(self, short): return self.P.func(self.home(short), short)
    def fn(self, short, opaque=(), focus=None, about=None, aliases=None, pure=None, keep_respond=False, extraise=None, given=(), **kw):
        if aliases is None: aliases = {("MQTTClients", "broker"): ("param", "self")} if short.startswith("MQTTBrokers.") else {}
        key = (short, tuple(sorted(opaque)), focus if isinstance(focus, Only) else id(focus), tuple(sorted(about)) if about else None, tuple(sorted(pure)) if pure is not None else None, keep_respond, tuple(given), str(kw))
        if key in self._fns: return self._fns[key]
        pu = PURE if pure is None else set(pure)
        kw["oracle"] = outside_hooks(kw.get("oracle"))
        I = self.c.interp(scope=self.scope, opaque=self.formatfns | (set() if keep_respond else {"respond"}) | set(opaque), pure=pu - set(opaque),
                          attr_types={("MQTTBrokers", "broker"): "Brokers", ("Brokers", "se"): "SubscriptionEngines", ("MQTTClients", "broker"): "MQTTBrokers"},
                          elem_types={"clients": "MQTTClients", "__clients": "MQTTClients"}, focus=focus, about=about, aliases=aliases, extraise=extraise, **kw)
        f = Fn(I, self.func(short), self.params.get(short), given=given)
        self._fns[key] = f
        self.c.count("functions summarised")
        return f
    def fn_of(self, func, names, given=(), **kw):
        "the summary of a function that is not in the source as such (a part of one)"
        I = self.c.interp(scope=self.scope, opaque=self.formatfns | {"respond"}, pure=PURE, attr_types={}, elem_types={}, **kw)
        return Fn(I, func, names, given=given)
    def drainers(self):
        "the client's methods that hand waiting messages on (MQTT 5 only)"
        if not self.five: return []
        import ast
        cl = self.P.cls(self.mods[0], "MQTTClients")
        keep = {"__init__", "publishArrived", "resend", "puback", "pubrec", "pubcomp", "pubrel"}
        return ["MQTTClients." + n for n, f in cl.methods.items() if n not in keep and any(isinstance(x, ast.Attribute) and x.attr == "queued" for x in ast.walk(f.node))]
    def view(self, short, sets=(), calls=(), muts=(), about=(), opaque=(), local=False, **kw):
        "a summary restricted to some effects; conditions that mention one of the names stay correlated with them"
        return self.fn(short, opaque, focus=Only(sets, calls, muts, local), about=set(about), **kw)
    def connect(self, sets=(), calls=(), muts=(), about=(), opaque=(), **kw):
        op = ["Brokers.connect", "MQTTBrokers.disconnect", "MQTTClients.resend", "Brokers.sendWillMessage"]
        return self.view("MQTTBrokers.connect", sets, calls, muts, set(about) | {"ProtocolName", "ProtocolVersion"}, set(op) | set(opaque), **kw)
    def has(self, short):
        try: self.func(short); return True
        except AnalysisBroken: return False

HOOKS = frozenset(["test_qos_1_2_errors", "test_qos_1_2_errors_pubcomp"])
def outside_hooks(oracle):
    "the topics with which tests provoke errors are not considered, however a topic was come by"
    def known(key):
        d = oracle(key) if oracle else None
        if d is not None: return d
        if key[0] == "b" and isinstance(key[1], tuple) and key[1][0] == "starts" and key[1][2] == const("cmd/"): return Bo([False])
        if key[0] == "v": return Val(None, ALL, HOOKS)
        return None
    return known

def both(check): return [Broker(check, "V311"), Broker(check, "V5")]

class Only:
    "records only these effects: assignments of the attributes, calls of the functions, changes of what the attributes hold"
    def __init__(self, sets=(), calls=(), muts=(), local=False):
        self.sets, self.calls, self.muts, self.local = frozenset(sets), frozenset(calls), frozenset(muts), local
    def __call__(self, e):
        if e.kind in ("setattr", "delattr"): return e.name in self.sets
        if e.kind == "call": return e.name.split(".")[-1] in self.calls
        if e.kind in ("mut", "setitem"):
            t = e.base
            while t[0] in ("ver", "copy"): t = t[1]
            if t[0] == "alt" and any(x[0] == "attr" and x[2] in self.muts for x in t[1]): return True
            return t[0] == "attr" and t[2] in self.muts or self.local and (t[0] == "obj" or t[0] == "item" and t[1][0] in ("obj", "ver") and (t[1][0] == "obj" or t[1][1][0] == "obj"))
        return False
    def __eq__(self, o): return isinstance(o, Only) and (self.sets, self.calls, self.muts, self.local) == (o.sets, o.calls, o.muts, o.local)
    def __hash__(self): return hash((self.sets, self.calls, self.muts, self.local))
