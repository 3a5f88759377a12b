"""In-process driver for the brokers: a stand-in socket instead of a network connection."""
import os, sys, threading, logging
sys.path.insert(0, os.path.join(os.getcwd(), "interoperability"))
logging.disable(logging.CRITICAL)
import io
from mqtt.brokers.V5 import MQTTBrokers as B5
from mqtt.brokers.V311 import MQTTBrokers as B3
from mqtt.formats import MQTTV5 as M5, MQTTV311 as M3

OPTS = dict(visual=False, persistence=False, overlapping_single=True, dropQoS0=True, zero_length_clientids=True,
            publish_on_pubrel=False, topicAliasMaximum=10, maximumPacketSize=M5.MAX_PACKET_SIZE, receiveMaximum=20,
            serverKeepAlive=600)

class Sock:
    n = 100
    def __init__(self):
        Sock.n += 1; self.no = Sock.n; self.inb = b""; self.out = b""; self.closed = False; self.websockets = False
    def fileno(self): return self.no
    def settimeout(self, t): pass
    def recv(self, n):
        r, self.inb = self.inb[:n], self.inb[n:]
        return r
    def send(self, b):
        if self.closed: raise OSError("closed")
        self.out += bytes(b); return len(b)
    sendall = send
    def shutdown(self, how): pass
    def close(self): self.closed = True

def split(M, data):
    out = []
    while data:
        n, i, mult = 0, 1, 1
        while True:
            n += (data[i] & 127) * mult; mult *= 128; i += 1
            if not data[i - 1] & 128: break
        out.append(M.unpackPacket(data[:i + n])); data = data[i + n:]
    return out

class Net:
    def __init__(self, **kw):
        self.opts = dict(OPTS, **kw)
        self.lock = threading.RLock(); shared = {}
        self.b3 = B3(options=self.opts.copy(), lock=self.lock, sharedData=shared)
        self.b5 = B5(options=self.opts.copy(), lock=self.lock, sharedData=shared)
        self.b3.setBroker5(self.b5); self.b5.setBroker3(self.b3)

class Client5:
    M = M5
    def __init__(self, net, cid, clean=True, will=None, keepalive=60, connect=True, **props):
        self.net, self.cid, self.s, self.mid = net, cid, Sock(), 0
        if connect:
            c = M5.Connects(); c.ClientIdentifier = cid; c.CleanStart = clean; c.KeepAliveTimer = keepalive
            for k, v in props.items(): setattr(c.properties, k, v)
            if will:
                c.WillFlag = True; c.WillTopic, c.WillMessage, c.WillQoS, c.WillRETAIN = will[:4]
                c.WillProperties = M5.Properties(M5.PacketTypes.WILLMESSAGE)
                for k, v in (will[4] if len(will) > 4 else {}).items(): setattr(c.WillProperties, k, v)
            self.tx(c); self.connack = self.rx()
    def broker(self): return self.net.b5
    def raw(self, data):
        self.s.inb += data; self.ended = self.broker().handleRequest(self.s); return self
    def tx(self, p): return self.raw(p.pack())
    def rx(self):
        d, self.s.out = self.s.out, b""
        return split(self.M, d)
    def got(self): return [p for p in self.rx() if type(p).__name__ == "Publishes"]
    def id(self): self.mid += 1; return self.mid
    def sub(self, *filters, mid=None, sid=None):
        p = M5.Subscribes(); p.packetIdentifier = mid or self.id()
        p.data = [(f, o if isinstance(o, M5.SubscribeOptions) else M5.SubscribeOptions(QoS=o)) for f, o in filters]
        if sid: p.properties.SubscriptionIdentifier = sid
        return self.tx(p)
    def unsub(self, *filters, mid=None):
        p = M5.Unsubscribes(); p.packetIdentifier = mid or self.id(); p.topicFilters = list(filters); return self.tx(p)
    def pub(self, topic, data=b"x", qos=0, retain=False, mid=None, dup=False, **props):
        p = M5.Publishes(); p.topicName, p.data = topic, data; p.fh.QoS, p.fh.RETAIN, p.fh.DUP = qos, retain, dup
        if qos: p.packetIdentifier = mid or self.id()
        for k, v in props.items(): setattr(p.properties, k, v)
        return self.tx(p)
    def ack(self, kind, mid):
        p = getattr(self.M, kind)(); setattr(p, "packetIdentifier" if self.M is M5 else "messageIdentifier", mid); return self.tx(p)
    def bye(self, reason=None):
        return self.tx(self.M.Disconnects(reasonCode=reason) if reason else self.M.Disconnects())
    def drop(self): self.s.inb = b""; self.broker().handleRequest(self.s); return self

class Client3(Client5):
    M = M3
    def __init__(self, net, cid, clean=True, will=None, keepalive=60):
        self.net, self.cid, self.s, self.mid = net, cid, Sock(), 0
        c = M3.Connects(); c.ClientIdentifier = cid; c.CleanSession = clean; c.KeepAliveTimer = keepalive
        if will: c.WillFlag = True; c.WillTopic, c.WillMessage, c.WillQoS, c.WillRETAIN = will
        self.tx(c); self.connack = self.rx()
    def broker(self): return self.net.b3
    def sub(self, *filters, mid=None):
        p = M3.Subscribes(); p.messageIdentifier = mid or self.id(); p.data = list(filters); return self.tx(p)
    def unsub(self, *filters, mid=None):
        p = M3.Unsubscribes(); p.messageIdentifier = mid or self.id(); p.data = list(filters); return self.tx(p)
    def pub(self, topic, data=b"x", qos=0, retain=False, mid=None, dup=False):
        p = M3.Publishes(); p.topicName, p.data = topic, data; p.fh.QoS, p.fh.RETAIN, p.fh.DUP = qos, retain, dup
        if qos: p.messageIdentifier = mid or self.id()
        return self.tx(p)

def run(f):
    rc = 1
    try: f(); rc = 0; print("ok")
    except BaseException:
        import traceback; traceback.print_exc()
    sys.stdout.flush(); sys.stderr.flush(); os._exit(rc)
