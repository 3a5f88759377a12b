from ..brokers import both

SEND = "respond(_, _, ...)"
def ordinary(b, *more):
    "ordinary requests: topics with documented special behaviour for testing are left out"
    g = list(more)
    if b.five: g += ["not packet.topicName.startswith('cmd/')", "packet.topicName != 'test_qos_1_2_errors'", "packet.topicName != 'test_qos_1_2_errors_pubcomp'"]
    return g
def quota(b, q):
    "the publisher keeps within the broker's receive maximum"
    if not b.five: return []
    room = "len(self.clients[sock].inbound) < self.options['receiveMaximum']"
    return [room] if q == 1 else ["packet.%s in self.clients[sock].inbound or %s" % (b.ID, room)]

def check(c):
    c.rule("one-packet", "on every path of a request's handler on which the request is accepted, exactly one packet is sent")
    c.rule("right-ack", "the packet sent is the acknowledgement of the right type, holds the request's packet identifier and goes to the socket the request came from")
    c.rule("effect-first", "the call or store operation by which the request takes effect precedes the acknowledgement on every path")
    c.rule("silent", "handlers of acknowledgements send nothing, except PUBREL for a PUBREC in the expected state")
    c.rule("transmit", "respond() hands the packed packet to the socket it was given, once")
    for b in both(c):
        v, ID = b.v, b.ID
        pub = b.fn("MQTTBrokers.publish", ["Brokers.publish", "MQTTBrokers.disconnect"])
        effect = "self.broker.publish(_, _, _, _, _, ...)"
        def ack(cls, **kw): return "respond(sock, New('%s', %s=packet.%s%s), ...)" % (cls, ID, ID, "".join(", %s=%s" % x for x in kw.items()))
        ok = {"reason": "ONEOF('UNSET', 'Success', 'No matching subscribers')"} if b.five else {}
        c.never(v + ".publish.qos0.silent", pub, ordinary(b, "packet.fh.QoS == 0"), SEND)
        g1 = ordinary(b, "packet.fh.QoS == 1") + quota(b, 1)
        c.exactly(v + ".publish.qos1.one-packet", pub, g1, SEND)
        named = ["len(packet.topicName) > 0"] if b.five else []
        c.exactly(v + ".publish.qos1.right-ack", pub, g1 + named, ack("Pubacks", **ok))
        c.exactly(v + ".publish.qos1.effect", pub, g1, effect)
        c.before(v + ".publish.qos1.effect-first", pub, g1, effect, SEND)
        g2 = ordinary(b, "packet.fh.QoS == 2") + quota(b, 2)
        c.exactly(v + ".publish.qos2.one-packet", pub, g2, SEND)
        c.exactly(v + ".publish.qos2.right-ack", pub, g2, ack("Pubrecs"))
        c.exactly(v + ".publish.qos2.accepted", pub, g2 + named, ack("Pubrecs", **ok))
        gnew = g2 + ["packet.%s not in self.clients[sock].inbound" % ID]
        o = b.opt("publish_on_pubrel")
        c.before(v + ".publish.qos2.effect-first.stored", pub, gnew + [o], "ADD(self.clients[sock].inbound, packet.%s)" % ID, SEND)
        c.before(v + ".publish.qos2.effect-first.published", pub, gnew + ["not " + o], effect, SEND)
        rel = b.fn("MQTTBrokers.pubrel", ["Brokers.publish"])
        c.exactly(v + ".pubrel.one-packet", rel, [], SEND)
        c.exactly(v + ".pubrel.right-ack", rel, [], ack("Pubcomps"))
        known = ["packet.%s in self.clients[sock].inbound" % ID]
        c.before(v + ".pubrel.effect-first.forgotten", rel, known + ["not " + o], "REMOVE(self.clients[sock].inbound, packet.%s)" % ID, SEND)
        c.before(v + ".pubrel.effect-first.published", rel, known + [o, "self.clients[sock].inbound[packet.%s]" % ID, "self.clients[sock].inbound[packet.%s].fh.QoS == 2" % ID], effect, SEND)
        rec = b.fn("MQTTBrokers.pubrec")
        exp = ["packet.%s in self.clients[sock].outmsgs" % ID, "self.clients[sock].outmsgs[packet.%s].fh.QoS == 2" % ID, "self.clients[sock].outmsgs[packet.%s].qos2state == 'PUBREC'" % ID]
        c.exactly(v + ".pubrec.one-packet", rec, exp, SEND)
        c.exactly(v + ".pubrec.right-ack", rec, exp, ack("Pubrels"))
        for i, what in enumerate(("unknown", "not-qos2", "twice")):
            c.never(v + ".pubrec.silent." + what, rec, exp[:i] + ["not (%s)" % exp[i]], SEND)
        for h in ("puback", "pubcomp"):
            c.never(v + "." + h + ".silent", b.fn("MQTTBrokers." + h, ["MQTTClients.sendQueued"]), [], SEND)
        sub = b.fn("MQTTBrokers.subscribe", ["Brokers.subscribe"])
        c.exactly(v + ".subscribe.one-packet", sub, [], SEND)
        c.exactly(v + ".subscribe.right-ack", sub, [], ack("Subacks"))
        c.order(v + ".subscribe.effect-first", sub, [], "self.broker.subscribe(_, ...)", SEND)
        uns = b.fn("MQTTBrokers.unsubscribe", ["Brokers.unsubscribe"])
        c.exactly(v + ".unsubscribe.one-packet", uns, [], SEND)
        c.exactly(v + ".unsubscribe.right-ack", uns, [], ack("Unsubacks"))
        c.exactly(v + ".unsubscribe.effect", uns, [], "self.broker.unsubscribe(self.clients[sock].id, %s)" % ("packet.topicFilters" if b.five else "packet.data"))
        c.before(v + ".unsubscribe.effect-first", uns, [], "self.broker.unsubscribe(_, _)", SEND)
        ping = b.fn("MQTTBrokers.pingreq")
        c.exactly(v + ".pingreq.one-packet", ping, [], SEND)
        c.exactly(v + ".pingreq.right-ack", ping, [], "respond(sock, New('Pingresps'), ...)")
        hp = b.fn("MQTTBrokers.handlePacket", ["MQTTBrokers.disconnect"])
        names = "MQTTV5.Packets.Names[packet.fh.PacketType].lower()" if b.five else "MQTTV3.packetNames[packet.fh.MessageType].lower()"
        dispatched(c, b, v + ".dispatch.once", hp)
        rs = b.fn("respond", ["MQTTBrokers.handlePacket", "Brokers.publish"], keep_respond=True, extraise=noexc)
        net = ["not hasattr(sock, 'handlePacket')"]
        if b.five:
            net += ["packet.fh.PacketType != 3", "maximumPacketSize is not None", "len(packet.pack()) <= maximumPacketSize"]
        c.each(v + ".transmit.whole", rs, net, sends, skip_raised=False)

def dispatched(c, b, oid, hp):
    "the handler is called once, as handler(sock, packet), for every packet of a connected client"
    def test(p):
        calls = [e for e in p.events if e.kind == "call" and e.name.startswith("getattr")]
        calls += [e for e in p.events if e.kind == "call" and e.name.split(".")[-1] in HANDLERS and e.base is not None and e.base[0] == "param"]
        if len(calls) != 1: return "%d handlers are called for one packet" % len(calls)
        if tuple(calls[0].args[-2:]) != (("param", "sock"), ("param", "packet")): return "the handler is called as %r" % calls[0]
    c.each(oid, hp, ["sock in self.clients"], test)
HANDLERS = {"connect", "publish", "puback", "pubrec", "pubrel", "pubcomp", "subscribe", "unsubscribe", "pingreq", "disconnect"}

def noexc(name): return []
def sends(p):
    lo, hi = p.count("sock.send(packet.pack())", "sock.sendall(packet.pack())")
    anylo, anyhi = p.count("sock.send(_)", "sock.sendall(_)")
    if anyhi > 1 or hi != anyhi: return "the packet is sent %s times, or something else is sent" % anyhi
    if lo == 0: return "the packet is not sent"
