from ..brokers import both
from .c10 import ordinary, quota, SEND

def check(c):
    c.rule("once", "on first receipt exactly one of: handed on (publish-on-pubrel off), stored (on); and the identifier is remembered once")
    c.rule("repeat", "a repeated PUBLISH with a remembered identifier is neither handed on nor stored again, nor is the identifier forgotten")
    c.rule("release", "the PUBREL for a remembered identifier forgets it exactly once, and hands the stored message on exactly once (on) or not at all (off); any other PUBREL does neither")
    c.rule("untouched", "no other handler, and neither connecting to an existing session nor losing the connection, changes what is remembered")
    c.rule("fields", "the message handed on is the one received: topic, payload, QoS, retain flag and properties of the packet, in the publisher's name")
    for b in both(c):
        v, ID = b.v, b.ID
        inb = "self.clients[sock].inbound"
        o = b.opt("publish_on_pubrel")
        effect = "self.broker.publish(_, _, _, _, _, ...)"
        props = ", packet.properties" if b.five else ""
        named = ["len(packet.topicName) > 0"] if b.five else []
        pub = b.fn("MQTTBrokers.publish", ["Brokers.publish", "MQTTBrokers.disconnect"])
        g = ordinary(b, "packet.fh.QoS == 2") + quota(b, 2)
        known, new = ["packet.%s in %s" % (ID, inb)], ["packet.%s not in %s" % (ID, inb)]
        sender = "ONEOF(self.clients[sock].id, self.clients[sock])" if not b.five else "self.clients[sock].id"
        own = "self.broker.publish(%s, packet.topicName, packet.data, ONEOF(packet.fh.QoS, 2), packet.fh.RETAIN%s, ...)" % (sender, props)
        c.exactly(v + ".new.on.remembered", pub, g + new + [o], "PUT(%s, packet.%s, packet)" % (inb, ID))
        c.exactly(v + ".new.on.changed-once", pub, g + named + new + [o], "MUT(%s)" % inb)
        c.never(v + ".new.on.not-yet-published", pub, g + new + [o], effect)
        c.exactly(v + ".new.off.remembered", pub, g + new + ["not " + o], "ADD(%s, packet.%s)" % (inb, ID))
        c.exactly(v + ".new.off.changed-once", pub, g + named + new + ["not " + o], "MUT(%s)" % inb)
        c.exactly(v + ".new.off.published", pub, g + new + ["not " + o], effect)
        c.exactly(v + ".new.off.fields", pub, g + new + named + ["not " + o], own)
        for s, w in ((o, "on"), ("not " + o, "off")):
            c.never(v + ".repeat.%s.not-published" % w, pub, g + known + [s], effect)
            c.never(v + ".repeat.%s.not-stored" % w, pub, g + known + [s], "MUT(%s)" % inb)
        for q in (0, 1):
            gq = ordinary(b, "packet.fh.QoS == %d" % q) + quota(b, 1)
            c.never(v + ".qos%d.not-remembered" % q, pub, gq, "MUT(%s)" % inb)
            c.exactly(v + ".qos%d.published" % q, pub, gq, effect)
            c.exactly(v + ".qos%d.fields" % q, pub, gq + named, own.replace("ONEOF(packet.fh.QoS, 2)", "ONEOF(packet.fh.QoS, %d)" % q))
        rel = b.fn("MQTTBrokers.pubrel", ["Brokers.publish"])
        stored = "%s[packet.%s]" % (inb, ID)
        own = "self.broker.publish(%s, %s.topicName, %s.data, ONEOF(%s.fh.QoS, 2), %s.fh.RETAIN%s, ...)" % (sender, stored, stored, stored, stored, (", %s.properties" % stored) if b.five else "")
        on = [o, stored, stored + ".fh.QoS == 2"]
        c.exactly(v + ".release.on.forgotten", rel, known + on, "REMOVE(%s, packet.%s)" % (inb, ID))
        c.exactly(v + ".release.on.changed-once", rel, known + on, "MUT(%s)" % inb)
        c.exactly(v + ".release.on.published", rel, known + on, effect)
        c.exactly(v + ".release.on.fields", rel, known + on, own)
        c.exactly(v + ".release.off.forgotten", rel, known + ["not " + o], "REMOVE(%s, packet.%s)" % (inb, ID))
        c.exactly(v + ".release.off.changed-once", rel, known + ["not " + o], "MUT(%s)" % inb)
        c.never(v + ".release.off.not-published", rel, known + ["not " + o], effect)
        for s, w in ((o, "on"), ("not " + o, "off")):
            c.never(v + ".unknown-release.%s.not-published" % w, rel, new + [s], effect)
            c.never(v + ".unknown-release.%s.unchanged" % w, rel, new + [s], "MUT(%s)" % inb)
        for h, op in (("puback", ()), ("pubrec", ()), ("pubcomp", ()), ("subscribe", ["Brokers.subscribe"]), ("unsubscribe", ["Brokers.unsubscribe"]), ("pingreq", ()), ("disconnect", ["Brokers.disconnect", "Brokers.terminate"])):
            f = b.fn("MQTTBrokers." + h, op)
            c.untouched(v + "." + h + ".untouched", f, "inbound")
