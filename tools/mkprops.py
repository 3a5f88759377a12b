#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that lines stay valid JSON)."""
import json, os
B5, B3, SNB = ("interoperability/mqtt/brokers/V5/", "interoperability/mqtt/brokers/V311/", "interoperability/mqtt/brokers/SN/")
F5, F3, FS = ("interoperability/mqtt/formats/MQTTV5/MQTTV5.py", "interoperability/mqtt/formats/MQTTV311/MQTTV311.py", "interoperability/mqtt/formats/MQTTSN/MQTTSN.py")
C5, C3 = ("interoperability/mqtt/clients/V5/", "interoperability/mqtt/clients/V311/")
L = "interoperability/mqtt/brokers/listeners/"
BOTH = [B5+"MQTTBrokers.py", B3+"MQTTBrokers.py"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "MQTT 5 packets: encoder and decoder use the standard's layout",
 "Every MQTT 5.0 control packet is encoded with exactly the fields, order, widths and flag-bit positions of the standard, optional fields appear exactly when their flag says so, and the remaining length counts exactly the bytes that follow. The decoder takes the same fields, in the same order and from the same positions, so that what one side encodes the other side reads back field by field.",
 ["inputs"], "all field values of all fifteen packet types, including every combination of optional parts",
 "the format tests pack and compare a handful of default-valued packets; flag combinations, will fields, properties and multi-byte lengths are not sampled",
 [F5], [("pack/unpack of each packet class", F5), ("FixedHeaders.pack/unpack", F5)], observe=["bytes on the wire", "decoded packet objects"])
prop("C02", "MQTT 3.1.1 packets: encoder and decoder use the standard's layout",
 "Every MQTT 3.1.1 control packet is encoded with exactly the fields, order, widths and flag-bit positions of the standard, optional fields appear exactly when their flag says so, and the remaining length counts exactly the bytes that follow. The decoder takes the same fields, in the same order and from the same positions, so that what one side encodes the other side reads back field by field.",
 ["inputs"], "all field values of all fourteen packet types, including every combination of optional parts and non-ASCII text",
 "the 3.1.1 tests only meet the few packets the client happens to send with ASCII text",
 [F3], [("pack/unpack of each packet class", F3), ("FixedHeaders.pack/unpack", F3)], observe=["bytes on the wire", "decoded packet objects"])
prop("C03", "MQTT-SN messages: encoder and decoder use the same layout",
 "Every MQTT-SN message type that has an encoder writes the fields, order, widths and flag bits of the MQTT-SN 1.2 message formats, with a length that counts the whole message, and its decoder takes the same fields in the same order from the same positions.",
 ["inputs"], "all field values of the MQTT-SN message types",
 "the one MQTT-SN test packs and unpacks a few fixed messages",
 [FS], [("pack/unpack of each message class", FS), ("Flags.getValue/unpack", FS), ("MessageLens.encode/decode", FS)], observe=["bytes of a datagram", "decoded message objects"])
prop("C04", "MQTT 5 property table: identifiers, types, packets and multiplicity",
 "Every MQTT 5 property has the identifier and data type the standard assigns, is accepted in exactly the packets (and wills) the standard allows, and is written and read with that same type. Only properties the standard lets repeat may occur twice, a repeated or foreign property is refused, and the property length counts exactly the bytes of the properties that follow.",
 ["inputs"], "all 27 properties in all packet types, in every order and multiplicity",
 "the property test samples a few properties in one packet and is not in the stable set",
 [F5], [("Properties tables, allowsMultiple, writeProperty, readProperty, pack, unpack", F5)], observe=["bytes on the wire", "decoded Properties objects", "MalformedPacket / MQTTException raised"])
prop("C05", "Reason codes: numbers, names and the packets they are allowed in",
 "Every MQTT 5 reason code carries the number the standard gives its name and is accepted in exactly the packet types the standard lists (under the names this repository uses), looking up by name and by number are inverse within a packet type, and an unknown number or name is refused. Every reason code that the broker itself puts in a packet is one that packet type may carry.",
 ["inputs", "histories"], "all (packet type, name, number) triples and every place the broker sets a reason",
 "tests meet a dozen of the about seventy pairs, and error reasons only occur on rare error paths",
 [F5, B5+"MQTTBrokers.py", B5+"Brokers.py", B5+"SubscriptionEngines.py"], [("ReasonCodes table, getName, getId, set, pack, unpack", F5), ("reasonCode arguments in the broker", B5+"MQTTBrokers.py")], observe=["reason code byte on the wire"])
prop("C06", "Variable byte integers and length-prefixed fields are coded exactly",
 "Lengths are encoded seven bits per byte, least significant first, with the top bit meaning continuation, and decoding is the exact inverse that also reports how many bytes were used; integers are big-endian of the stated width and strings and binary data carry the length in bytes of what follows. A length that would need more than four bytes is never accepted.",
 ["inputs"], "all representable lengths and integers, all strings including non-ASCII ones",
 "tests use short ASCII strings and small packets, so the multi-byte and non-ASCII arms are not reached",
 [F5, F3, FS], [("VBIs / MBIs encode and decode, readInt/writeInt, readUTF/writeUTF, readBytes/writeBytes", F5)], observe=["bytes on the wire", "values decoded"])
prop("C07", "Malformed packets are refused, not interpreted",
 "A received MQTT 3.1.1 or MQTT 5 packet with a reserved flag set or a fixed flag wrong, a QoS of 3, a zero packet identifier where one is needed (PUBLISH above QoS 0, SUBSCRIBE, UNSUBSCRIBE), an unknown packet type, a wrong protocol name or version, a field running past the end, bytes left over, or text that is not valid is rejected with an error, and is never handed on as if it were valid. A packet that satisfies these conditions is not rejected because of them.",
 ["inputs"], "all byte sequences received as one packet",
 "the tests send well-formed packets almost only",
 [F5, F3], [("assertions and raises in unpack of each packet class", F5), ("unpackPacket", F5)], observe=["exception raised by unpackPacket", "connection closed by the broker"])
prop("C08", "Stream framing: whole packets only, and end of stream ends the read",
 "From a byte stream split in any way, the reader returns exactly one whole packet as delimited by its length, leaving later bytes unread, and never a partial one. When the peer closes the stream at any point the read ends with an error or no packet, never with an endless loop; with WebSockets the frame lengths, masks and outgoing frame headers follow RFC 6455 for all payload sizes.",
 ["inputs", "fault_sequences"], "all segmentations of the byte stream, all frame lengths, peer closing after any byte",
 "tests run over loopback where packets arrive whole, and no stable test uses WebSockets",
 [F5, F3, L+"TCPListeners.py"], [("getPacket", F5), ("getPacket", F3), ("BufferedSockets.recv, wsrecv, send", L+"TCPListeners.py")], observe=["packets handed to the broker", "bytes sent on a WebSocket"])
prop("C09", "Shared broker state is only touched while holding the broker's lock",
 "Each thread that can run broker code (one per connection, the background timer) reads and changes the shared session, subscription and retained state of the brokers only while holding the one lock shared by all brokers. On every way out, including errors, the lock is released, and exactly as often as it was taken.",
 ["schedules"], "all interleavings of connection threads, keep-alive polls, the will-delay timer and administrative calls, and all exceptions raised in between",
 "races and lost lock releases need particular interleavings or errors that a few sequential tests do not produce",
 BOTH+[L+"TCPListeners.py", L+"HTTPListeners.py", L+"UDPListeners.py", "interoperability/mqtt/brokers/start.py"],
 [("handleRequest acquire/release", BOTH[0]), ("cleanupThreads.run", BOTH[0]), ("keepalive", BOTH[0])],
 state=[("lock", "the one re-entrant lock shared by the brokers", "interoperability/mqtt/brokers/start.py")], observe=["absence of races and deadlocks"])
prop("C10", "Each request gets exactly one matching acknowledgement, after taking effect",
 "For every received QoS 1 PUBLISH, QoS 2 PUBLISH, PUBREL, SUBSCRIBE, UNSUBSCRIBE, PINGREQ and expected PUBREC the MQTT 3.1.1 and MQTT 5 brokers send exactly one acknowledgement of the right type carrying the request's own packet identifier, to the connection it came from, and none for QoS 0. It is sent only after the request has taken effect (message handed on or stored, subscription changed), and an acknowledgement provokes no other answer than PUBREL for PUBREC; all that an acknowledgement which ends an exchange may set going besides is a PUBLISH that waited for it.",
 ["inputs", "histories"], "all requests in all session states and for all broker options",
 "tests check the few acknowledgements of the exchanges they sample, and never duplicates or unknown identifiers for every packet type and option",
 BOTH, [("publish, pubrel, pubrec, subscribe, unsubscribe, pingreq handlers", BOTH[0])], observe=["packets sent to the requesting client"])
prop("C12", "Incoming QoS 2 messages are handed on exactly once",
 "A QoS 2 message is handed to subscribers exactly once per exchange, however often the publisher repeats the PUBLISH or the PUBREL: on first receipt (or on the first PUBREL when the broker is so configured), and its identifier is remembered until the PUBREL and then forgotten so that it can be used again.",
 ["histories", "fault_sequences"], "all sequences of PUBLISH, repeated PUBLISH, PUBREL, repeated PUBREL and reconnections, for both settings of publish-on-pubrel",
 "duplicates only arise with loss and reconnection at particular points; tests do one or two of them, with the default option",
 BOTH, [("publish QoS 2 arm, pubrel", BOTH[0]), ("MQTTClients.pubrel", BOTH[0])],
 state=[("inbound", "identifiers (or packets) of QoS 2 messages received and not yet released", BOTH[0])], observe=["messages delivered to subscribers", "PUBREC / PUBCOMP"])
prop("C13", "Outgoing QoS 1 and 2 messages: identifiers, completion and resending",
 "Each outgoing QoS 1 or 2 message gets a packet identifier between 1 and 65535 that no other unfinished message of the client uses, and is remembered until the acknowledgement that ends its own exchange arrives: PUBACK for QoS 1, PUBREC then PUBCOMP for QoS 2; any other acknowledgement leaves all messages as they were. After reconnecting to a session every unfinished message is sent again with its identifier, as PUBLISH with the duplicate flag set, or as PUBREL once PUBREC was received. A QoS 0 message that waited for the reconnection is sent once.",
 ["histories", "fault_sequences"], "all sequences of deliveries, acknowledgements (also wrong or repeated ones), disconnections and reconnections",
 "tests lose a connection once, in one state; wrong acknowledgements and identifier wrap-around are not reached",
 BOTH, [("publishArrived, sendFirst, puback, pubrec, pubcomp, resend, resendPub", BOTH[0])],
 state=[("outbound / outmsgs", "unfinished outgoing messages, in order and by identifier", BOTH[0]), ("msgid", "next identifier", BOTH[0])], observe=["PUBLISH / PUBREL sent to subscribers"])
prop("C14", "Receive Maximum is respected in both directions",
 "The broker never has more unacknowledged QoS 1 and 2 messages outstanding to an MQTT 5 client than that client's Receive Maximum; further messages wait, and each completed exchange lets the next one go, so that none is stuck or sent twice. A client that exceeds the broker's own Receive Maximum is disconnected, and one that stays within it is not.",
 ["histories"], "all sequences of deliveries and acknowledgements, all Receive Maximum values",
 "the flow-control tests use one value and a short sequence",
 [B5+"MQTTBrokers.py"], [("publishArrived, sendQueued, sendFirst, puback, pubcomp", B5+"MQTTBrokers.py"), ("receive maximum test in publish", B5+"MQTTBrokers.py")],
 state=[("queued", "messages waiting for quota", B5+"MQTTBrokers.py")], observe=["PUBLISH packets sent before acknowledgements"])
prop("C15", "Routing: who receives a message, with which QoS and flags",
 "A published message is delivered to exactly the clients with a matching subscription, with the lower of the publication's QoS and the subscription's (the highest of several overlapping ones), once per client when overlapping deliveries are merged and otherwise once per subscription. No Local, Retain As Published and subscription identifiers of the matching subscriptions are applied as the standard says; topic and payload are passed on unchanged.",
 ["inputs", "histories", "configurations"], "all sets of subscriptions and options, all publications, both overlap settings",
 "tests use two clients and few subscriptions; combinations of options with overlapping are not sampled",
 [B5+"Brokers.py", B3+"Brokers.py", B5+"SubscriptionEngines.py", B3+"SubscriptionEngines.py"], [("publish", B5+"Brokers.py"), ("optionsOf / qosOf / subscriptions", B5+"SubscriptionEngines.py")], observe=["PUBLISH packets received by subscribers"])
prop("C16", "Retained messages are stored, replaced, cleared and delivered as required",
 "A retained publication replaces the stored message of its topic, an empty one removes it, and a non-retained one leaves it alone. A new subscription (not a shared one) is sent the stored messages of all matching topics, once each, flagged as retained and with the lower QoS, unless its retain handling option says otherwise; neither ending a session nor unsubscribing removes them.",
 ["inputs", "histories"], "all sequences of publications and subscriptions, all retain-handling values and old/new subscriptions",
 "tests do one publication per case and sample the retain-handling options once",
 [B5+"Brokers.py", B3+"Brokers.py", B5+"SubscriptionEngines.py", B3+"SubscriptionEngines.py"], [("setRetained/getRetained/getRetainedTopics", B5+"SubscriptionEngines.py"), ("__doRetained__", B5+"Brokers.py")],
 state=[("retained", "topic to stored message", B5+"SubscriptionEngines.py")], observe=["PUBLISH with RETAIN received after SUBSCRIBE"])
prop("C17", "Shared subscriptions: one member of each group gets each message",
 "Of the matching subscriptions that share a share name and filter exactly one is chosen for each message, each different group is served, and members of a group are never served as if they were ordinary subscribers; ordinary subscriptions are not affected.",
 ["inputs", "histories"], "all sets of shared and ordinary subscriptions",
 "the shared subscription test uses one group of two clients",
 [B5+"Brokers.py", B5+"Topics.py"], [("publish: split, choice per share name", B5+"Brokers.py"), ("topicMatches: stripping the prefix", B5+"Topics.py")], observe=["PUBLISH packets received by group members"])
prop("C18", "Sessions are created, resumed, taken over and discarded as requested",
 "On connection the broker discards or resumes the client's stored session as its clean start (clean session) flag and the session's expiry require, reports that truthfully as session present, and first ends an existing connection of the same protocol version with the same client identifier. When a connection ends the session (subscriptions, unfinished and queued messages) is kept or discarded exactly as its expiry interval (clean session flag) says; a kept session whose expiry interval has passed when the client comes back is not resumed.",
 ["histories"], "all sequences of connects and disconnects of clients with the same or different identifiers, all expiry values",
 "tests do one reconnect per flag value; expiry after time and takeovers with state are hardly sampled",
 BOTH+[B5+"Brokers.py", B3+"Brokers.py"], [("connect, disconnect", BOTH[0]), ("connect, disconnect, cleanSession", B5+"Brokers.py")], observe=["CONNACK session present", "messages delivered after reconnect"])
prop("C19", "Will messages are sent exactly when they should be, once",
 "A client's will is published with its own topic, payload, QoS, retain flag and properties, exactly once, when its connection ends without a normal disconnect (other than by the shutdown of the broker), after the will delay or the session's end, whichever is first. It is not published after a normal disconnect or when the client is back before the delay is over, and a client without a will causes none.",
 ["histories", "schedules", "fault_sequences"], "all ways a connection can end, all delays, reconnections before and after",
 "tests kill one connection with one will; error exits and reconnects inside the delay are not combined",
 BOTH+[B5+"Brokers.py", B3+"Brokers.py"], [("setupWillMessage, sendWillMessage, disconnect", B5+"Brokers.py"), ("terminate", B3+"Brokers.py"), ("cleanupThreads.run", BOTH[0])],
 state=[("will / delayedWillTime / willMessageClients", "stored will and when to send it", B5+"Brokers.py")], observe=["PUBLISH received by subscribers of the will topic"])
prop("C20", "Connection life cycle: CONNECT first and once, and no half-closed client",
 "Nothing but a CONNECT is acted on as the first packet of a connection and a second CONNECT ends it; a CONNECT with an unsupported version or a client identifier that is not acceptable gets the refusal meant for it, and a refused CONNECT's connection is closed without creating a session. The answer to an accepted CONNECT is the first packet sent on its connection. Whenever the broker stops serving a connection, for whatever reason including errors in handling a packet, its network connection is closed and the client is no longer registered as connected on it.",
 ["inputs", "fault_sequences"], "all first packets, all errors raised while handling a packet, all points of losing the connection",
 "tests send CONNECT first and well-formed packets; error exits are not exercised",
 BOTH+[L+"TCPListeners.py"], [("handlePacket, handleRequest, connect, disconnect", BOTH[0]), ("handle", L+"TCPListeners.py")], observe=["connection closed", "clients registered"])
prop("C21", "Topic aliases stand for exactly the topic they were set to",
 "An alias in a received PUBLISH is recorded for that connection when a topic is given and otherwise replaced by the recorded topic; an alias of zero, above the maximum, or unknown without a topic is a protocol error. Outgoing aliases never exceed the client's maximum, are introduced together with their topic, always denote the same topic, and both directions start afresh with each connection.",
 ["inputs", "histories"], "all sequences of PUBLISH packets with and without aliases, all alias maxima, reconnections",
 "the alias tests set one or two aliases in one connection",
 [B5+"Brokers.py", B5+"MQTTBrokers.py"], [("publish, getAliasTopic", B5+"Brokers.py"), ("publishArrived, clearTopicAliases", B5+"MQTTBrokers.py")], observe=["topic of delivered messages"])
prop("C22", "Message expiry: expired messages are dropped, others carry the time left",
 "For messages sent to MQTT 5 clients: one whose Message Expiry Interval has passed since the broker received it is not delivered, and one delivered earlier carries the received interval minus the whole time, in seconds, it has waited in the broker; a message without an interval never expires. The interval of a will starts when the will is published.",
 ["histories"], "all intervals and all waiting times in queues, as retained or unacknowledged message, for all recipients",
 "the test waits for one queued message and one recipient",
 [B5+"MQTTBrokers.py"], [("respond: expiry", B5+"MQTTBrokers.py"), ("publishArrived: receivedTime", B5+"MQTTBrokers.py")], observe=["MessageExpiryInterval of delivered messages"])
prop("C23", "No packet larger than the receiver's maximum is sent or accepted",
 "Once an MQTT 5 client is connected, the broker sends it no packet larger than the Maximum Packet Size that client announced, and drops a PUBLISH that would be; smaller ones are sent. A packet larger than the broker's own maximum is refused with the packet-too-large error.",
 ["inputs", "configurations"], "all packet kinds and sizes, all announced maxima",
 "the test uses one maximum and one kind of packet",
 [B5+"MQTTBrokers.py", F5], [("respond", B5+"MQTTBrokers.py"), ("unpackPacket", F5)], observe=["size of packets on the wire"])
prop("C24", "One recipient's copy of a message is independent of every other's",
 "What the broker does to a message for one recipient (aliases, subscription identifiers, remaining expiry, flags, identifiers) never changes what another recipient, the retained store or a queue holds for the same message.",
 ["histories", "inputs"], "all numbers of recipients of one message with different options, and later deliveries of retained messages",
 "needs several recipients with different options for one message; tests have one recipient per feature",
 [B5+"MQTTBrokers.py", B5+"Brokers.py", B5+"SubscriptionEngines.py", B3+"MQTTBrokers.py"], [("publishArrived", B5+"MQTTBrokers.py"), ("publishAction", B5+"Brokers.py"), ("setRetained", B5+"SubscriptionEngines.py")], observe=["properties of PUBLISH packets received by different subscribers"])
prop("C25", "SUBACK and UNSUBACK answer each filter, in order, truthfully",
 "The SUBACK has one code per requested filter in the same order: the granted QoS, never above the requested one, or the failure code, and exactly the accepted filters become subscriptions with the granted QoS. The MQTT 5 UNSUBACK has one code per filter in order, success exactly when a subscription was removed.",
 ["inputs"], "all lists of filters and options, existing and not existing subscriptions",
 "tests send one or two filters per packet",
 BOTH+[B5+"SubscriptionEngines.py", B3+"SubscriptionEngines.py"], [("subscribe, unsubscribe", BOTH[0]), ("subscribe, unsubscribe", B5+"SubscriptionEngines.py")], observe=["SUBACK / UNSUBACK codes"])
prop("C26", "Every packet type is handled, and every hand-over between parts fits",
 "Each packet type a client may send has a decoder, and the MQTT 3.1.1 and MQTT 5 brokers a handler for it that can be called the way it is dispatched; each call between listeners, brokers, stores, formats and clients (the unfinished MQTT-SN broker and the bridges apart) passes arguments the callee accepts and uses only names that exist. Clients of one protocol version with ordinary subscriptions receive publications made with the other version.",
 ["inputs", "configurations"], "all packet types, all calls in the brokers, clients, formats, listeners and proxies, both protocol versions of publisher and subscriber",
 "Python checks arity and names only when a line runs; error paths and version crossings are hardly run",
 BOTH+[B5+"Brokers.py", B3+"Brokers.py", SNB+"MQTTSNBrokers.py", F5, F3], [("dispatch in handlePacket", BOTH[0]), ("classes tables", F5)], observe=["absence of NameError, TypeError, AttributeError"])
prop("C27", "The test clients complete QoS handshakes and deliver once",
 "The client library answers each received QoS 1 PUBLISH with PUBACK and each QoS 2 PUBLISH with PUBREC, and PUBREL with PUBCOMP, with the same identifier, and gives the application each QoS 2 message once; only a message the application refuses is not acknowledged. For its own publications it keeps each message until the acknowledgement that ends its exchange, sends PUBREL for a PUBREC, and never gives a publication the identifier of one that is still kept. What it sends for connect, subscribe, unsubscribe and publish carries exactly what the call was given, and the identifier the call returns.",
 ["histories", "fault_sequences"], "all sequences of incoming packets, including repeated and unknown ones",
 "the tests only meet the sequences the broker in this repository produces",
 [C5+"internal.py", C3+"internal.py", C5+"main.py", C3+"main.py"], [("Receivers.receive", C5+"internal.py"), ("Client.publish", C5+"main.py")], observe=["packets sent by the client", "callbacks"])
prop("C28", "Proxies pass bytes on unchanged, in order, both ways",
 "Each proxy sends to the broker exactly the bytes received from the client and to the client exactly the bytes received from the broker, each once, in order and to the connection's own peer, whatever it shows or logs about them, until one side closes; then both sides are closed.",
 ["inputs", "fault_sequences"], "all byte streams in both directions, undecodable packets, and closes by either side",
 "no test runs the proxies",
 ["interoperability/mqtt/proxy/mqttsas.py", "interoperability/mqtt/restart/netproxy.py"], [("MyHandler.handle", "interoperability/mqtt/proxy/mqttsas.py"), ("handle", "interoperability/mqtt/restart/netproxy.py")], observe=["bytes received by broker and client"])
prop("C29", "Configured options reach the code they are meant to control",
 "Each broker option given on the command line or in the configuration file takes the value given, has its default otherwise, and reaches both protocol versions' brokers unchanged; each configured listener is started with its own port, address and protocol.",
 ["configurations"], "all combinations of options and listeners",
 "tests run with one configuration",
 ["interoperability/mqtt/brokers/start.py", "interoperability/startbroker.py"], [("process_config, run, main", "interoperability/mqtt/brokers/start.py")], observe=["broker behaviour under each option"])
prop("C30", "The model-based test driver judges each observed packet exactly once",
 "When a recorded test is run, each packet received from the system under test is matched with at most one expected packet and each expected packet with at most one received, equal to it in everything but the packet identifier. Every expectation of the log (a packet or the result of a call) is counted once, as a pass or, if it is missing or differs, as a failure, a packet that arrives before the driver has stopped waiting is found, and a run is reported as successful only if nothing failed.",
 ["histories"], "all logs and all orders of observed events",
 "the driver itself has no tests",
 ["interoperability/mbt/main.py"], [("Executions, Models", "interoperability/mbt/main.py")], observe=["result reported for a test run"])
prop("C31", "Keep alive: silent clients are cut off after one and a half times, others never",
 "A connected client that has sent nothing for one and a half times its effective keep alive time is disconnected as an abnormal end, with its will; one with a keep alive of zero, or that has sent any packet within that time, is not. The effective time is the client's, or the smaller one the broker announced to it.",
 ["schedules", "histories"], "all keep alive values and all spacings of packets",
 "the test uses one keep alive value and total silence",
 BOTH+[L+"TCPListeners.py"], [("keepalive", BOTH[0]), ("handle: idle poll", L+"TCPListeners.py")], state=[("lastPacket", "time of the last packet of a client", BOTH[0])], observe=["connection closed"])
prop("C32", "Topics beginning with $ are kept apart from ordinary ones",
 "Subscriptions and retained messages of topics whose first character is $ are stored and looked up apart from all others, so that filters starting with a wildcard never meet them, while shared subscriptions are filed with the ordinary ones. Subscribing, unsubscribing, publishing and retaining agree on where a name belongs.",
 ["inputs"], "all topic names and filters",
 "tests use one $ topic",
 [B5+"SubscriptionEngines.py", B3+"SubscriptionEngines.py"], [("isDollarTopic and its uses", B5+"SubscriptionEngines.py")], observe=["messages received by wildcard subscribers"])
prop("C33", "Messages to one client leave in the order they arrived",
 "Messages waiting for a client are sent first come first served, unfinished messages are resent in their original order and before any waiting ones, and no message is overtaken or lost on the way between the two.",
 ["histories"], "all sequences of deliveries, acknowledgements and reconnections",
 "tests queue two or three messages once",
 BOTH, [("sendQueued, sendFirst, resend, publishArrived", BOTH[0])], state=[("queued / outbound", "message lists in order", BOTH[0])], observe=["order of PUBLISH packets"])
prop("C34", "The subscription store holds exactly what was subscribed and not unsubscribed",
 "Subscribing adds one entry for the client and filter, or replaces the options of the existing one; unsubscribing removes exactly that client's entry for exactly that filter; clearing a client removes all and only its entries. No entry is skipped or lost because the store changes while it is being gone through.",
 ["histories", "inputs"], "all sequences of subscribe, unsubscribe and clear by all clients",
 "tests have at most a few subscriptions and one client changing them",
 [B5+"SubscriptionEngines.py", B3+"SubscriptionEngines.py", B5+"Subscriptions.py", B3+"Subscriptions.py"], [("subscribe, unsubscribe, clearSubscriptions", B5+"SubscriptionEngines.py")], state=[("subscriptions", "list of subscriptions", B5+"SubscriptionEngines.py")], observe=["messages received after (un)subscribing"])
prop("C35", "Topic filters: placement of wildcards and matching of names",
 "A filter matches exactly the topic names the standard says: level by level, + for one level, # for any number of trailing levels, every other character for itself; and a filter or name with a misplaced wildcard, an empty or an over-long one is refused with an error. (Names beginning with $ are the subject of C32.)",
 ["inputs"], "all filters and all topic names",
 "the tests use a dozen filter and name pairs",
 [B5+"Topics.py", B3+"Topics.py"], [("topicMatches, isValidTopicName", B5+"Topics.py")], observe=["which subscribers receive a message"])
prop("C36", "Retried and time-driven actions happen in time",
 "A delayed will is published within a bounded time after its delay, a queued message is sent within a bounded time after quota becomes free, and a blocked or slow connection does not delay the others without bound.",
 ["schedules", "fault_sequences"], "all loads, speeds of peers and interleavings",
 "tests run on an idle machine with fast peers",
 BOTH+[L+"TCPListeners.py"], [("cleanupThreads.run", BOTH[0]), ("getPacket under the lock", BOTH[0])], observe=["time of packets"])
prop("C37", "The models describe the standard: a correct broker is never judged wrong",
 "For every sequence of actions the protocol models allow, a broker that conforms to the standard produces only observations the models accept, and the models accept only conforming observations.",
 ["programs", "histories"], "all action sequences the models can generate and all conforming brokers",
 "would need all conforming brokers and all sequences",
 ["interoperability/specifications/MQTTV311.py", "interoperability/specifications/MQTTV5.py"], [("model actions", "interoperability/specifications/MQTTV311.py")], observe=["verdict of a model-based test run"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
