NOTES = {
"C01": "Encoders and decoders of `MQTTV5.py` are summarised and walked along the layout of each of the 15 packet types, for all values of the fields. Tests send a few packets; here each field's position, width and condition is compared for all. Strings and properties are taken as units whose coding is C06/C04. About 8 s.",
"C02": "As C01 for the 14 packet types of `MQTTV311.py`.",
"C03": "`MQTTSN.py` is folded with unknown bytes (cells with identity) for each message type, for payload sizes on both sides of the one-byte length limit (0, 1, 2, 200, 250..260, 1000 bytes), and each flag byte for all combinations; expected are the cells at the layout's places. Message types without an encoder are only required not to be taken for others.",
"C04": "The property table is folded as the program builds it and each of the 27 properties × 16 packet kinds is set, packed and unpacked with unknown values; compared with the standard's table (identifier, type, packets, multiplicity). Sequences of all properties, of repeated and of foreign ones. What the standard forbids about *values* (Receive Maximum 0, byte properties other than 0 and 1) is not in the statement; the code does not refuse it.",
"C05": "All 256 numbers × 10 packet types are folded through the tables, and every use of a reason code in the broker is followed to the packet it ends up in (names passed through exceptions and parameters included).",
"C06": "Interval reasoning over the loops of the length coder (for all lengths 0..268435455 and every fifth byte), and provenance of the length field for strings and data. That the shortest form is used is required of encoders; that longer forms are refused is required of MQTT 5 only.",
"C07": "Each decoder's path classes: on every path that accepts, the stated conditions are entailed (flags, QoS, identifiers, ends of fields, everything consumed); on every path that refuses, at least one of them fails.",
"C08": "The framing readers, the buffering socket and the websocket layer are folded over a stream of unknown bytes that arrives in all splittings of short packets (headers of 1..5 bytes, bodies around the boundaries 0, 1, 125, 126, 127, 65535, 65536) and ends at every position; a read that asks an ended stream again and again is an endless loop. RFC 6455 features nothing here uses (fragmentation, extensions) are left out.",
"C09": "All thread entries (connection handler, background timer, HTTP interface) are found from `start.run` folded with recorded constructors, which also shows that all hold one re-entrant lock. From each entry the lock depth is computed over all paths; every access to the shared containers and to clients' changing fields must be at depth ≥ 1 and each way out must be at depth 0. The background thread's stop flag is no shared state. Bridges are never started and are left out.",
"C10": "Decision tables over the handlers of both brokers: exactly one packet, of the right type, with the request's identifier, to the request's socket, after the effect. A failing `respond` is a path of its own.",
"C12": "Decision table of PUBLISH (QoS 2) and PUBREL over (identifier remembered, publish-on-pubrel), plus: all functions that mention the store of remembered identifiers are among those analysed, and none of them changes it elsewhere. This is an induction over histories: each operation is judged in an arbitrary state.",
"C13": "Induction over operations as in C12: identifiers (1..65535, not in use, by the loop that looks for one), the completion table over (known, QoS, state), and resending. In 3.1.1 a message queued while its client was away has DUP set at its first transmission; the statement does not speak about that.",
"C14": "Guards of every place where a message enters the unacknowledged ones; every operation that makes room ends with nothing waiting or no room. Known finding below: resending after a reconnect does not look at the quota.",
"C15": "`Brokers.publish` of both brokers is summarised as nested loops over the matching subscriptions and judged for all combinations of No Local, Retain As Published, number of subscriptions of one client, identifiers, merging on and off. The store's lookups are judged separately.",
"C16": "Decision tables of storing, looking up, delivering on SUBSCRIBE (retain handling 0, 1, 2 × subscribed before × shared), and that nothing else touches the store.",
"C17": "The group loop of `Brokers.publish`: keys of groups are share name and filter, one pick per group among the group's members, each group served.",
"C18": "Decision tables of CONNECT over (clean start, session stored, expired, connected), `Brokers.connect`/`disconnect` and the expiry interval's sources. Expiry is applied when the client comes back (the code keeps expired sessions until then); a takeover across protocol versions does not happen and is outside of the statement.",
"C19": "Will fields at CONNECT; the end of a connection; the background thread's round for an arbitrary noted will; coming back; and each of the places that end a connection, by whether they ask for the will.",
"C20": "Handlers' path classes with exceptions from every callee; `handleRequest` folded over packet types and errors; the listener's thread.",
"C21": "PUBLISH with (topic, alias) present or not, alias 0, known, beyond the maximum; the outgoing side for any number of aliases in use; resets at the end of connections.",
"C22": "Linear terms over clock and arrival times: in a PUBLISH sent, the interval is the kept interval minus whole seconds since the kept arrival, and the sum of both never changes over sending again.",
"C23": "`respond` and its callers; the receive side folded for sizes around the maximum.",
"C24": "Freshness and aliasing: which object a message, fixed header or property list is (new, copy, or shared) at each hand-over, and what is written while a publication is handed out; module-level and default-argument sharing in constructors by folding two constructions.",
"C25": "The loops over filters of SUBSCRIBE and UNSUBSCRIBE: one code per filter in order, tied to what the store does.",
"C26": "Names, attributes and arities over all modules; packet types folded through decoder and handler; the wiring made by `start.run`; routing to the other version's clients (ordinary subscriptions).",
"C27": "Receivers' decision tables, identifiers, sending in pieces, and keeping before sending, for both client libraries. The packets sent for connect, subscribe, unsubscribe and publish are folded for a table of arguments and compared with the standard's bytes. A receiver paused by a test ignores PUBLISH and is left out; `resend` is never called and is not covered.",
"C28": "The three proxies are folded with two modelled sockets: all interleavings of what is ready, pieces, packets that can and cannot be shown, end of either side, several connections at once.",
"C29": "`start.main` and `run` folded for each option on the command line and in the file (values at the ends of their ranges), 9 listener configurations, TLS settings; the recorded constructor calls are compared with a table. The defaults are those of `start.run`.",
"C30": "`Tests` of `mbt/main.py` folded with the model's judgement, the time of arrival and alike packets left open; the 3.1.1 model's own comparison over its textual form. That nothing unexpected arrives is not judged by the driver and not part of the statement.",
"C31": "The background thread's round for an arbitrary client and clock, and all places that set the time of the last packet.",
"C32": "Each operation of the store over the first character of name and filter and over `$share/`.",
"C33": "The lists of unfinished and waiting messages are only appended to, and taken from at the front; sending at once only when nothing waits.",
"C34": "The store's operations for an arbitrary store: additions, replacement, removal, and loops that change what they go through.",
"C35": "See Languages above: filters of up to 4 levels over (empty, character, +, #, each special character of regular expressions) are folded through the pattern builder and compared for names of any length; validity is folded for all arrangements of up to 6 characters of the alphabet {a, /, +, #} and the length limits.",
}
