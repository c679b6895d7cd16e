#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PK = ["src/packets/mod.rs", "src/packets/utils.rs", "src/packets/headers/fixed_header.rs", "src/packets/headers/connect.rs", "src/packets/enums.rs"]
TR = ["src/topic_heir.rs", "src/utils.rs", "src/core/mod.rs"]
HD = ["src/handler.rs", "src/main.rs", "src/core/mod.rs", "src/core/session.rs"]

p("C01", "Decoding untrusted bytes never crashes the connection's task",
  "For every byte sequence a peer can send, decoding it terminates and yields either a packet or an error: no panic, no arithmetic overflow, no access outside the received bytes. A successful decode always reports a packet size that is at least two bytes, at most the number of bytes received, and equal to the fixed header plus the declared remaining length.",
  ["inputs"], "every byte sequence up to the stated length, for every packet type and every declared remaining length",
  "The unit tests decode five well-formed packets; the failing inputs are the ones where a declared length disagrees with the lengths inside the packet, which no test constructs.",
  PK, [("packet decoder", "Packet::unpack / VariableHeader::unpack in src/packets/mod.rs"), ("remaining-length arithmetic", "src/packets/mod.rs, PUBLISH/SUBSCRIBE/UNSUBSCRIBE/SUBACK arms"), ("length and string readers", "src/packets/utils.rs")])
p("C02", "A packet is decoded from exactly its own bytes",
  "The result of decoding a packet depends only on the bytes inside the length its fixed header declares: appending or changing bytes after the packet never changes the decoded fields, the reported size or whether it is accepted. A buffer that holds only a prefix of a packet is never accepted as a complete packet, so no truncated topic, string or payload is ever acted on.",
  ["inputs"], "every packet and every two tails; every packet and every strict prefix of it, within the stated length",
  "Tests always hand the decoder a buffer holding one whole packet and nothing else; over TCP the buffer holds whatever has arrived.",
  PK + ["src/handler.rs"], [("remaining length bounds the body", "Packet::unpack in src/packets/mod.rs"), ("string/bytes readers", "unpack_string_with_len, unpack_bytes in src/packets/utils.rs")])
p("C03", "Decoding a well-formed packet yields exactly the fields on the wire",
  "For every well-formed CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE, PUBACK, PUBREC, PUBREL, PUBCOMP, PINGREQ and DISCONNECT packet of MQTT 3.1.1 the decoder accepts it and every field it reports (packet type, DUP/QoS/RETAIN, packet identifier, topic, payload, filters with their QoS in order, client id, keep alive, clean-session, will, user name and password) equals the value encoded in the bytes. A zero-length client id with clean session is replaced by a fresh non-empty id.",
  ["inputs"], "every field value within the stated string and payload lengths, and length fields at their one/two/three-byte and 8-bit boundaries",
  "Tests check one hand-written packet per type with one set of values; errors confined to particular bits, identifiers over 255 or multi-byte lengths do not show there.",
  PK, [("per-type decoding", "VariableHeader::unpack in src/packets/mod.rs"), ("flag accessors", "src/packets/headers/connect.rs, src/packets/headers/fixed_header.rs"), ("big-endian readers", "src/packets/utils.rs")])
p("C04", "Every packet the broker emits is well-formed at every size",
  "Every packet the broker encodes starts with the right packet type and flag bits, carries a minimal remaining-length field of one to four bytes that equals the number of bytes that follow it, for all lengths up to 268,435,455, and then holds exactly the given fields in order. Decoding an encoded packet gives back the values it was built from.",
  ["inputs"], "every packet identifier, QoS, flag, return code, topic and payload within the stated lengths; every remaining length from 0 to 268,435,455",
  "Tests encode one- and two-byte lengths only, on an empty buffer, and compare three packets with fixed values.",
  PK + ["src/packets/headers/connack.rs"], [("length encoder", "encode_length in src/packets/utils.rs"), ("packet encoder", "Packet::pack and Packet::make_* in src/packets/mod.rs")])
p("C05", "Malformed packets are refused, never reinterpreted",
  "A packet that MQTT 3.1.1 calls malformed is refused with an error and has no other effect: reserved packet types 0 and 15, reserved fixed-header flag bits with the wrong value, QoS 3, a remaining-length field longer than four bytes, strings that are not valid UTF-8, a body shorter or longer than its fields, SUBSCRIBE or UNSUBSCRIBE without a filter, a SUBSCRIBE QoS byte above 2, an empty PUBLISH topic or one containing a wildcard. For CONNECT also: a wrong protocol name or level, the reserved flag set, will QoS 3, will QoS or will retain without a will, a password without a user name, and an empty client id without clean session.",
  ["inputs"], "every byte sequence up to the stated length that an independent specification of MQTT 3.1.1 classifies as malformed",
  "Apart from one too-short integer no test feeds the decoder a malformed packet, and the space of malformed packets cannot be listed by hand.",
  PK, [("type/QoS conversions", "TryFrom impls in src/packets/enums.rs"), ("flag checks", "VariableHeader::unpack in src/packets/mod.rs"), ("length limit", "decode_length in src/packets/utils.rs")])

p("T01", "A message reaches exactly the clients whose filters match its topic",
  "After any history of subscriptions, publishing to a topic selects a client if and only if at least one of the filters it currently holds matches the topic under the MQTT rules: levels compare equal byte for byte, '+' matches exactly one level, '#' matches the parent and any number of further levels, and a filter that starts with a wildcard does not match topics that start with '$'. Other clients' filters never influence whether a client is selected. What filters of the broker's own $share extension select is not part of this.",
  ["inputs", "histories"], "every set of filters and every topic within the stated number of filters, levels and characters, in every order of subscribing",
  "The tree tests print their result and assert nothing; matching errors need two particular filters to be present together.",
  TR, [("tree insert/lookup", "SubscriptionTree and SubHier in src/topic_heir.rs"), ("level splitting", "tokenise_topic in src/utils.rs"), ("publish fan-out", "App::publish in src/core/mod.rs")])
p("T02", "Overlapping subscriptions give one copy at the highest granted QoS",
  "However many of a client's filters match a published topic, the client is selected exactly once, and with the highest QoS granted by any of its matching filters. The number of clients selected equals the number of distinct clients with a matching filter.",
  ["inputs", "histories"], "every set of overlapping filters with every combination of QoS, for several clients, within the stated bounds",
  "No test subscribes one client twice with overlapping filters, or checks the QoS of a lookup.",
  TR, [("de-duplication by client", "SubHier::get, SubscriptionTree::get in src/topic_heir.rs")])
p("T03", "Subscribing and unsubscribing change exactly one subscription",
  "Subscribing again to the same filter replaces that client's earlier subscription (the new QoS applies, no duplicate remains). Unsubscribing removes exactly that client's subscription to exactly that filter: afterwards it no longer matches, while the client's other filters and all other clients' subscriptions, including those on longer, shorter or wildcard variants of the filter, behave as before; unsubscribing from a filter that is not held changes nothing.",
  ["inputs", "histories"], "every sequence of subscribe and unsubscribe operations up to the stated length, over every filter within the stated bounds, compared with a set-of-pairs model after each history",
  "One test deletes one subscription and asserts only that no error came back; state left behind or removed by mistake needs a longer history to show.",
  TR, [("insert/replace", "SubHier::insert in src/topic_heir.rs"), ("delete and pruning of empty nodes", "SubHier::delete, SubscriptionTree::delete in src/topic_heir.rs"), ("App::unsubscribe", "src/core/mod.rs")])
p("T04", "Every filter in a SUBSCRIBE gets its own answer, in order",
  "The answer to a SUBSCRIBE carries exactly one return code per requested filter, in request order: the requested QoS for a valid filter of at most 200 levels, and failure (0x80) for a filter that is not valid in MQTT (empty, '#' not alone in the last level, '+' not alone in its level); the broker's own keyword $share on its own may be answered either way. A refused filter selects no topic at all, and it does not affect the other filters of the same request.",
  ["inputs"], "every list of filters up to the stated number and length, and every QoS",
  "No test looks at subscription answers at all.",
  TR + ["src/packets/mod.rs"], [("return codes", "App::subscribe in src/core/mod.rs"), ("filter validation", "SubscriptionTree::insert in src/topic_heir.rs"), ("SUBACK encoding", "Packet::make_suback in src/packets/mod.rs")])

p("S01", "CONNECT comes first, once, and is answered once",
  "Before a valid CONNECT has been processed on a connection, no other packet is answered or has any effect on other clients, and the connection is closed. A valid CONNECT is answered by exactly one accepting CONNACK, before anything else is sent on that connection. A second CONNECT on the same connection is never accepted and ends the connection, as does any packet only a server may send.",
  ["inputs", "histories"], "every first packet and every pair of packets over the stated packet family",
  "The connection handler has no tests.",
  HD, [("handshake state", "client_handler in src/handler.rs"), ("registration", "App::connect in src/core/mod.rs")])
p("S02", "Every request gets exactly its acknowledgement, in order",
  "On an established connection each SUBSCRIBE, UNSUBSCRIBE, QoS 1 PUBLISH, QoS 2 PUBLISH, PUBREC, PUBREL and PINGREQ is answered by exactly one SUBACK, UNSUBACK, PUBACK, PUBREC, PUBREL, PUBCOMP or PINGRESP carrying the same packet identifier, in the order the requests arrived. QoS 0 PUBLISH, PUBACK and PUBCOMP are never answered, and none of these packets ends the connection.",
  ["inputs", "histories"], "every sequence of requests up to the stated length with every packet identifier",
  "The connection handler has no tests.",
  HD + ["src/packets/mod.rs"], [("request dispatch", "client_handler in src/handler.rs"), ("acknowledgement builders", "Packet::make_* in src/packets/mod.rs")])
p("S03", "How the byte stream is cut into reads does not matter",
  "For every sequence of packets a client sends, the broker's answers, the messages it delivers and the state of the connection are the same whether the bytes arrive one at a time, in arbitrary pieces, or several packets at once. This holds for packets of any size, including those larger than any internal read buffer.",
  ["inputs", "schedules"], "every way to cut the stated packet sequences into reads, and packets around the read-buffer size",
  "Segmentation is chosen by the network; no test drives the handler's read loop.",
  HD + ["src/packets/mod.rs"], [("read loop and buffer consumption", "client_handler in src/handler.rs"), ("reported packet size", "Packet::unpack in src/packets/mod.rs")])
p("S04", "Outgoing packets are written completely whatever the socket accepts",
  "Whatever number of bytes the transport accepts per write, the bytes a client receives are a concatenation of whole packets in the order the broker produced them: nothing is lost, repeated, truncated or interleaved.",
  ["fault_sequences", "schedules"], "every pattern of short writes and temporarily blocked writes up to the stated number",
  "A loopback socket accepts small writes whole, and no test exercises the writer.",
  HD, [("writes to the stream", "client_handler in src/handler.rs")])
p("S05", "A published message is delivered intact, in order, to every subscriber",
  "Every accepted PUBLISH is delivered once to each connected client with a matching subscription whose queue is not full, including the publisher itself if subscribed, and to nobody else, with topic and payload byte for byte unchanged and with RETAIN and DUP clear. Messages of one publisher on one topic arrive at each subscriber in publishing order.",
  ["inputs", "histories", "schedules"], "every topic/payload content within the stated lengths, every scheduling choice of the stated scenarios",
  "No test connects a publisher to a subscriber.",
  HD + TR, [("fan-out", "App::publish in src/core/mod.rs"), ("command loop", "main in src/main.rs"), ("event forwarding", "client_handler in src/handler.rs")])
p("S06", "Delivered PUBLISH packets carry a valid QoS and packet identifier",
  "A message is delivered to a subscriber at the lower of the QoS it was published with and the QoS granted to the subscriber. A PUBLISH delivered at QoS 1 or 2 carries a non-zero packet identifier, different for consecutive deliveries to the same client and never one that a message among the 65,534 delivered to it before still carries unacknowledged; a PUBLISH delivered at QoS 0 carries none.",
  ["inputs", "histories"], "all nine QoS pairs and every payload within the stated bounds, several deliveries in a row",
  "No test looks at a delivered packet; the encoder is only tested with an identifier supplied by the test.",
  ["src/core/mod.rs", "src/handler.rs", "src/packets/mod.rs", "src/core/enums.rs"], [("packet construction on fan-out", "App::publish in src/core/mod.rs"), ("Packet::make_publish", "src/packets/mod.rs")])
p("S07", "A QoS 2 message is passed on once, however often it is resent",
  "When a client resends a QoS 2 PUBLISH with the same packet identifier before it has released that identifier with PUBREL, subscribers still get the message exactly once, and every resend is answered with PUBREC. After PUBREL the identifier may be used for a new message, which is delivered again; distinct identifiers never suppress each other.",
  ["inputs", "histories"], "every sequence of PUBLISH/PUBREL over every pair of packet identifiers up to the stated length",
  "Exactly-once is a property of retransmission histories; no test sends a QoS 2 packet.",
  ["src/handler.rs", "src/core/mod.rs"], [("QoS 2 receiver state", "client_handler in src/handler.rs")])
p("S08", "Keep alive: active clients stay, silent clients go, zero disables it",
  "A connection is never closed for inactivity while the client keeps reading and sends any packet at least once per keep-alive interval; a client that sends nothing for one and a half times its keep-alive interval (plus a fixed grace of at most five seconds) is disconnected; keep alive zero disables the timeout. A peer that never completes CONNECT is disconnected within a bounded time.",
  ["inputs", "schedules"], "every keep-alive value from 0 to 65535 and every pattern of packet types and pauses up to the stated length",
  "Needs simulated time and all keep-alive values; no test touches timers.",
  ["src/handler.rs"], [("keep-alive timer", "client_handler in src/handler.rs")])
p("S09", "Every way a connection ends releases it at once",
  "Whether a connection ends by DISCONNECT, by the peer closing, by a read or write error, by a malformed packet or by inactivity, its task finishes promptly without spinning, the socket is closed, and the number of connected clients returns to its value before. After that no message is delivered to the ended connection and other clients are served as before.",
  ["fault_sequences", "histories"], "every way of ending the connection at every point of the stated sessions",
  "No test closes a connection; the fault points cannot be enumerated by hand.",
  HD + ["src/core/broker_info.rs"], [("loop exits", "client_handler in src/handler.rs"), ("connected-clients counter", "src/core/broker_info.rs"), ("App::disconnect", "src/core/mod.rs")])
p("S10", "Reconnecting with a client id replaces the old connection cleanly",
  "When a client connects with an id that is already connected, the old connection is closed and the new one is accepted and fully functional: what it subscribes to it receives, once. Nothing the old connection still does afterwards, including a late DISCONNECT, affects the new one, and leftovers of the old one never suppress or misdirect its messages.",
  ["histories", "schedules"], "every order of the takeover steps, late packets and subscriptions within the stated scenarios",
  "Takeover needs two connections and particular interleavings; no test has even one connection.",
  HD + ["src/topic_heir.rs"], [("takeover", "App::connect in src/core/mod.rs"), ("session removal", "App::disconnect in src/core/mod.rs"), ("ClientEvent::Disconnect", "client_handler in src/handler.rs")])
p("S11", "One bad or slow client never stalls or breaks the others",
  "Whatever one client does (sends garbage, stops reading, floods, disappears in the middle of a packet), all other clients keep being answered and keep receiving the messages published to them: the broker never deadlocks and never waits for a single client. Messages to a client that has stopped reading may be dropped once its queue is full, but only for that client.",
  ["fault_sequences", "schedules", "histories"], "every misbehaviour of the stated family at every point of the stated sessions, queue limits included",
  "Deadlock between bounded queues needs hundreds of queued messages and a blocked socket; no test has two clients.",
  HD, [("bounded client queues", "client channel in src/handler.rs, App::publish in src/core/mod.rs"), ("command queue", "main in src/main.rs")])
p("S12", "Shutdown always completes",
  "When the shutdown signal arrives, at any point of any client's session, the broker stops accepting work, every connection task ends, and the process terminates without error, no matter how many clients are connected or what they have left unread.",
  ["schedules", "histories"], "a shutdown signal after every step of the stated scenarios",
  "No test starts the server.",
  ["src/main.rs", "src/handler.rs"], [("shutdown sequence", "main in src/main.rs"), ("cancellation", "client_handler in src/handler.rs")])
p("S13", "Traffic counters count what actually happened",
  "The broker's statistics count exactly: bytes and messages received are increased by what was received, bytes and messages sent by what was sent, received and sent PUBLISH counts by the PUBLISH packets received from and sent to clients, and each connected client is counted exactly once while it is connected. No update is lost when connections are served at the same time on several threads.",
  ["inputs", "histories", "schedules"], "every session of the stated family, including those that end in an error; every interleaving of the accesses to the counters by two threads, with at most 2 (3) interruptions",
  "No test reads a counter.",
  ["src/core/broker_info.rs", "src/handler.rs"], [("counters", "src/core/broker_info.rs"), ("counting sites", "client_handler in src/handler.rs")])
p("S14", "Sessions that are over leave nothing behind",
  "However many sessions come and go, and however often a lasting client subscribes, unsubscribes and publishes under ever new names, the memory the broker holds does not keep growing: once a session has ended or a subscription has been given up, whatever was kept for it (queues, subscriptions, tree nodes, shared groups, identifiers, tasks) is given back.",
  ["histories"], "32 repetitions of every session of the stated family, with every way of ending it",
  "A leak only shows when the allocations of long histories are compared; no test runs a session, let alone many.",
  ["src/core/mod.rs", "src/core/session.rs", "src/topic_heir.rs", "src/handler.rs"], [("App::disconnect, App::connect", "src/core/mod.rs"), ("pruning of tree nodes", "SubHier::delete in src/topic_heir.rs"), ("session removal at the end of a connection", "client_handler in src/handler.rs")])
p("G01", "The broker listens where it was configured to",
  "For every port and statistics interval, the built configuration carries exactly the values that were set and listens on all interfaces by default, and the started broker binds exactly once, to port 1883 on all interfaces.",
  ["configurations"], "every 16-bit port and 64-bit interval",
  "No test builds a configuration.",
  ["src/config.rs", "src/main.rs"], [("builder", "ConfigBuilder in src/config.rs"), ("bind", "main in src/main.rs")])
p("N01", "Guarantees survive truly parallel execution on several cores",
  "The guarantees above also hold when connection tasks run in parallel on several worker threads: no counter update is lost and no message is torn or duplicated by a race between threads.",
  ["schedules"], "every interleaving of memory accesses of the worker threads",
  "Data races depend on the hardware schedule.",
  ["src/main.rs", "src/core/broker_info.rs", "src/handler.rs"], [("atomics and channels", "src/core/broker_info.rs, tokio channels")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
