#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 meta/props.py  rewrites both."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # property records
C = {}          # id -> (technique, level_note)
NA = {}         # id -> reason

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

def check(id, technique, note): C[id] = (technique, note)
def na(id, reason): NA[id] = reason

MQ, MA = "vaux-mqtt/src/", "vaux-macro/src/"
CODEC_FILES = [MQ+"codec/mod.rs", MQ+"codec/fixed.rs", MQ+"property.rs", MQ+"connect.rs", MQ+"publish.rs", MQ+"subscribe.rs",
               MQ+"will.rs", MQ+"pubresp.rs", MA+"encode.rs", MA+"decode.rs", MA+"size.rs"]
EXPL = "stateless explicit enumeration on the real code, compared with an independent reference"
SIMT = "stateless model checking of the real broker/client under a controlled tokio scheduler, clock and network"

# ------------------------------------------------------------------ codec
prop("C01", "Every packet that encodes decodes back to the same packet",
 "For every MQTT 5 control packet that can be built and encoded without an error, decoding the encoded bytes yields an equal packet (every header flag, variable-header field, property, repeated user property and payload byte) and consumes exactly the encoded bytes. The size the library computes for a packet before encoding equals the number of bytes it then encodes.",
 ["inputs"], "all packets over field domains covering presence and absence of every field and property, empty/boundary lengths, repeated user properties and every reason code",
 "The existing round-trip tests fix one or two instances per packet type; presence combinations, property order, boundary sizes and size arithmetic are a product space they only sample.",
 CODEC_FILES, [("derived encoders/decoders/size functions", MA+"encode.rs, decode.rs, size.rs"), ("manual codec for PUBLISH, SUBSCRIBE, UNSUBSCRIBE", MQ+"publish.rs, subscribe.rs, unsubscribe.rs"), ("packet dispatch", MQ+"codec/mod.rs encode/decode")],
 observe=["Packet::encode", "codec::decode", "codec_size"])
prop("C02", "Encoded packets are exactly the MQTT 5 wire format",
 "Every packet the library encodes is byte for byte an encoding the MQTT 5 specification defines for those field values: correct fixed-header type and flags, correct remaining length, fields in the specified order, property length counting exactly the property bytes, each property identifier carrying its own value in its own wire type. An independent decoder therefore reads from it the same field values that were put in.",
 ["inputs"], "all packets of the C01 space, decoded by an independent reference codec; all reference-encoded packets decoded by the library",
 "Round-trip tests cannot see an error made symmetrically in encoder and decoder; the byte-level tests fix a handful of vectors.",
 CODEC_FILES, [("derived encoders", MA+"encode.rs"), ("fixed header and remaining length", MQ+"codec/fixed.rs"), ("property identifiers", MQ+"property.rs")], observe=["bytes of Packet::encode", "codec::decode"])
prop("C03", "Decoding never panics, loops or reads outside its input",
 "For every byte string handed to the decoder the result is a packet, a request for more data, or an error; it never panics, never fails to terminate and never holds memory out of proportion to its input (beyond one field of the greatest announced length, 64 KiB). A packet it does return can be inspected and re-encoded without a panic.",
 ["inputs"], "all byte strings up to length 3, all strings over a protocol alphabet to a longer bound behind every fixed header, every truncation and single- and double-byte corruption of a corpus of valid packets",
 "Tests feed well-formed packets and a few hand-picked errors; the claim is about every byte string a peer can send.",
 CODEC_FILES, [("length checks before every read", MQ+"codec/mod.rs require_remaining and derived decoders"), ("enum conversions", "try_from on reason codes, QoS, property identifiers")], observe=["codec::decode"])
prop("C04", "A packet is decoded exactly when all of its bytes have arrived",
 "Given any proper prefix of a valid packet the decoder reports that more data is needed (neither a packet nor an error); given the whole packet followed by arbitrary further bytes it returns that packet and consumes exactly its own bytes. A stream of packets is therefore split into the same packets whatever follows each of them.",
 ["inputs"], "every packet of a corpus covering all types, every prefix of it, and every pair of packets back to back, including payloads around the 1/2/3/4-byte remaining-length boundaries",
 "Tests decode complete single packets from exactly-sized buffers.",
 [MQ+"codec/mod.rs", MQ+"codec/fixed.rs", MQ+"publish.rs"], [("frame length check", MQ+"codec/mod.rs decode"), ("remaining length parser", MQ+"codec/mod.rs variable_byte_int_decode")], observe=["codec::decode return value and consumed count"])
prop("C05", "Malformed packets are rejected and well-formed ones accepted",
 "A packet that the MQTT 5 specification calls malformed at the wire level (reserved flag bits, both QoS bits, unknown or duplicated property, property not allowed in that packet, undefined reason code, invalid UTF-8, lengths that disagree, trailing bytes, missing mandatory parts) is answered with an error, never with a packet. Every packet that is well formed is accepted and yields the specified field values.",
 ["inputs"], "the byte strings of C03, judged by an independent reference decoder",
 "Tests cover a handful of hand-written malformed packets; acceptance must agree with the specification on every input.",
 CODEC_FILES, [("flag and reserved-bit checks", MQ+"codec/fixed.rs"), ("property admission per packet", MA+"decode.rs"), ("leftover and length agreement checks", MQ+"codec/mod.rs decode")], observe=["codec::decode result kind and fields"])
prop("C06", "Variable byte integers encode and decode per the MQTT 5 rules",
 "Every value 0..268,435,455 encodes to its unique shortest form of one to four bytes and decodes back to itself, with the size function agreeing with the encoder. Values beyond that range are refused instead of being written, and a continuation bit on the fourth byte is rejected.",
 ["inputs"], "the complete value domain of the integer, and all byte strings over boundary bytes up to five bytes",
 "Tests check the specification's table of boundary values only.",
 [MQ+"codec/mod.rs"], [("variable byte integer codec", MQ+"codec/mod.rs variable_byte_int_size, put_var_u32, get_var_u32")], observe=["encode/decode of a length-bearing field"])
prop("C07", "A packet carries what its constructors and setters were last told",
 "However an application creates a packet (from a constructor, or from one it received) and in whatever order and however often it calls the packet's setters, the accessors and the encoded bytes afterwards carry exactly what was set last, and nothing that was replaced or taken back. Setting one field leaves the others alone, an option that is set again replaces the former one, and a refused call (a packet identifier or DUP with QoS 0, a subscription identifier outside 1..268,435,455, packet identifier 0 in SUBACK) changes nothing. Each reason code that the protocol has for PUBACK, PUBREC, PUBREL and PUBCOMP can be set.",
 ["histories", "inputs"], "all sequences of constructor and setter calls of each packet type up to a depth, starting from new, completely filled and received packets",
 "Tests call each setter once on a fresh packet; flags share a byte, so what matters is the order and repetition of calls.",
 [MQ+"connect.rs", MQ+"connack.rs", MQ+"publish.rs", MQ+"pubresp.rs", MQ+"subscribe.rs", MQ+"will.rs", MQ+"property.rs", MQ+"codec/fixed.rs"], [("flag setters", MQ+"codec/fixed.rs"), ("connect flags", MQ+"connect.rs"), ("subscription options", MQ+"subscribe.rs")], observe=["accessors and encoded bytes of a packet after setter calls"])

check("C01", EXPL, "Every packet in a product space of field presence/boundary values per packet type is encoded and decoded by the real codec and compared field by field through the reference model. Bounded: values come from small boundary alphabets; assumes the codec treats values outside the alphabets like those inside.")
check("C02", EXPL, "Both directions are compared with an independently written reference codec over the whole packet space; bounded by the field alphabets. Trusts the reference codec, which was written from the specification and shares no code with the library.")
check("C03", EXPL, "Complete up to 3 bytes for arbitrary strings and to the stated alphabet depth beyond, plus all truncations/corruptions of a corpus; panics are observed with overflow and debug assertions on.")
check("C04", EXPL, "All prefixes and all concatenations over the corpus; large bodies checked at the remaining-length boundaries.")
check("C05", EXPL, "Verdict of the real decoder compared with the reference decoder on every generated byte string; a documented grey zone (rules the specification calls protocol errors rather than malformed packets) is left free.")
check("C06", EXPL, "All 2^28 values and all byte strings of up to five bytes, in both tiers.")
check("C07", EXPL, "Every sequence of 4 (quick) or 5 to 6 (thorough) calls per packet type on the real packet and on a reference packet; after each call the result, all accessors and the encoding are compared. Bounded by the argument alphabets (two or three values per setter, all reason codes).")

# ------------------------------------------------------------------ stream
ST = "vaux-async/src/stream/packet.rs"
prop("S01", "Packets are reassembled identically under every chunking of the byte stream",
 "However the transport splits or joins the bytes of a sequence of packets, and wherever a pending read is abandoned and started again, reading from a packet stream yields exactly those packets, once each and in order. No byte is lost, duplicated or attributed to a neighbouring packet, including when the read buffer has to grow.",
 ["inputs", "schedules"], "all packet sequences over a small corpus, all ways to cut the byte stream into reads, all subsets of reads at which the reader is cancelled, several buffer configurations",
 "Tests run over loopback sockets where the kernel decides the chunking and it is almost always one packet per read.",
 [ST], [("reassembly loop", ST+" read_internal")], [("read_buffer/read_offset", "bytes received and not yet decoded", ST)], ["PacketStream::read"])
prop("S02", "End of stream and oversized packets end reading with a definite result",
 "When the peer closes its side, reading terminates: at a packet boundary it reports end of stream, in the middle of a packet it reports end of stream or an error, and it never spins or invents a packet. A packet that does not fit the configured maximum is answered with an error, and every packet that does fit is delivered whatever the initial buffer size is.",
 ["inputs", "fault_sequences"], "every cut point of every packet sequence as the end of stream or transport error, every combination of small initial and maximum buffer sizes",
 "Tests never close in the middle of a packet and never reach the buffer limit.",
 [ST], [("EOF and limit handling", ST+" read_internal")], [("max_buffer_size", "largest packet accepted", ST)], ["PacketStream::read"])
prop("S03", "Packets are written whole and in order under every short write",
 "Whatever number of bytes the transport accepts per write, the peer receives for each written packet exactly its encoding, complete and in call order, and a packet that cannot be encoded puts no bytes on the wire. When the transport fails, writing reports the error.",
 ["inputs", "fault_sequences"], "all packet sequences over a small corpus, all partitions of the output into accepted writes, an error at every write",
 "Loopback sockets accept small writes whole, so short writes never occur in tests.",
 [ST], [("write path", ST+" write")], (), ["PacketStream::write"])
prop("S04", "Raw reads return the exact bytes of each packet and lose nothing",
 "Reading packets together with their raw bytes yields, for every chunking, the same packets as ordinary reading, each with exactly the bytes it was received as. Mixing raw and ordinary reads on one stream neither repeats nor skips a packet.",
 ["inputs", "schedules"], "as S01, with every mix of raw and ordinary reads",
 "No existing test calls the raw read at all.",
 [ST], [("raw read", ST+" read_raw/read_internal")], (), ["PacketStream::read_raw"])

# ------------------------------------------------------------------ broker
BR, BS, BT = "vaux-broker/src/lib.rs", "vaux-broker/src/session.rs", "vaux-broker/src/topic.rs"
prop("B01", "A published message reaches exactly the subscribers whose filter matches",
 "A message published to a topic is delivered to a connected subscriber if and only if one of its current topic filters matches the topic under the MQTT rules: level by level, '+' for exactly one level, trailing '#' for the parent and everything below, empty levels significant, and filters beginning with a wildcard not matching topics that begin with '$'.",
 ["inputs"], "all topics and all valid filters over a small level alphabet (including empty levels and '$') up to a depth, in all pairs",
 "Tests check about a dozen filter/topic pairs.",
 [BT, BR], [("topic tree match", BT+" matching_subscribers"), ("routing", BR+" route_publish")], [("topic tree", "subscriptions by level", BT)], ["PUBLISH packets received by subscribers"])
prop("B02", "Subscriptions follow the history of SUBSCRIBE and UNSUBSCRIBE",
 "After any history of subscribe, re-subscribe and unsubscribe requests by any clients, each client's set of filters is exactly what that history dictates: re-subscribing replaces the options, unsubscribing removes only that client's own filter and nothing else. Deliveries and acknowledgement codes always agree with that set.",
 ["histories"], "all operation sequences up to a depth by two clients over overlapping filters",
 "Tests run one or two fixed sequences; interference between shared tree nodes needs particular sequences.",
 [BT, BR], [("subscribe/unsubscribe", BT+" subscribe, unsubscribe"), ("acknowledgement", BR+" handle_subscribe, handle_unsubscribe")], [("subscriber lists", "per node exact and wildcard subscribers", BT)], ["SUBACK/UNSUBACK codes", "deliveries"])
prop("B03", "Every request is answered exactly once, in order, with its own identifier",
 "For any sequence of requests on a connection, each SUBSCRIBE, UNSUBSCRIBE, QoS 1 PUBLISH and PINGREQ is answered by exactly one SUBACK, UNSUBACK, PUBACK or PINGRESP carrying the identifier of the request, in request order. SUBACK and UNSUBACK carry exactly one reason code per filter, in the order of the filters, and a granted QoS never above the one requested.",
 ["histories", "schedules"], "all request sequences up to a depth with repeated and distinct identifiers, sent separately or pipelined in one segment",
 "Tests send one request and wait for its response.",
 [BR], [("request dispatch", BR+" handle_packet, handle_subscribe, handle_unsubscribe")], (), ["packets received by the requesting client"])
prop("B04", "Forwarded messages keep their content and get the right delivery fields",
 "A forwarded message carries the publisher's topic, payload and message properties unchanged, is sent with the lower of the published QoS and the granted QoS, is not marked as a duplicate on first delivery, and has a packet identifier exactly when its QoS is above 0. Identifiers are never zero and never equal to one still unacknowledged on that subscription's connection.",
 ["inputs", "histories"], "all combinations of published QoS, granted QoS, duplicate flag, payload and property presence; delivery histories with identifiers held unacknowledged across the wrap of the identifier counter",
 "Tests check payload and QoS for a few combinations and never reach an identifier wrap.",
 [BR, BS], [("forwarding", BR+" route_publish"), ("identifier allocation", BS+" next_packet_id")], [("pending_ack", "unacknowledged deliveries", BS)], ["PUBLISH packets received by subscribers"])
prop("B05", "Messages from one publisher arrive at each subscriber in publishing order",
 "For each publisher and each subscriber that stays connected and keeps reading, messages of the same QoS arrive in the order published, each exactly once per matching delivery, under every interleaving of the connections involved.",
 ["schedules"], "all interleavings of two publishers, a subscriber and the connection tasks up to a deviation bound",
 "Tests publish one message at a time and wait for it.",
 [BR, BS], [("per-session delivery channel", BS+" try_send_control"), ("routing under the pool lock", BR+" route_publish")], (), ["order of PUBLISH packets at the subscriber"])
prop("B06", "Unacknowledged QoS 1 deliveries are redelivered on session resumption",
 "When a client reconnects and resumes its session, every QoS 1 message delivered to it and not acknowledged is delivered again, in the original order, with its original packet identifier and the duplicate mark, and acknowledged ones are not. A redelivered message stays pending until acknowledged even if the connection is lost again, at any point.",
 ["histories", "crash_points"], "all histories of deliveries, acknowledgements, connection losses at every point and resumptions up to a depth",
 "Tests cover one redelivery of one message.",
 [BR, BS], [("pending set", BS+" track_qos_publish, acknowledge, drain_pending"), ("resumption", BR+" handle_client")], [("pending_ack", "unacknowledged deliveries", BS)], ["PUBLISH packets after CONNACK"])
prop("B07", "A second connection takes over and the old one is closed without side effects",
 "When a client connects with the identifier of a connected client, the older connection receives DISCONNECT with reason session taken over and is closed, whatever it does meanwhile. Nothing that then happens on the old connection (traffic, close, error, timeout) affects the new connection, its session, its subscriptions or its will.",
 ["schedules", "histories"], "all interleavings up to a deviation bound of old connection, new connection, publisher and close/timeout of the old connection, for clean and resumed sessions",
 "Tests do not exercise takeover; the failures need the old connection to act after the new one is established.",
 [BR, BS], [("takeover", BR+" handle_takeover, handle_connect"), ("session pool", BS+" SessionPool")], [("active/inactive", "which session objects are connected", BS)], ["packets on both connections"])
prop("B08", "Session-present and session state follow clean start exactly",
 "The broker reports an existing session if and only if it resumes one; a clean start always begins with no subscriptions, no pending deliveries and no will from before, and a resumed session keeps its subscriptions and pending deliveries.",
 ["histories"], "all histories of connect (clean or not), subscribe, deliver, disconnect and connection loss up to a depth",
 "Tests cover one resumption and one clean start with no prior state.",
 [BR, BS, BT], [("session selection", BR+" handle_connect"), ("session pool", BS+" activate, deactivate, remove")], [("active/inactive", "sessions by id", BS)], ["CONNACK session present", "deliveries after reconnect"])
prop("B09", "A will is published exactly once, iff the connection ends without a goodbye",
 "A client's will is delivered to matching subscribers exactly once when its connection ends by connection loss, malformed input, keep-alive timeout, a takeover or a disconnect that asks for it, and never after a normal disconnect. (A takeover that continues the session cancels a will that has a delay.) The will message carries the topic, payload, QoS and properties given at connect.",
 ["histories", "fault_sequences", "schedules"], "every way and point at which a connection can end, including write failures, combined with later reconnects",
 "Tests cover a dropped socket and a normal disconnect.",
 [BR], [("will trigger", BR+" initiate_will, publish_will")], [("will_message", "will armed for the session", BS)], ["PUBLISH packets at a subscriber of the will topic"])
prop("B10", "A delayed will waits its delay and is cancelled by reconnecting in time",
 "A will with a delay is published once the delay has passed and not before; if the client reconnects to the same session before that, it is never published, under every ordering of reconnect, timer and publication.",
 ["schedules", "histories"], "all interleavings and times around the delay of loss, reconnect and timer expiry",
 "Tests sleep real seconds around one delay value.",
 [BR, BS], [("delay timer and cancellation", BR+" initiate_will; "+BS+" cancel_pending_will")], [("pending_will", "cancellation token of a delayed will", BS)], ["time of PUBLISH at a subscriber"])
prop("B11", "The active-session limit holds and every ended connection frees its slot",
 "With a limit on active sessions the broker never has more clients connected than the limit, refuses further clients with quota exceeded and closes them, and still admits a takeover of a connected identifier. Every way a connection can end frees its slot, so a later client is admitted.",
 ["histories", "schedules", "fault_sequences"], "all histories of connects and all kinds of connection end with limits 1 and 2, and concurrent connects under all interleavings to a bound",
 "Tests connect at most one client beyond the limit, sequentially.",
 [BR, BS], [("capacity check", BR+" handle_connect; "+BS+" at_capacity"), ("count maintenance", BS+" add/remove/activate/deactivate")], [("active_sessions", "number of connected sessions", BS)], ["CONNACK reason codes"])
prop("B12", "Keep-alive: silent clients are dropped in time and live ones are kept",
 "A client that sends nothing for one and a half times the keep-alive in force is disconnected when that time has passed (at the latest after twice that if it has also stopped reading), whatever is being delivered to it, and its connection is closed. A client that sends any packet within the keep-alive is never dropped for silence, and the keep-alive announced at connect is the one enforced.",
 ["schedules", "histories"], "all placements of client packets and deliveries on a time grid around the limit, for all classes of requested keep-alive",
 "Tests wait for one timeout with a completely idle client.",
 [BR], [("keep-alive timer", BR+" handle_client, keep_alive_timer")], [("keep_alive", "enforced interval", BS)], ["DISCONNECT/close times"])
prop("B13", "A client that does not read cannot stop the broker serving others",
 "Whatever a set of clients does (not reading, filling its queue, taking over sessions, disconnecting mid-request), every other client's request is still answered without waiting for them, and a client that falls behind by more than the configured queue is disconnected with its slot and session left consistent; one that is behind by no more than that keeps its connection and loses nothing. No reachable state is a deadlock.",
 ["schedules", "fault_sequences"], "all interleavings to a deviation bound with a stalled subscriber, a publisher, a takeover of the stalled client and a bystander",
 "Tests never let a client's socket or queue fill.",
 [BR, BS], [("bounded queue with disconnect", BR+" route_publish"), ("locks held across awaits", BR+" handle_connect")], [("control channel", "queued deliveries", BS)], ["responses to the bystander"])
prop("B14", "Nothing but CONNECT is honoured before a session exists",
 "Until a client has connected, no packet other than CONNECT changes any state or is routed; a first packet other than CONNECT, and a second CONNECT, are protocol errors that end the connection. A connection whose CONNECT was refused is closed and can do nothing further.",
 ["histories"], "all packet sequences up to a depth before, instead of and after CONNECT",
 "Tests send a correct CONNECT first.",
 [BR], [("pre-connect dispatch", BR+" handle_pre_connect")], (), ["packets received by the sender and by other clients"])
prop("B15", "No-local subscriptions never echo a client's own messages",
 "A message is not delivered back to its publisher through a subscription made with the no-local option and is delivered through any other matching subscription; the option affects no other client's messages, and survives session resumption.",
 ["histories"], "all combinations of no-local flags, overlapping filters, re-subscriptions and resumptions for two clients",
 "Tests check one publisher and one filter.",
 [BR, BT], [("no-local check", BR+" route_publish")], [("no_local", "option stored per subscription", BT)], ["PUBLISH packets received"])
prop("B16", "The broker is quiescent when nothing happens",
 "When no client sends anything and no timer is due, no broker task is runnable: the broker consumes no processor time in any reachable connection state. It waits for events instead of polling.",
 ["schedules", "histories"], "every state reached by the connection histories explored, including connected, not yet connected, taken over and closed connections",
 "A busy loop is invisible to tests: everything still works.",
 [BR], [("control wait", BR+" handle_control")], (), ["runnable tasks at quiescence"])
prop("B17", "A malformed client damages only its own connection",
 "Any byte string sent on one connection, before or after CONNECT, leaves every other connection and session served exactly as before, and the offending connection is closed. The broker never panics and its listener keeps accepting.",
 ["inputs"], "a corpus of truncations, corruptions and invalid sequences on one connection, with a full service check on the others",
 "Tests send no malformed bytes to the broker.",
 [BR, ST], [("error path", BR+" handle_client")], (), ["service to the other clients"])

prop("B18", "CONNACK tells the client which session and limits it has got",
 "Every CONNECT is answered by exactly one CONNACK, before anything else. It says session present exactly when an earlier session of this identifier is continued. It announces a server keep-alive exactly when the requested one lies outside the configured limits, and then the nearest limit; a session expiry exactly when the requested one exceeds the configured maximum, and then that maximum (values that do not fit the field count as the greatest that does); an assigned identifier exactly when the client gave none, never one in use, and one that names the session from then on. A client beyond the session limit is told quota exceeded, without session present, and the connection is closed.",
 ["inputs", "histories"], "the full product of configured limits, requested values at and around them, identifier, clean start, earlier session, with unacknowledged messages and full brokers",
 "Tests check one value per property.",
 [BR, BS], [("negotiation", BR+" handle_connect"), ("limits", BS+" default_keep_alive_secs, max_keep_alive_secs, session_expiry")], [("Config", "limits in force", "vaux-broker/src/config.rs")], ["CONNACK packets"])
prop("B19", "Repeating the same activity does not make the broker grow",
 "When the same finite set of clients repeats the same activity (connecting, being replaced, being refused, subscribing and unsubscribing a fixed set of filters, publishing to old or ever new topics, acknowledging what is received, leaving in any way, delayed wills that fall due or are called off), the memory and tasks the broker holds stop increasing: nothing is kept of what is over. New client identifiers and new filters are outside this property, since the broker keeps sessions and topic levels for good.",
 ["histories"], "all short words of activity repeated as a cycle, with the bytes held by the broker's tasks counted exactly after doubling numbers of repetitions",
 "A leak of a few bytes or a forgotten task per connection is invisible to any test of behaviour.",
 [BR, BS, BT], [("end of a connection", BR+" release_session"), ("acknowledged messages", BS+" acknowledge"), ("subscription lists", BT+" subscribe, unsubscribe"), ("called-off wills", BS+" cancel_pending_will")], [("live allocations", "bytes allocated while broker tasks are polled and not freed", BR)], ["memory held when idle"])

prop("B20", "A stopped or dropped broker lets no one in and frees its address",
 "While the broker runs, it holds its listen address and serves those who connect. After stop has returned, or the broker has been dropped, no connection attempt is served and the address can be bound again, by this broker (which can be run again) or another. Running a running broker again is an error that leaves it alone; stopping is harmless at any time and always returns. A client that connects at the very moment of the stop is either served or its connection is closed. (What becomes of clients that are already connected is not stated.)",
 ["histories", "schedules"], "all histories of run, stop, drop, connect, request and leave to a depth; a stop and a connection attempt at once under every schedule to a deviation bound",
 "Tests call stop at their end and look at nothing afterwards.",
 [BR], [("accept loop and commands", BR+" run, stop")], [("listener", "task accepting connections", BR)], ["accepted connections", "address in use"])

# ------------------------------------------------------------------ client
CL, CS = "vaux-client/src/client.rs", "vaux-client/src/session.rs"
prop("L01", "Client packet identifiers are non-zero and never reused while in flight",
 "Every QoS 1 or 2 message the client sends carries a packet identifier that is not zero and not in use by another unfinished message of the client, over any number of messages and any order of acknowledgements. Identifiers supplied by the application are kept, and a clash, a zero or (with automatic identifiers off) a missing identifier is reported and not sent.",
 ["histories"], "identifier histories across the 16-bit wrap with every pattern of a few long-lived unacknowledged identifiers; all sequences of own/automatic identifiers to a depth",
 "Tests send a handful of messages; the wrap needs 65,536.",
 [CS], [("identifier allocation", CS+" write_next")], [("pending_qos_send", "unfinished outgoing exchanges", CS)], ["PUBLISH packets on the wire"])
prop("L02", "Outgoing QoS 1 and 2 exchanges follow the protocol to completion",
 "For each accepted message the client sends one PUBLISH, answers a successful PUBREC with one PUBREL, and ends the exchange on PUBACK or PUBCOMP (or a PUBREC that reports an error), for every legal interleaving of several exchanges. An acknowledgement that fits no exchange is reported as a protocol error and never corrupts another exchange.",
 ["histories"], "all sequences of sends and acknowledgements (legal and illegal) over two or three concurrent exchanges up to a depth",
 "Tests run one exchange against a well-behaved broker.",
 [CS], [("sender state machine", CS+" handle_packet")], [("pending_qos_send", "state per identifier", CS)], ["packets on the wire", "packets at the consumer"])
prop("L03", "Incoming QoS 2 messages are delivered to the application exactly once",
 "With automatic acknowledgement every incoming QoS 1 message is handed over and acknowledged, and every incoming QoS 2 message is handed over exactly once however often it and its release are retransmitted before completion (across reconnections that keep the session too), and each PUBLISH and PUBREL is answered with PUBREC and PUBCOMP. After completion the same identifier starts a new message.",
 ["histories"], "all sequences of PUBLISH (new, duplicate) and PUBREL over two identifiers up to a depth",
 "Tests see no retransmission.",
 [CS], [("receiver state machine", CS+" handle_recv_publish, handle_packet")], [("pending_qos_recv", "state per identifier", CS)], ["packets at the consumer", "acknowledgements on the wire"])
prop("L04", "The client never exceeds the receive maximum the broker announced",
 "At no time are more QoS 1 and 2 messages unacknowledged than the receive maximum from the broker's CONNACK. Messages beyond it wait and are sent in order as acknowledgements arrive; none is lost, and a restart from the session state keeps them waiting.",
 ["histories"], "all sequences of sends and acknowledgements with receive maximum 1 and 2 up to a depth",
 "No existing test sets a receive maximum.",
 [CS, CL], [("send quota", CS+" write_next")], [("send_maximum", "receive maximum in force", CS)], ["PUBLISH packets on the wire"])
prop("L05", "Received packets reach the application in order without loss under back-pressure",
 "Packets from the broker reach the application's consumer, or the consumer registered for their type, in arrival order, none lost and none repeated while the connection lasts, for every consumer speed and queue size; with automatic acknowledgement a message is acknowledged only if it is handed over, however the connection ends. While a consumer is full the client keeps accepting and sending the application's packets and keep-alives. PINGRESP is handed over only if asked for.",
 ["schedules"], "all interleavings of arrivals, consumer reads, application sends and keep-alive ticks with queue sizes 1 and 2 to a bound",
 "Tests use large queues and fast consumers.",
 [CL], [("forwarding with pause", CL+" start, reserve")], [("pending_forward", "packet waiting for room", CL)], ["packets at the consumers"])
prop("L06", "The client pings so that it is never silent longer than its keep-alive",
 "While connected with keep-alive enabled the client sends a packet at least once per keep-alive interval in force (the server's if it gave one), whatever traffic it receives and whatever the application does, without flooding the broker with pings; with keep-alive disabled it sends no ping of its own accord, and an interval of zero from the server means none is due.",
 ["schedules"], "all placements of inbound traffic and application packets on a time grid over several intervals",
 "Tests use keep-alives far longer than the test.",
 [CL, CS], [("keep-alive timer", CL+" start; "+CS+" handle_keep_alive, last_active")], (), ["times of packets on the wire"])
prop("L07", "Starting and stopping always terminate with the right outcome",
 "Stopping the client sends the packets queued before it and one DISCONNECT, closes the connection and finishes the task successfully with the session state. A refused, silent, closing or garbage-sending broker makes starting fail within the configured wait, a start that could not connect can be repeated, the client task ends with an error and the session state when the connection ends by itself and hands the error to the error handler (also when the application has dropped its consumer), no connection is left open, and connected is reported exactly while a connection is up.",
 ["schedules", "fault_sequences"], "every reaction of the broker to CONNECT at every byte cut, every point of stop relative to queued packets, and connection loss at every point",
 "Tests start against a working broker.",
 [CL, CS], [("connect wait", CS+" connect"), ("stop", CL+" stop")], [("connected", "public connected flag", CL)], ["task result", "bytes on the wire"])
prop("L08", "With manual acknowledgement the application alone decides what is acknowledged",
 "With automatic acknowledgement off the client never sends PUBACK, PUBREC, PUBREL or PUBCOMP unless the application hands it one, and sends each one handed to it. Exchanges completed that way free their identifier and quota like automatic ones, every PUBLISH received (also a repeated one) is handed over, and with automatic acknowledgement on an application's own acknowledgements are ignored.",
 ["histories"], "all sequences of incoming/outgoing QoS messages and application acknowledgements up to a depth",
 "One happy-path usage exists in the examples; no test.",
 [CS, CL], [("auto_ack switches", CS+" handle_packet, handle_recv_publish; "+CL+" qos_control")], (), ["acknowledgements on the wire"])
prop("L09", "Unfinished outgoing exchanges are retransmitted when a session resumes",
 "When a client restarts from a saved session state and the broker reports that the session is present, every unacknowledged outgoing message is sent again with its identifier and the duplicate mark, and every unfinished release is sent again, the messages and the releases each in their original order and within the receive maximum now in force. When the broker has no session nothing stale is sent and earlier exchanges are forgotten.",
 ["histories", "crash_points"], "connection loss at every point of one or two exchanges, followed by resumption",
 "No existing test restarts from a session state.",
 [CS], [("session state", CS+" end_session; builder with_state")], [("pending_qos_send", "unfinished exchanges", CS)], ["packets after CONNACK"])
prop("L10", "The client announces what was configured and honours what the server overrides",
 "The CONNECT a client sends announces its configured identifier, clean start, keep-alive, session expiry, credentials, will, receive maximum and maximum packet size, each limited to what the protocol can express. A keep-alive, session expiry or identifier given by the server in CONNACK is what is reported afterwards, an assigned identifier is used when the session is resumed, and a packet up to the announced maximum size is accepted and a larger one ends the connection.",
 ["configurations"], "all combinations of a few boundary values of every setting, all combinations of server overrides followed by a restart, packet sizes around the announced maximum",
 "Tests use default settings or one at a time and hardly look at CONNECT.",
 [CS, "vaux-client/src/builder.rs"], [("CONNECT construction", CS+" connect"), ("CONNACK handling", CS+" handle_connack")], [("client_id", "identifier in force", CS)], ["CONNECT on the wire", "keep_alive() and session_expiry()"])
prop("E01", "Client and broker together deliver every published message in order",
 "With this library's clients and broker connected to each other (over TCP or TLS), every QoS 0 and QoS 1 message a client publishes reaches the application of every connected client with a matching subscription, unaltered and, per publisher, topic and QoS, in order; exactly once while the connections last. If a connection is lost and its client started again from its session state, QoS 1 messages still arrive at least once (those under way to a lost subscriber and those a lost publisher had taken), and QoS 0 messages at most once. A client stopped after publishing has its QoS 0 messages delivered and sends unacknowledged QoS 1 messages again when it resumes; a client that is lost has its will delivered, one that stops has not. Connections stay up while clients idle.",
 ["schedules", "histories", "crash_points"], "all histories to a depth, all interleavings up to a deviation bound of two or three clients and a broker in one process, all network piece sizes and windows of a list, the connection cut at every byte",
 "Each existing end-to-end test sees one schedule.",
 [BR, CL], [("broker routing", BR+" route_publish"), ("client loop", CL+" start")], (), ["packets at the consumers"])
prop("E02", "TLS connections are only made to a trusted server with the right name",
 "A client configured for TLS connects if and only if the server speaks TLS, its certificate is valid, chains to the configured trust store and covers the requested host; it never falls back to an unencrypted connection or to no trust store, nothing of its CONNECT leaves it unencrypted, and otherwise starting fails within its time limit. A broker configured for TLS answers and routes nothing that is not TLS, and connections that never complete the handshake do not disturb others.",
 ["configurations", "crash_points"], "all combinations of trust store, host name, server certificate and order of configuration; servers without TLS; the handshake cut or stalled at every byte; pairs of successive starts",
 "Tests cover the accepting case.",
 ["vaux-client/src/connection.rs", BR], [("TLS set-up", "vaux-client/src/connection.rs connect_tls"), ("TLS accept", BR+" run")], (), ["connect result", "bytes seen by the server"])
prop("L11", "Repeating the same exchanges does not make the client grow",
 "When the same exchanges (subscriptions, messages of every quality of service in both directions, refused or repeated ones, stray acknowledgements, losses of the connection and restarts from the state handed back, stops) are repeated and each is completed in the end, the memory and tasks of the client, its saved session state included, stop increasing.",
 ["histories"], "all short words of exchanges repeated as a cycle, with the bytes held by the client's tasks counted exactly after doubling numbers of repetitions",
 "A forgotten entry per message or per reconnection is invisible to any test of behaviour.",
 [CS, CL], [("exchange tables", CS+" pending_qos_send, pending_qos_recv, queued_qos_send"), ("client task", CL+" start")], [("live allocations", "bytes allocated while client tasks are polled and not freed", CS)], ["memory held when idle"])

# ------------------------------------------------------------------ program
prop("A01", "The vaux program serves what its options say, or refuses to start",
 "Started with valid options the vaux program listens on the address and port they give (the documented defaults otherwise, the TLS port when TLS is configured), reports that address and whether TLS is used once it listens, serves clients with the session limit and the greatest session expiry they give, over TLS exactly if certificate and key are given, and ends successfully and without a listener when interrupted. Started with an option it cannot follow (an invalid address, number or option, half of a certificate pair, unreadable or mismatched files, an address in use) it says so and ends in failure without claiming to have started or serving anyone.",
 ["configurations"], "the product of options given or not, short and long, with boundary values; every senseless value or combination of a list; an address in use",
 "No test runs the program.",
 ["vaux/src/main.rs", "vaux-broker/src/config.rs"], [("options to configuration", "vaux/src/main.rs main"), ("certificate loading", "vaux/src/main.rs load_tls_acceptor")], (), ["standard output and exit status", "what loopback clients are served"])

exec(open(os.path.join(HERE, "meta", "checks.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    if p["id"] not in C and p["id"] not in NA:
        NA[p["id"]] = "no check yet: its machinery is still being built"
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="env VAUX_CLI=1 bash bin/build",
    checks=[dict(property=i, quick_cmd=f"bash bin/check {i} quick", thorough_cmd=f"bash bin/check {i} thorough",
                 technique=C[i][0], level="model_checking", level_note=C[i][1]) for i in ids if i in C],
    not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA])
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError: pass
print(len(P), "properties,", len(man["checks"]), "checks")
