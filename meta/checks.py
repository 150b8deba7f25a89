# checks of the simulator family are registered here
CHUNK = "explicit enumeration of every chunking, pending read, abandoned read and fault point of the real PacketStream over a controlled transport"
check("S01", CHUNK, "Every composition of short packet sequences (to 10 bytes quick, 13 thorough) with three kinds of boundary; large packets by uniform chunks and pairs of splits near boundaries. The oracle decodes each packet on its own; the codec itself is C01-C06.")
check("S02", CHUNK, "End of stream/reset after every byte under every chunking, every (initial, maximum, packet) size up to 26/40 bytes, realistic sizes around 4096-10000; reading without end is detected by counting empty reads.")
check("S03", CHUNK, "Every composition of accepted writes of short sequences, failure after every byte, every window size; real clients and broker over TLS through narrow windows and uneven pieces with every write pre-empted once (thorough twice).")
check("S04", CHUNK, "As S01 with every assignment of raw/ordinary reads.")
HISTM = "explicit-state exploration: every operation history to a depth replayed on the real broker and on an abstract model in lockstep"
check("B01", HISTM, "All filters of up to 3 levels (thorough 4) against all topics of up to 4 (5) levels over {a,b,empty} plus $-topics; all ordered pairs of filters of up to 2 levels on one and two subscribers, with one removed again.")
check("B02", HISTM, "Three alphabets of 14/9/12 requests, all histories to depth 4-5 (thorough 5-6), then every topic probed.")
check("B03", SIMT, "All sequences of up to 3 requests (thorough 4) under every cut of their bytes in two; sequences of up to 2 (3) and two-connection plans under all schedules with 1 (2) deviations. Deviations include stopping a task right after it took a lock.")
check("B04", HISTM, "All 64 combinations of message properties x QoS x duplicate x granted QoS; 20 payload sizes around buffer limits; identifier counter wrapped with none/some left unacknowledged. Property values at their extremes and several wills/packets with odd values.")
check("B08", HISTM, "Three alphabets of 10-12 operations, all histories to depth 5 (thorough 6), probed by deliveries, a resumption and a clean start.")
check("B15", HISTM, "All histories of 14 operations to depth 4 (thorough 6) and of 7 operations with wills to depth 5.")
check("B16", HISTM, "All histories of 14-15 operations to depth 4 (thorough 5), idleness decided by the scheduler after every step; odd connections under one deviation.")
check("B05", SIMT, "Two publishers, two subscribers, mixed QoS and grants, one reader with a 7-byte window; every schedule with 1 deviation, some plans 2 (thorough 2-3). Deviation = another task order, select order, lock or write preemption, delay of a task past the next event. Deviations include stopping a task right after it took a lock.")
check("B06", HISTM, "Histories to depth 5-6 compared with the model, resumptions cut after every byte of output, 40 pending messages, losses during delivery and publications during resumption under up to 2 (3) deviations. Acknowledgements that meet new messages for the same subscriber under every schedule.")
check("B07", SIMT, "16 actions of the old connection in all pairs (thorough triples), races with up to 2 deviations, three connections at once; afterwards timers, subscriptions, pending deliveries, wills and session are probed for 200 s of virtual time. Deviations include stopping a task right after it took a lock.")
check("B09", SIMT, "22 ways to end a connection x will variants x a later reconnection, every schedule with 1 (2) deviations, output failing after every byte, every subset of will properties. Odd property values in wills; a connection that ends with a delayed will.")
check("B10", SIMT, "All histories of 13 operations to depth 5 (6) and 7 operations to depth 7 (9) on a time grid around the delay against the model; reconnection around the expiry under 2 (3) deviations. Deviations include stopping a task right after it took a lock.")
check("B11", SIMT, "All histories with limits 1 and 2 to depth 4-5 (6) against the model; concurrent connects under 2 (3) deviations; output failing after every byte or never read. Deviations include stopping a task right after it took a lock.")
check("B12", SIMT, "All requested keep-alives of a list (0 to 65535) against a broker limit; all placements of 3-4 packets and deliveries on a time grid around the limit, with and without a reading peer, resumed sessions, under 1 (2) deviations; idle connections followed in virtual time. Deviations include stopping a task right after it took a lock.")
check("B13", SIMT, "Subscribers that stop reading at every byte of their output, full queues, takeovers of stalled clients, and bystander requests between, under 1-2 (2-3) deviations; deadlock is decided by the scheduler (nothing runnable, request unanswered). Deviations include stopping a task right after it took a lock.")
check("B14", HISTM, "Every sequence of up to 3 packets from 20 kinds before, instead of and after CONNECT, byte-malformed CONNECTs, refused CONNECTs followed by every packet, under every segmentation; effects watched at a subscriber, a victim session and the topic tables.")
check("B17", HISTM, "74,000 byte strings (thorough several hundred thousand plus all strings of three bytes) on one connection, 128 connections in sequence per execution, malformedness decided by an independent decoder; cuts in two, busy bystanders and failing accepts under 1 (2) deviations.")
CLI = "explicit-state exploration: every history of application and broker actions to a depth replayed on the real client and on an abstract model of its exchanges in lockstep"
check("L01", CLI, "All histories of automatic and own identifiers, clashes and acknowledgements to depth 5 (thorough 7), with losses between; 66,000 (140,000) messages across the wrap with 24 (42) patterns of unacknowledged ones.")
check("L02", CLI, "17 actions (legal, repeated, failing and misdirected acknowledgements) to depth 5 (7), three exchanges in flight to depth 5 (7), and short histories under every schedule with 1 (2) deviations.")
check("L03", CLI, "New and repeated PUBLISH/PUBREL over two identifiers with client receive maxima 1, 2 and none to depth 5 (7); with losses and resumptions to depth 6 (7).")
check("L04", CLI, "Receive maxima 1, 2, 3 and none: 10 actions to depth 6 (8); maxima changed by a restart to depth 5 (6); 600 (3,000) waiting messages with maxima 1, 2, 7, 65535.")
check("L08", CLI, "Manual acknowledgement: 11 incoming actions to depth 6 (8), 15 outgoing to depth 5 (7), with losses to depth 5 (7), 200 (2,000) rounds with maxima of 2; application acknowledgements ignored when automatic.")
check("L09", CLI, "14 actions with five kinds of loss to depth 5 (6), identifiers out of order to depth 4 (5), the connection failing after each of the first 12 bytes of seven last actions in seven states. Messages that cannot be encoded are refused once and not kept for the next connection.")
check("L05", SIMT, "13 actions (arrivals, reads of one or two consumers, sends, ticks, five kinds of end) to depth 4 (thorough 5) with five consumer set-ups, 7 actions to depth 7 (8), depth 3 (4) under every schedule with 1 (2) deviations; bursts through queues of 1-3.")
check("L06", SIMT, "All placements of 7 actions on 4 (6) slots of a third of the interval for five pairs of configured/announced keep-alive, three reader modes; long, zero and disabled keep-alives; one (two) deviations. Silence is seen to a twelfth of the interval.")
check("L07", SIMT, "About 60 broker reactions to CONNECT x 4 continuations x start/try_start x delay; CONNACK around the limit under 1 deviation; up to 3 (4) packets of 5 kinds before stop x 6 peer behaviours; 40 ends x handlers; 1-2 deviations. A broker that stops reading at every point of the handshake and before a stop; settings that cannot be encoded.")
check("L10", "explicit enumeration of configurations on the real client against the reference codec", "Product of 3 identifiers, 6 keep-alives, 5 expiries, 3 credentials, 3 wills, 4 receive maxima, 4 packet maxima, clean start; all server overrides (5 x 4 x 2) followed by a restart; 8 maxima x 5 sizes.")

check("B18", "explicit enumeration of configurations and requests on the real broker against the rules of MQTT 5", "Product of 9 keep-alive limits x 8 expiry limits (at start or set later) x up to 11 keep-alives x up to 7 expiries x identifier x clean start x 3 earlier sessions (thorough: x 4 sets of other properties); 200 assigned identifiers under 8 (64) seeds; limits 0-2; resumptions with 0-3 messages.")
check("B20", SIMT, "All histories of 6 operations to depth 7 (9), followed by another broker on the address; stop or drop and a connection attempt under 3 (4) deviations.")
GROW = "explicit-state exploration: every word of activity to a length repeated as a cycle on the real code, live bytes counted by the allocator"
check("B19", GROW, "Every word of 3 (thorough 4) of 32 operations of two clients as a cycle, with and without a limit of one session; bytes compared after 12, 24, 48, 96 and 192 repetitions; what grows at every doubling is reported.")
check("L11", GROW, "Every word of 3 (thorough 4) of 25 actions of application and server as a cycle, automatic and manual acknowledgement; bytes compared after 12, 24, 48, 96 and 192 repetitions.")

check("E01", SIMT, "12 actions of two clients to depth 5 (thorough 6), 9 of three clients to depth 5 (6), against exact expectations; bursts of eight kinds, wills, stops and slow applications under every schedule with 1 (2) deviations; 8 piece sizes x 8 (14) message sizes; publisher cut after every byte in both directions, subscriber lost with messages under way; TLS. One known finding (self-subscribed publisher can stall).")
check("E02", "explicit enumeration of configurations, servers and cut points on the real client and broker with real rustls over a controlled transport", "16 certificates x 5 trust stores x 2 hosts x 3 orders x pieces x start/try_start; 7 kinds of server without TLS; every fifth (every) byte of the handshake cut or stalled in both directions; 16 pairs of starts; 49 pairs of raw connections to a TLS broker.")

check("A01", "explicit enumeration of configurations: the real program as a process, its clients over loopback", "Product of listen address, port, session limit, session expiry, queue size, TLS and options without effect, up to 1 (thorough 2) of the rarer dimensions away from the common ones: about 360 (1,340) configurations, among them 34 senseless ones, two with the address in use and two brokers one after the other. Real time: a verdict of never needs 25 s and three repetitions.")
