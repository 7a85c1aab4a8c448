#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


YS, YT, YF = "yamux/src/session.rs", "yamux/src/stream.rs", "yamux/src/frame.rs"
YC = "yamux/src/control.rs"

# ------------------------------------------------------------------ yamux
prop("Y01", "Multiplexed streams deliver exactly the bytes written, in order, unmixed",
     "On every multiplexed stream, what the reader obtains is at every moment a prefix of what the peer wrote on that same stream: no byte is lost, duplicated, reordered, altered or taken from another stream. If the writer closes the stream and the connection stays up, a reader that keeps reading and has not closed the stream itself obtains all of it before the end of stream is reported.",
     ["inputs", "schedules", "histories", "configurations"],
     "for every number of concurrent streams in both directions, every sequence of write/read sizes, every fragmentation and back-pressure of the connection, every window size and every polling order",
     "unit tests open one or two streams with a handful of fixed-size writes over an unfragmented pipe; the interleavings of many streams, partial writes and blocked sub-streams are never sampled",
     [YS, YT, YF],
     [("ordered event channel from streams to the session", YT), ("blocked sub-stream set keeps per-stream order in distribute_to_substream", YS), ("read only when the read buffer is empty", YT)],
     ["AsyncRead/AsyncWrite of StreamHandle", "bytes of the connection"])
prop("Y02", "A sender never exceeds the receive window its peer granted",
     "At every point of the byte sequence a session emits, the data sent on a stream is at most the initial window plus the credit the peer has granted for it so far, and the credit a receiver grants never exceeds what its application consumed. Window accounting visible on a stream never exceeds the configured maximum.",
     ["inputs", "schedules", "configurations"],
     "for every window size, write pattern, read pattern, fragmentation and polling order, at every prefix of the wire",
     "no test decodes the wire between two sessions; tests only check one window update value",
     [YT, YS],
     [("send_window decrement / window update credit", YT), ("send_window_update delta", YT)],
     ["frames on the wire", "recv_window()/send_window()"])
prop("Y03", "A peer that overruns the window is cut off; buffering per stream is bounded",
     "Data that exceeds the credit granted on a stream by the time it is taken up causes a protocol error that ends the session, and is never delivered; a peer that stays within its credit is never penalised. Undelivered data held for one stream is bounded by a small multiple of the configured window, whether or not the application reads.",
     ["inputs", "fault_sequences", "configurations"],
     "for every over- or within-credit frame sequence, frame sizes, window sizes and reader speeds",
     "a single test sends one frame of 4 bytes into a window of 2",
     [YT, YS, YF],
     [("RecvWindowExceeded check", YT), ("GoAway(ProtocolError)", YS), ("max_frame_size in FrameCodec", YF)],
     ["raw peer speaking frames"])
prop("Y04", "Multiplexer makes progress: no schedule of a compliant workload gets stuck",
     "As long as both ends keep being polled, the connection moves bytes and every stream is being read, every pending open, write, read and close eventually completes: the session never goes idle with deliverable work outstanding. A stream whose reader stopped reading does not stop the other streams of the connection.",
     ["schedules", "inputs", "configurations"],
     "for every wake order, fragmentation, connection back-pressure pattern, window size and mix of stalled and active streams",
     "lost wake-ups appear only under particular orders of waking and back-pressure; tests run one schedule on an unbounded pipe",
     [YS, YT, YC],
     [("self-wake after 16 rounds", YS), ("writeable waker", YT), ("poll_ready registration per sub-stream", YS), ("flush each round", YS)],
     ["quiescence of a deterministic executor"])
prop("Y05", "Every opened stream is accepted exactly once under a unique id",
     "Each stream opened by one side shows up at the other exactly once, with the same id, in opening order, announced before any other frame of that stream; ids used by the two sides never collide and are never reused within a session. A stream that was never opened never shows up.",
     ["schedules", "inputs", "histories"],
     "for every interleaving of opens from both ends through the session and through any number of control handles, with streams closing in between",
     "tests open a few streams from one side only and never compare ids of both sides or look at the wire order",
     [YS, YT, YC],
     [("odd/even id allocation", YS), ("SYN on first frame", YT), ("pending_streams queue", YS)],
     ["session output", "StreamHandle::id", "frames on the wire"])
prop("Y06", "Stream limits hold and refuse only the excess stream",
     "A session never holds more remotely opened streams than its stream limit and never queues more unaccepted ones than its backlog; an excess stream is reset on its own, leaving the session and all other streams working, and capacity freed by closed streams becomes usable again.",
     ["histories", "configurations", "schedules"],
     "for every limit/backlog configuration and every history of remote opens, accepts and closes",
     "one test opens a single stream too many against a limit of 1",
     [YS],
     [("max_stream_count / accept_backlog test on SYN", YS), ("StreamEvent::Closed removal", YS)],
     ["raw peer frames", "session output"])
prop("Y07", "Stream close and reset are observed correctly by both ends",
     "After one end closes its side of a stream it sends no more data on it and writing fails there; the other end reads all data sent before the close and then an end-of-file error. Dropping an unclosed stream resets it: the other end's reads and writes fail instead of hanging, while other streams stay usable.",
     ["histories", "schedules", "inputs"],
     "for every point in a stream's history at which either end closes, drops or resets it, relative to data in flight in both directions",
     "tests look at the emitted frames of one handle; they never run the close of one end against data in flight at the other",
     [YT, YS],
     [("state machine in close()/process_flags()", YT), ("Drop sends RST", YT), ("check_self_state", YT)],
     ["frames on the wire", "I/O results of both handles"])
prop("Y08", "Closing a session ends both ends and releases every waiter",
     "Once a session is closed by either end, lost, or killed by a protocol error, both sessions terminate (an unresponsive peer is given up after the configured timeout) and every pending or later operation on its streams and controls returns instead of hanging. No stream can be opened on a session that has ended.",
     ["schedules", "fault_sequences", "histories"],
     "for every moment of close, end-of-file or I/O error, any set of pending operations, responsive or silent peers",
     "tests close once with one idle stream; they do not close while reads, writes, opens and other closes are pending",
     [YS, YT, YC],
     [("go-away exchange and is_dead", YS), ("connection_write_timeout timer", YS), ("channel termination seen by streams", YT), ("control channel drop", YC)],
     ["quiescence of a deterministic executor under virtual time"])
prop("Y09", "Keepalive answers pings and kills only unresponsive sessions",
     "Every ping request is answered with its own identifier; a session whose peer answers is never ended by keepalive however long it lives, and one whose peer stays silent past the timeout ends with a time-out error.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "for every keepalive interval, window size, ping count and order or loss of answers",
     "sessions in tests live for a fraction of one keepalive interval",
     [YS, YF],
     [("keep_alive/pings bookkeeping", YS), ("handle_ping", YS)],
     ["frames on the wire under virtual time", "session result"])
prop("Y10", "Frame codec round-trips and is independent of fragmentation",
     "Decoding the encoding of any sequence of valid frames yields the same frames no matter how the bytes are split, consumes exactly the encoded bytes, and a malformed header or an over-long data frame is rejected with an error rather than misread.",
     ["inputs"],
     "for every frame sequence and every split of its bytes, and for arbitrary byte strings",
     "one unit test encodes one frame and decodes it in one piece",
     [YF],
     [("FrameCodec encode/decode with saved header", YF)],
     ["public Encoder/Decoder of the frame codec"])
prop("Y11", "Hostile frames cannot crash a session or corrupt its streams",
     "Whatever bytes a peer sends, a session neither panics nor overflows, does not spin without consuming input, buffers a bounded amount, and never delivers to a stream data that was not carried by valid frames for that stream in order.",
     ["inputs", "fault_sequences"],
     "for arbitrary byte strings, mutated valid traffic and arbitrary sequences of syntactically valid frames",
     "tests send only well-formed frames except one duplicate SYN",
     [YS, YT, YF],
     [("protocol error handling", YS), ("flag processing", YT)],
     ["raw peer, stream handles, session result"])

# ------------------------------------------------------------------ secio
SH, SHM = "secio/src/handshake/procedure.rs", "secio/src/handshake/handshake_context.rs"
SS, SC = "secio/src/codec/secure_stream.rs", "secio/src/crypto"
SSUP = "secio/src/support.rs"
prop("S01", "Encrypted stream delivers only what the authenticated peer wrote, untampered",
     "For every manipulation of the encrypted traffic after the handshake (modify, drop, duplicate, reorder, insert, truncate, reflect), what the reader obtains before its first error is a prefix of what the peer wrote, and a manipulated frame is reported as an error, never as data.",
     ["inputs", "fault_sequences"],
     "for every cipher, every message sequence and every manipulation at any frame or byte position in either direction",
     "tests cover untouched traffic only; no test modifies ciphertext on the wire",
     [SS, "secio/src/crypto/openssl_impl.rs", "secio/src/crypto/ring_impl.rs"],
     [("AEAD open with counter nonce", SC), ("decode_buffer error path", SS)],
     ["man-in-the-middle between two secured streams"])
prop("S02", "Handshake authenticates the peer: reported key is the key the peer owns",
     "If a handshake succeeds, each end reports the public key of the party that really holds the matching private key and took part in this very handshake, and both ends share the same session. A party that alters, replays or splices handshake messages, signs with a different key, or connects a node to itself makes the handshake fail.",
     ["inputs", "fault_sequences"],
     "for every key pair, every single or multiple alteration of handshake messages in either direction, replays of earlier handshakes and reflection",
     "tests run honest handshakes plus a few fixed bad cases",
     [SH, SHM, "secio/src/lib.rs"],
     [("signature over both proposals and the ephemeral key", SH), ("nonce verification", SH), ("ConnectSelf check", SHM)],
     ["handshake results at both ends with an active adversary"])
prop("S03", "No plaintext, key stream or nonce reuse is visible on the wire",
     "After the handshake, nothing an observer sees on the connection contains or correlates with the written data: equal messages encrypt to different bytes within a direction, across directions and across sessions, and payloads travel only in encrypted frames.",
     ["inputs", "histories", "configurations"],
     "for every cipher/digest/key-agreement choice, message sequence (repeated, all-zero, long runs) and set of sessions between the same keys",
     "tests never look at the ciphertext",
     [SS, SH, "secio/src/crypto/mod.rs"],
     [("per-direction keys from stretched shared secret", SH), ("counter nonce increment", "secio/src/crypto/mod.rs")],
     ["wire tap between two secured streams"])
prop("S04", "Algorithm negotiation is symmetric and stays within both offers",
     "Both ends of a successful handshake use the same key agreement, cipher and digest, each contained in both ends' offers; if any category has no common entry, both ends report failure. Any algorithm combination offered by both yields a working session.",
     ["configurations", "inputs"],
     "for every pair of non-empty preference lists over the supported algorithms",
     "tests use the default lists and three hand-written mismatches",
     [SSUP, SHM, SH],
     [("select_agreement/select_cipher/select_digest by hash ordering", SSUP)],
     ["handshake results at both ends", "handshake bytes on the wire"])
prop("S05", "Encrypted stream is a faithful byte stream under any I/O pattern",
     "Between two honest ends every byte written is read exactly once and in order, in both directions at the same time, whatever the sizes of writes and reads, and however the connection splits, delays or refuses bytes. No write accepted and flushed is stuck while the connection can move bytes, and closing is reported to the reader only after all data.",
     ["inputs", "schedules", "configurations"],
     "for every sequence of write sizes (1 byte to beyond internal buffers, up to and beyond the frame limit), read sizes, fragmentation, back-pressure and cipher",
     "tests write one or two short buffers over TCP",
     [SS, "secio/src/handshake/handshake_context.rs"],
     [("recv_buf drain", SS), ("length-delimited framing", SS)],
     ["AsyncRead/AsyncWrite of the secured stream"])
prop("S06", "Hostile handshake input ends in an error, never in a crash or an accept",
     "Whatever bytes a remote sends during the handshake, the local end fails with an error or waits for more input: it never panics, never accepts, never loops, and never buffers more than the frame limit. A secured stream fed arbitrary frames behaves the same way.",
     ["inputs", "fault_sequences"],
     "for arbitrary bytes, truncated and mutated honest handshakes, over-long length prefixes and empty frames",
     "tests feed one or two malformed messages",
     [SH, SHM, "secio/src/handshake/handshake_struct.rs", SS],
     [("decode returning Option", "secio/src/handshake/handshake_struct.rs"), ("max_frame_length", SH)],
     ["handshake result with raw peer"])
prop("S07", "Every cipher implementation round-trips, rejects tampering and interoperates",
     "For every supported cipher, opening what the peer implementation sealed with the same key and message number returns the plaintext, and opening with any changed bit, other key, other position in the sequence or truncation fails. The alternative implementations of a cipher produce interchangeable results.",
     ["inputs", "configurations"],
     "for every key, plaintext length 0..64 KiB, position in the sequence and single alteration",
     "unit tests seal and open one short message per cipher",
     [SC, "secio/src/crypto/openssl_impl.rs", "secio/src/crypto/ring_impl.rs", "secio/src/crypto/cipher.rs"],
     [("StreamCipher seal/open", SC), ("nonce_advance", "secio/src/crypto/mod.rs")],
     ["cipher encrypt/decrypt results"],
     hook="guarded re-export of the alternative cipher implementation")
prop("S08", "Peer identity is a stable, collision-free function of the public key",
     "A peer id is determined by the public key alone, survives conversion to and from bytes, text and addresses, and different public keys have different ids; parsing arbitrary bytes or text either fails or yields an id that converts back to the same bytes. Key pairs rebuilt from their secret have the same identity.",
     ["inputs"],
     "for every key pair and arbitrary byte strings/texts",
     "tests convert one random id",
     ["secio/src/peer_id.rs", "secio/src/lib.rs"],
     [("multihash prefix check", "secio/src/peer_id.rs"), ("PublicKey encode/decode", "secio/src/lib.rs")],
     ["public API of PeerId, PublicKey, SecioKeyPair"])

# ------------------------------------------------------------------ multiaddr
ML, MP = "multiaddr/src/lib.rs", "multiaddr/src/protocol.rs"
prop("M01", "Addresses survive conversion between text, bytes and components",
     "Any address accepted from text, from bytes or built from components converts to the other forms and back without change, and two addresses are equal exactly when their component sequences are equal. Different component sequences have different byte and text forms.",
     ["inputs"],
     "for every sequence of valid components and for every accepted text or byte string",
     "tests check a fixed table of addresses",
     [ML, MP],
     [("write_bytes/from_bytes", MP), ("Display/from_str_parts", MP)],
     ["public conversions, serde"])
prop("M02", "Parsing arbitrary addresses never panics and rejects malformed input",
     "Arbitrary text or bytes given to the address parsers yield either an error or a fully valid address whose components can all be read; truncated, over-long or unknown components are rejected. No input makes parsing, iterating or printing panic or read out of bounds.",
     ["inputs"],
     "for arbitrary bytes and text, mutations and truncations of valid addresses",
     "a table of about twenty malformed strings",
     [ML, MP],
     [("length checks in from_bytes", MP), ("check_p2p", MP)],
     ["TryFrom/FromStr results", "memory sanitizers"])
prop("M03", "Editing an address matches editing its list of components",
     "Appending, removing the last component, replacing a component, collecting and iterating over an address always agree with the same operations on the plain list of its components, and never change an address that shares its storage.",
     ["inputs", "histories"],
     "for every sequence of edit operations on cloned and fresh addresses",
     "tests push and pop two or three components once",
     [ML],
     [("push writes at the end of a copied buffer", ML), ("pop finds the last component", ML), ("replace rebuilds", ML)],
     ["public edit API", "memory sanitizers"])

# ------------------------------------------------------------------ tentacle channel
CB, CQ = "tentacle/src/channel/bound.rs", "tentacle/src/channel/queue.rs"
CU = "tentacle/src/channel/unbound.rs"
H = "guarded re-export of the crate-private priority channel"
prop("C01", "Priority channel delivers every message exactly once, in order per sender",
     "Every message accepted by the internal priority channel is received exactly once with its priority, and messages of one sender with the same priority are received in sending order; a refused message is returned to the caller and never received. A receiver never takes a normal message while a high-priority message whose send had completed earlier is still waiting.",
     ["schedules", "histories"],
     "for every number of concurrent senders, receiver pace, capacity and interleaving of normal and urgent sends, closes and drops",
     "tests use one sender or check only the count of messages; interleavings inside the lock-free queue are not sampled",
     [CB, CU, CQ, "tentacle/src/channel/sink_impl.rs"],
     [("two intrusive queues", CB), ("urgent queue polled first", CB)],
     ["recorded send/receive history"], hook=H)
prop("C02", "Priority channel: bounded, no lost wake-ups, correct close",
     "A bounded priority channel never holds more than its capacity plus one message per sender (each sender used by one task at a time); a blocked sender resumes once there is room and a waiting receiver once there is a message. Closing either side stops new sends with an error, lets messages already accepted be received, and then ends the stream; nobody waits forever.",
     ["schedules", "histories", "configurations"],
     "for every capacity, sender count, order of sends, clones, drops, closes and every schedule",
     "a lost wake-up needs a particular interleaving of park and unpark; tests run a few",
     [CB, CU],
     [("num_messages/park state word", CB), ("parked_queue unpark_one", CB), ("recv_task AtomicWaker", CB)],
     ["recorded history", "quiescence"], hook=H)
prop("C03", "Priority channel is free of data races, leaks and memory errors",
     "No use of the priority channel, including drops of either end at any time with messages inside, causes a data race, use-after-free, double drop or leak of a message.",
     ["schedules", "histories"],
     "for every interleaving of sends, receives, clones, closes and drops from several threads",
     "the queue is hand-written unsafe lock-free code; tests cannot observe undefined behaviour",
     [CQ, CB, CU],
     [("Vyukov queue with unsafe pop", CQ)],
     ["Miri with many schedules", "ThreadSanitizer", "drop counters"], hook=H)

# ------------------------------------------------------------------ tentacle negotiation
PS = "tentacle/src/protocol_select/mod.rs"
prop("N01", "Protocol negotiation agrees on the highest version both sides support",
     "When a protocol is opened, both ends report the same version, it is supported by both, and no higher version is supported by both; with no common version or unknown protocol name the protocol is not opened on either side. Data that follows the negotiation is not lost or misread.",
     ["configurations", "inputs", "schedules"],
     "for every pair of ascending version lists, protocol names and fragmentation of the negotiation messages",
     "tests use equal single-version lists and one fixed table for the selection helper",
     [PS, "tentacle/src/session.rs", "tentacle/src/builder.rs"],
     [("select_version", PS), ("client_select/server_select", PS)],
     ["negotiation results over an in-memory connection", "protocol open callbacks"],
     hook="guarded re-export of the two negotiation halves")

# ------------------------------------------------------------------ tentacle services
SV, SE, SU = "tentacle/src/service.rs", "tentacle/src/session.rs", "tentacle/src/substream.rs"
PHS, BUF = "tentacle/src/protocol_handle_stream.rs", "tentacle/src/buffer.rs"
CTL = "tentacle/src/service/control.rs"
prop("T01", "Messages between services arrive exactly once, intact and in order",
     "While a session and protocol stay open, every message accepted for sending is received exactly once, unmodified, by that protocol's handler for that session at the remote service and by nobody else; messages sent with the same priority on one session and protocol arrive in sending order. If the connection goes away, what arrived is a prefix of what was sent at each priority.",
     ["schedules", "inputs", "histories", "configurations"],
     "for every set of services, sessions, protocols, message sizes and priorities, concurrent senders, handler mode (service, session, event, spawn), encryption on or off, and transport fragmentation",
     "tests send a few messages on one protocol and count them",
     [SV, SE, SU, BUF, CTL],
     [("priority buffers at each hop", BUF), ("high/normal write buffers", SU), ("per-handler delivery buffers", SU)],
     ["send calls and received callbacks with unique message ids"])
prop("T02", "Messages reach exactly the targeted sessions",
     "A message addressed to one session, a set of sessions or all sessions is delivered to every one of the addressed sessions that has that protocol open and to no other session or protocol; sessions without the protocol, unknown ids and closed sessions are skipped without affecting the others.",
     ["histories", "configurations", "schedules"],
     "for every set of live sessions, opened protocols and target selections",
     "tests broadcast to all or one with two nodes",
     [SV, SE, CTL],
     [("handle_message target filter", SV)],
     ["received callbacks tagged by node and protocol"])
prop("T03", "Handlers see connect, then messages, then disconnect - once each",
     "For each opening of a protocol on a session, its handler is told connected once, then only messages of that opening, then disconnected once when it closes while the service runs; no message or disconnect is reported for a session that is not connected in that handler. A session-lived handler object serves exactly one session and sees events of no other.",
     ["schedules", "histories", "fault_sequences"],
     "for every order of opens, closes, re-opens, disconnects and connection losses at either end, with traffic in flight and slow handlers",
     "tests open and close once or twice in a fixed order with no traffic",
     [PHS, SU, SE, SV],
     [("service/session handler streams", PHS), ("close_proto_stream", SU)],
     ["handler callback log (trace automaton per session and protocol)"])
prop("T04", "Session open and close are reported exactly once, in order, with fresh ids",
     "Every established session is reported open exactly once under an id never used before by that service, all its events come between its open and its close report, and when it ends for any reason it is reported closed exactly once. Both ends of a connection eventually report the close, and neither keeps a half-open session.",
     ["schedules", "histories", "fault_sequences"],
     "for every history of dials, accepts, disconnects from either side, simultaneous disconnects and connection faults at any byte",
     "tests look at one open/close pair; fault points are not enumerated",
     [SV, SE],
     [("session_open/session_close", SV), ("SessionState transitions", SE)],
     ["service event log of both ends"])
prop("T05", "Every dial ends in exactly one outcome and never blocks later dials",
     "Each dial request leads to exactly one of: a session reported open, or an error reported for that address; afterwards the same address can be dialled again with the same result as a first dial. An address that cannot be dialled is always reported, each time.",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of dials (supported and unsupported addresses, refused, silent, resetting, non-p2p and wrong-identity targets, repeated dials) and faults during the handshake",
     "tests dial a target at most twice and with one kind of failure",
     [SV, "tentacle/src/service/helper.rs", "tentacle/src/transports/mod.rs"],
     [("dial_protocols bookkeeping", SV), ("handshake result events", "tentacle/src/service/helper.rs")],
     ["dial calls and service event log"])
prop("T06", "Session identity: wrong peer and duplicate peer are refused",
     "With encryption on, a session's reported remote key is the key of the node actually connected; a dial that names a peer id opens a session only with that peer and is otherwise reported as a mismatch; and at most one open session per remote key exists at any time, extra ones being refused on both ends.",
     ["histories", "schedules", "configurations"],
     "for every combination of named, unnamed and wrongly named dials, simultaneous cross dials and repeated dials",
     "tests check one match, one mismatch and one repeated dial",
     [SV],
     [("peer id comparison on handshake success", SV), ("repeated connection lookup by public key", SV)],
     ["service event log, session contexts"])
prop("T07", "Closing a service always terminates it and releases its peers",
     "After a close or shutdown request the service ends: listeners stop, every open session is closed and seen closed by its remote, handlers and background tasks stop, and later control calls fail; a graceful close first reports every listener and session closed. This holds in whatever state the service is and whatever its peers do.",
     ["schedules", "histories", "fault_sequences"],
     "for every moment of the request relative to dials, handshakes, opens, traffic, back-pressure and concurrent connections, and for repeated requests",
     "tests close idle services with established sessions only",
     [SV, "tentacle/src/service/future_task.rs", PHS, SE],
     [("Shutdown task, PreShutdown state", SV), ("wait_handle", SV)],
     ["end of the service stream, remote events, control errors"])
prop("T08", "Hostile or broken peers cannot take a service down or starve others",
     "Whatever remote endpoints send or refuse to send - resets, garbage, stalls, malformed frames at any layer before or after the handshake - the service keeps running, keeps accepting and serving honest peers, and open sessions are not disturbed.",
     ["inputs", "fault_sequences", "schedules"],
     "for arbitrary bytes and stalls at the transport, encryption, multiplexing, negotiation and message layers, from any number of hostile connections",
     "tests only connect well-behaved peers",
     ["tentacle/src/transports/mod.rs", "tentacle/src/transports/ws.rs", "tentacle/src/service/helper.rs", SV, SE],
     [("accept loops", "tentacle/src/transports/mod.rs"), ("handshake timeout", "tentacle/src/service/helper.rs")],
     ["honest-peer echo round trips during and after the attack"])
prop("T09", "Unsent-data accounting is exact; only truly blocked sessions are killed",
     "The amount of unsent data reported for a session returns to zero when everything was sent or dropped, never underflows, and a session is ended as blocked only if more unsent data than the configured limit is really waiting for it.",
     ["histories", "schedules", "configurations"],
     "for every mix of deliverable and undeliverable messages (protocol not open, closed in between), priorities, receiver pace and limits",
     "tests check the kill of one blocked session, never the return to zero",
     [SE, SU, "tentacle/src/context.rs", SV],
     [("incr/decr of pending data size", "tentacle/src/context.rs"), ("SessionBlocked", SV)],
     ["SessionContext::pending_data_size, service errors"])
prop("T10", "A slow protocol or session does not block the others",
     "If one protocol's handler, one session or one remote stops consuming, the other sessions and the other protocols keep exchanging messages and control requests keep being served; the stalled one resumes without loss when it consumes again. Data queued for a stalled reader stays bounded.",
     ["schedules", "histories", "configurations"],
     "for every choice of stalled party, message mix and buffer configuration",
     "tests block a handler and check only that sending does not deadlock",
     [SE, SU, BUF, SV],
     [("per-protocol buffers and back-pressure", SE), ("recv window configuration", SU)],
     ["message round trips on the other parties during the stall"])
prop("T11", "Timers notify while set, at most once per interval, and never after removal",
     "A service- or session-level timer fires repeatedly with its token no more often than its interval while it is set, exactly one timer exists per token however often it is set, and after removal or after its session closed it never fires again.",
     ["histories", "schedules"],
     "for every sequence of set and remove requests on several tokens, services and sessions",
     "no test counts notifications after a second set or a removal",
     [PHS, CTL],
     [("SetNotify/RemoveNotify/Notify handling", PHS)],
     ["notify callbacks with timestamps of the monotonic clock"])
prop("T12", "User futures handed to the service run exactly once, until shutdown",
     "Every future given to the service is run to completion exactly once even if it blocks others or panics elsewhere, is never run after the service ended, and is dropped when the service ends.",
     ["schedules", "histories"],
     "for every number of tasks, their durations, submission from several threads and moments of shutdown",
     "two tests submit a fixed batch",
     ["tentacle/src/service/future_task.rs", SV, CTL],
     [("FutureTaskManager signals", "tentacle/src/service/future_task.rs")],
     ["start/finish/drop counters per task"])
prop("T13", "A panicking or dead protocol handler is reported and stops the service",
     "If a protocol handler panics, the service reports a handler error naming that protocol, and its session when the handler belongs to one, and terminates instead of hanging, spinning or continuing silently without the handler. As long as no handler panics, none is reported dead and the service does not end on its own account.",
     ["schedules", "histories", "fault_sequences"],
     "for a panic in every callback of service-level and session-level handlers (but init, whose panic unwinds to whoever runs the service), under any traffic",
     "one test panics in one callback",
     [PHS, SE, SV, SU],
     [("AbnormallyClosed detection", SE), ("ProtocolHandleError", SV)],
     ["service event log, end of the service"])
prop("T14", "Protocols open exactly on request and close independently",
     "After a dial or open request naming all, one or several protocols, exactly the requested protocols that both ends support are opened on both ends, each at most once at a time; closing one protocol closes it on both ends, leaves the others working, and it can be opened again.",
     ["histories", "schedules", "configurations"],
     "for every protocol set on both ends, target selection and sequence of open, close and re-open requests from both ends",
     "tests open and close one protocol in one order",
     [SE, SV, SU],
     [("open_proto_stream/close_proto_stream", SE), ("TargetProtocol", SV)],
     ["connected/disconnected callbacks on both ends"])
prop("T15", "Connection limits and inactivity limits are enforced",
     "A service never has more open sessions than its configured maximum allows, also under bursts, and capacity freed by closed sessions is usable again; a session on which no protocol is opened within the timeout is reported and closed, while one with an open protocol is never closed for inactivity; a connection that does not finish its handshake in time is dropped.",
     ["schedules", "histories", "configurations"],
     "for every limit, burst of inbound and outbound connections and timing of opens",
     "no test opens more sessions than allowed at once",
     [SV, SE, "tentacle/src/builder.rs"],
     [("reached_max_connection_limit", SV), ("timeout check", SE), ("handshake timeout", "tentacle/src/service/helper.rs")],
     ["number of sessions between open and close reports, time-out errors"])
prop("T16", "Message transforms run once per message and are undone exactly",
     "A protocol's outgoing transform is applied exactly once to each outgoing message and its incoming transform exactly once to each incoming one, per session and in order, so the remote handler sees the original message; a failing incoming transform is reported as a protocol error and affects only that protocol.",
     ["inputs", "schedules", "configurations"],
     "for every message sequence, priority, target selection and handler mode with stateful transforms",
     "one test transforms one message",
     [SU, SV, "tentacle/src/builder.rs"],
     [("before_send in handle_message", SV), ("before_receive in recv_frame", SU)],
     ["transform call counters and received messages"])
prop("T17", "WebSocket transport behaves as the plain byte stream does",
     "Over the WebSocket transport, sessions establish and exchange messages exactly as over TCP, for any split of the data into WebSocket messages and in the presence of ping, pong, text and empty messages, and one client that stalls its upgrade does not stop others from connecting.",
     ["inputs", "schedules", "fault_sequences"],
     "for every split of the encrypted traffic into WebSocket frames, interleaved control frames and stalled or aborted upgrades",
     "two tests run one session over ws with default framing",
     ["tentacle/src/transports/ws.rs"],
     [("recv_buf drain", "tentacle/src/transports/ws.rs"), ("pending handshake queue", "tentacle/src/transports/ws.rs")],
     ["re-framing WebSocket proxy, echo round trips"])
prop("T18", "Listening: start, failure and close are reported truthfully",
     "A listen request is answered once, by a started report with the address actually bound or by an error for the requested address (a request for an address this service already listens on may be ignored instead); a started listener accepts connections until it is reported closed, which happens exactly once, and a failed request never disturbs an existing listener.",
     ["histories", "schedules", "fault_sequences"],
     "for every sequence of listen requests (free, occupied, repeated, unsupported addresses) and closes",
     "tests listen once on a free port",
     [SV, "tentacle/src/service/helper.rs", "tentacle/src/transports/mod.rs"],
     [("listens set, ListenStart/ListenError", SV)],
     ["service event log, probe connections"])
prop("T19", "Whole-stack runs are free of memory errors and data races",
     "Running services with encrypted sessions, spawned protocols, faults and shutdowns triggers no memory error, use of uninitialised or freed memory, or data race in the library.",
     ["schedules", "inputs", "fault_sequences"],
     "for every workload of the other properties",
     "ordinary builds cannot observe memory errors or races",
     ["tentacle/src", "yamux/src", "secio/src", "multiaddr/src"],
     [("safe Rust around few unsafe sites", "tentacle/src/channel/queue.rs")],
     ["AddressSanitizer, ThreadSanitizer, valgrind reports"])
prop("T20", "Address helpers convert both ways and classify correctly",
     "Converting a socket address to a multi-address and back gives the same socket address, extraction of ip, port and peer id agrees with the address components, and reachability classification depends only on the ip: no loopback, private, link-local, unspecified or documentation address is classified reachable.",
     ["inputs"],
     "for every IPv4/IPv6 address and port, and for arbitrary multi-addresses",
     "tests use three addresses",
     ["tentacle/src/utils.rs"],
     [("multiaddr_to_socketaddr / socketaddr_to_multiaddr", "tentacle/src/utils.rs"), ("is_reachable", "tentacle/src/utils.rs")],
     ["public helper functions against an independent model"])
prop("T21", "Urgent messages overtake the normal ones that wait",
     "A message sent urgently (quick send variants) is delivered ahead of normal messages of the same stream that were given earlier but are still waiting inside the library: behind a receiver that has stalled, an urgent message is not held back by the backlog, only by what was already handed to the connection.",
     ["schedules", "loads"],
     "for every backlog of normal messages, urgent ones given by control, async control and handler contexts, stalled connections and busy services",
     "tests send urgent messages without a backlog or only check they arrive",
     ["tentacle/src/substream.rs", "tentacle/src/session.rs", "tentacle/src/service.rs", "tentacle/src/channel"],
     [("high_write_buf before write_buf", "tentacle/src/substream.rs"), ("priority of the session and protocol channels", "tentacle/src/channel/mpsc.rs"), ("quick_* of control and context", "tentacle/src/service/control.rs")],
     ["arrival order at the receiving handler"])

prop("T22", "A service not built to run for ever ends exactly when nothing is left",
     "A service built without `forever` does not end by itself while it has a listener, an open session, or a dial or listen request that was taken up and not answered yet; once none of these is left, however each of them ended, it does end, with its handlers dropped, its peers' sessions closed and later requests refused.",
     ["histories", "schedules", "fault_sequences"],
     "for every mix of dials made before and after the start that succeed, fail, are refused, time out, repeat or meet the wrong peer, failed listen requests, limits, and sessions ended by either side",
     "tests that end a service always ask it to, or use services that run for ever",
     [SV, "tentacle/src/service/config.rs"],
     [("State counter of outstanding requests", "tentacle/src/service/config.rs"), ("end condition at the head and tail of poll_next", SV)],
     ["end of the service stream against reported outcomes"])

prop("T23", "A handler's own poll is called as its answers ask",
     "The poll function of a handler is called again at once after it answers that there is more, called after its waker was used when it answers that it waits, and never called again once it answers that it is through; meanwhile and afterwards messages, timers and events reach the handler as without it, and other handlers are not held up.",
     ["histories", "schedules"],
     "for every sequence of answers, wakings from other threads, messages and timers, for handlers that live as long as the service and as long as a session",
     "no test implements poll",
     ["tentacle/src/protocol_handle_stream.rs", "tentacle/src/traits.rs"],
     [("handle_poll of both handler streams, need_poll", "tentacle/src/protocol_handle_stream.rs")],
     ["calls of poll against its answers and wakings"])
prop("T24", "Connections leave from the local address set for their transport",
     "With a local address set for a transport, every connection dialled over that transport leaves from it, with or without name lookup, over IPv4 and IPv6, also when the address is in use as a listen address of the same service, and connections of the other transport do not; without one, dials and listeners work as ever; every dial to a listening address succeeds.",
     ["inputs", "configurations"],
     "for every combination of bound addresses and ports, TCP and WebSocket, IPv4, IPv6 and named targets, listeners at the bound address and elsewhere",
     "the only test of bound addresses uses one TCP service over IPv4",
     ["tentacle/src/transports", "tentacle/src/runtime"],
     [("bind_addr of both transports", "tentacle/src/transports"), ("connect and listen with reuse", "tentacle/src/runtime/tokio_runtime.rs")],
     ["source address seen by the peer"])
prop("T25", "A request is taken up or refused, as full or as gone, and that is the truth",
     "A request given to a running service is either taken up, and then carried out exactly once, in order among the messages of one caller and priority, or refused because the service is full, and then has no effect; it is never refused as if the service were gone. Asynchronous requests wait for room and then go through. Every request to a service that has ended is refused as such, and no asynchronous one waits for ever.",
     ["histories", "schedules", "fault_sequences"],
     "for every mix of requests from several threads filling the queue of a busy service beyond its limit, and every kind of request after the end",
     "no test fills the request queue",
     ["tentacle/src/service/control.rs", "tentacle/src/channel"],
     [("try_send / quick_send error mapping", "tentacle/src/service/control.rs"), ("bounded priority channel", "tentacle/src/channel/bound.rs")],
     ["answers of the control against messages and dials carried out"])
prop("R01", "Services keep their guarantees on the async-std runtime",
     "Compiled for the async-std runtime and its timer, a service does all it does on tokio: messages arrive once and in order, sessions, protocols and handlers open and close as reported, dials and listen requests are answered once and truthfully, timers, time-outs and limits hold, a panicking handler is reported and ends the service, a dead listener is reported and costs nothing further, and closing ends everything.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "for every history of the kinds exercised on the default runtime, with TCP and WebSocket, IPv4 and IPv6",
     "no test is compiled for this runtime; it is only type-checked",
     ["tentacle/src/runtime/async_runtime.rs", "tentacle/src/runtime/mod.rs", "tentacle/src/service.rs", "tentacle/src/session.rs"],
     [("TcpListener accept task, connect_std, Delay, Interval", "tentacle/src/runtime/async_runtime.rs"), ("CompatStream / generic_split", "tentacle/src/runtime/mod.rs"), ("wait_handle_poll", "tentacle/src/service.rs")],
     ["handler calls, service events, peers"])
prop("R02", "Services keep their guarantees with the runtime-independent timer",
     "Compiled with the timer that belongs to no runtime, a service does all it does with tokio's: timers fire while set and no more often than their interval, dials, handshakes, idle sessions and closing end at their time-outs and not before, and everything else is as with the default timer.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "for every history of the kinds exercised with the default timer",
     "no test is compiled with this timer; it is only type-checked",
     ["tentacle/src/runtime/generic_timer.rs", "yamux/src/session.rs"],
     [("Interval, delay_for, timeout", "tentacle/src/runtime/generic_timer.rs"), ("generic_time::Interval", "yamux/src/session.rs")],
     ["handler calls, service events, peers"])
prop("P01", "Ping: answering peers stay, silent ones are reported, wrong answers end it",
     "Every identified peer with the ping protocol open is pinged at most once per interval and not again while an answer is owed; a ping is answered once with its own nonce; an answer with the nonce asked for is reported and the peer stays connected and is never reported late; a peer that stays silent is reported after, and not before, the timeout; a wrong or unasked answer ends the session; undecodable messages are reported and never end the handler; a session without encryption is ended.",
     ["inputs", "histories", "schedules"],
     "for every mix of peers that answer, answer late, wrongly, twice, unasked, send junk, leave or keep silent",
     "the protocol crates have no test and are not part of the build",
     ["protocols/ping/src/lib.rs"],
     [("PingStatus processing/nonce", "protocols/ping/src/lib.rs"), ("PingMessage encode/decode", "protocols/ping/src/lib.rs")],
     ["callback calls, session events, messages seen by peers"])
prop("P02", "Identify: the callback learns what the peer sent, only silent peers time out",
     "A node identifies itself once per session with its data, at most ten of its addresses that may be told, and the peer's observed address; each message received leads, in order, to exactly the calls it asks for (duplicate, data, listen addresses filtered or too many, observed address), a call that asks for the end of the session stops the processing of the message and ends the session; undecodable messages are reported; a peer is reported as timed out exactly when it has sent no identity within eight seconds; sessions without encryption are ended and told nothing.",
     ["inputs", "histories"],
     "for every sequence of messages of a peer, callback policy, address mix and setting of global addresses only",
     "the protocol crates have no test and are not part of the build",
     ["protocols/identify/src"],
     [("has_received / notify", "protocols/identify/src/lib.rs"), ("process_listens, process_observed", "protocols/identify/src/lib.rs"), ("IdentifyMessage", "protocols/identify/src/protocol.rs")],
     ["callback calls per peer, session events, messages seen by peers"])
prop("P03", "Discovery: answers within limits, addresses spread once to those who lack them",
     "A dialed peer is asked once; each request is answered once with distinct addresses the manager knows, as many as asked for up to one thousand, and the requester's listen address (its address with the port it names) is given to the manager; received addresses are given to the manager, and repeated, oversized or undecodable messages are reported, ending the session when the manager says so; a valid known listen address is announced to connected peers that lack it, at most ten in a message, never twice, never to its owner or to one that sent it or was sent it.",
     ["inputs", "histories", "schedules"],
     "for every sequence of messages of several peers, store sizes, request counts and manager policies",
     "the protocol crates have no test and are not part of the build",
     ["protocols/discovery/src"],
     [("GetNodes / Nodes handling, announce list", "protocols/discovery/src/lib.rs"), ("SessionState, RemoteAddress::update_port", "protocols/discovery/src/state.rs"), ("encode / decode", "protocols/discovery/src/protocol.rs")],
     ["manager calls per session, messages seen by peers"])

for p in P:
    print(json.dumps(p, ensure_ascii=False))
