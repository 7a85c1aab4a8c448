"""Claimed checks: id -> (technique, level, note)."""
SIM = "runtime monitor over deterministic-schedule execution of the real code"
CLAIMS = {
    "Y01": ("online byte-provenance monitor on real sessions under seeded schedules and hostile links", "exploration",
            "position-coded bytes of every stream compared at every read, quiescence with missing bytes is a violation"),
    "Y02": ("online wire monitor with an independent frame parser and a credit model", "exploration",
            "every emitted frame of both sessions is checked against the credit model at the moment it is emitted"),
    "Y03": ("scripted peer with exact credit accounting, online monitor on one real session", "exploration",
            "compliant peers, single-frame overruns at a known window and floods of an unread stream"),
    "Y04": ("quiescence monitor: idle scheduler with outstanding work is a lost wake-up", "exploration",
            "all operations on streams that are read must be complete when nothing is runnable; live lock by step count"),
    "Y05": ("online monitor on opened and accepted ids and on SYN frames of the wire", "exploration",
            "ids, parity, order, exactly-once accept and no reuse"),
    "Y06": ("scripted peer against a model of the stream limits, online monitor", "exploration",
            "opens, bursts, refusals, releases and traffic on the others"),
    "Y07": ("online monitor on close, reset and data-order outcomes", "exploration",
            "ends seen by readers are compared with what the other end did"),
    "Y08": ("fault injection at random points, monitor on every pending and later operation", "fault_enumeration",
            "eight ways to end a session; virtual time for the time-out"),
    "Y09": ("virtual-clock monitor of pings, answers and time-outs against a scripted peer", "exploration",
            "hours of virtual time per case"),
    "Y10": ("differential monitor of the frame codec against an independent encoder/parser", "exploration",
            "random frames, fragmentation, malformed headers"),
    "Y11": ("hostile-input workload with debug assertions, overflow checks, panic and live-lock monitors", "exploration",
            "random and mildly mutated frame sequences"),
    "S01": ("party in the middle manipulating encrypted frames, prefix-and-error monitor on the reader", "fault_enumeration",
            "fifteen kinds of manipulation at random places of real sessions"),
    "S02": ("independent protocol peer and party in the middle, monitor on both handshake outcomes and reported keys", "fault_enumeration",
            "bit flips, splices, replays, reflections, forged signatures, wrong echoes, self connection"),
    "S03": ("wire recorder comparing ciphertext blocks of equal plaintext within and across directions and sessions", "exploration",
            "more than 65536 messages per direction, 140000 per cipher in the quick tier"),
    "S04": ("independent protocol peer that finds out which algorithms the real end uses, plus pairs of real ends", "exploration",
            "random preference lists including unknown names"),
    "S05": ("online byte-provenance monitor on secured streams under seeded schedules and hostile links", "exploration",
            "writes, reads, flushes, empty reads and closes of any size, to observed quiescence"),
    "S06": ("hostile-input workload with panic, live-lock, accept and allocation monitors", "exploration",
            "raw junk, damaged messages, signed bad keys, junk after the handshake"),
    "S07": ("differential monitor of the cipher implementations against each other and an independent one", "exploration",
            "sequences of up to 600 messages with interference at a random place"),
    "S08": ("differential monitor of identities against an independent computation", "exploration",
            "keys, arbitrary bytes and text"),
    "M01": ("differential monitor of all conversions against an independent address model", "exploration",
            "fourteen ways to build an address, pairwise equality, hashing, JSON and binary serde, accepted damaged forms"),
    "M02": ("hostile-input workload with a panic monitor and an independent reader as oracle", "exploration",
            "damaged, truncated and random bytes and text; accept and refuse decisions compared"),
    "M03": ("model-based monitor of edit histories on addresses sharing storage", "exploration",
            "every address is compared with its plain list after every step"),
    "C01": ("history monitor on the channel's own sources under a controlled scheduler (random, PCT, uniform random walk)", "exploration",
            "every shared-memory operation of the channel is a scheduling point; about 600000 executions in the quick tier"),
    "C02": ("history and deadlock monitor on the channel's own sources under a controlled scheduler", "exploration",
            "bound, room, close and end rules on every history; a schedule in which somebody waits forever is a violation"),
    "C03": ("Miri (data races, weak memory, aliasing, use after free, leaks) over many seeds, destruction counters under a controlled scheduler", "exploration",
            "480 Miri schedules in the quick tier"),
    "N01": ("differential monitor of both negotiation halves over in-memory connections", "exploration",
            "random version lists, names, custom selection, fragmentation, data along with the negotiation, broken messages"),
    "T01": ("online provenance monitor on real services over loopback with relays, faults and injected delays", "exploration",
            "position-coded messages, every received stream must be a prefix of the sent one, complete when nothing was cut"),
    "T02": ("online provenance monitor on real services, every message addressed to a chosen set of sessions", "exploration",
            "who received what is compared with who was addressed"),
    "T03": ("automaton over the callbacks of every handler, under churn, faults and injected delays", "exploration",
            "all handler kinds; opens, closes, cuts and reconnects at random times"),
    "T04": ("automaton over service events and handler callbacks, under churn, faults and injected delays", "exploration",
            "session events exactly once, ordered, and consistent with the handlers"),
    "T05": ("accounting monitor on dials of good, silent, refusing, breaking, foreign and unsupported targets", "fault_enumeration",
            "each dial is matched with exactly one outcome of the right kind"),
    "T06": ("monitor on session identities under concurrent dials in both directions", "exploration",
            "keys, ids, directions and the one-session-per-key rule"),
    "T14": ("model of the protocols open at each end compared with the log at quiescence", "exploration",
            "random opens and closes from both ends, in all handler modes"),
    "T15": ("monitor on session counts and time-outs under bursts, idle sessions and stalled handshakes", "exploration",
            "limits of 1 to 5, both directions, freed capacity is used again"),
    "T16": ("provenance monitor with marking transforms and failing transforms", "exploration",
            "each transform counted and undone exactly once; failures reported once and contained"),
    "T07": ("end-of-service monitor on real services closed in random states, with sockets, handlers and peers observed", "exploration",
            "close and shutdown while dialling, listening, busy, stalled; everything released, everything refused afterwards"),
    "T12": ("counters of polls, completions and drops of every future handed over", "exploration",
            "several threads, blocking, panicking and endless futures, shutdown at any time"),
    "T13": ("panic injection into every callback, reports and end observed", "fault_enumeration",
            "connected, received, disconnected, notify and poll of all handler kinds"),
    "T09": ("unsent-data gauge sampled while messages, closes and stalls go on, compared with the ledger of what was given", "exploration",
            "undeliverable messages, protocols closed meanwhile, stalled links, limits of 50 kB to 24 MB"),
    "T10": ("progress monitor of all other protocols, sessions and requests while one party takes nothing", "exploration",
            "paused handlers and stalled links, queues filled beyond their limits, bytes taken by the stalled reader"),
    "T11": ("timer log against intervals, with timers set, set again and removed", "exploration",
            "service and session timers, several tokens, protocols and sessions closed and opened again"),
    "T17": ("delivery monitor behind a relay that frames the WebSocket traffic anew, and connection monitor beside broken upgrades", "exploration",
            "any split, fragments, pings, pongs, text and empty messages; up to 60 stalled or broken upgrades"),
    "T08": ("honest-traffic and newcomer monitors of a service under attack at every layer, session accounting afterwards", "exploration",
            "replayed and mutated recordings of sessions, garbage, stalls, WebSocket and encrypted attackers, hostile listeners; attacks up to 40 connections"),
    "T18": ("monitor of listen reports against probe connections, views of the handlers and the end of the service", "exploration",
            "free, occupied, repeated, unsupported and named addresses; listeners broken from outside"),
    "T19": ("AddressSanitizer, ThreadSanitizer and valgrind memcheck over the workloads of the other service properties", "exploration",
            "C code is seen by memcheck only; leaks are not judged; reports of dependencies known to be false are suppressed"),
    "T20": ("public helpers against an independent model of addresses", "exploration",
            "all special ranges and their borders, random addresses, arbitrary component lists"),
    "T21": ("arrival-order monitor behind a stalled connection and a busy service", "exploration",
            "at most half of a backlog of thousands of normal messages may precede an urgent one given after it"),
    "T22": ("accounting monitor: requests taken up, outcomes reported and sessions, against the end of the service", "exploration",
            "user futures alone are not counted as something left; a build without forever"),
    "T23": ("call monitor of handlers' own poll functions against their answers and wakings", "exploration",
            "handlers with a life as long as the service or a session; wakings from other threads; messages and timers meanwhile"),
    "T24": ("source-address monitor at accepting peers", "exploration",
            "TCP and WebSocket, IPv4, IPv6 (when the machine has it) and names; bound ports fixed or free; listeners at the same address"),
    "T25": ("ledger of requests taken up and refused against what was carried out", "exploration",
            "a service standing still in its event handler; one to three threads; messages of both priorities and dials are followed, other requests judged by their answer"),
    "R01": ("the monitors of the other service checks on a build for async-std", "exploration",
            "async-std with its own timer; services polled from a tokio runtime; WebSocket included"),
    "R02": ("the monitors of the other service checks on a build with the generic timer", "exploration",
            "the tokio runtime with the generic timer; multiplexer keepalive uses it as well"),
    "P01": ("callback and session-end monitor against scripted and honest peers", "exploration",
            "the repository's ping source, compiled by a wrapper crate; both message encodings"),
    "P02": ("call-sequence monitor against an independent model of what each peer's messages ask for", "exploration",
            "the repository's identify source, compiled by a wrapper crate; both message encodings"),
    "P03": ("call-sequence and wire monitor against an independent model, knowledge sets for announcements", "exploration",
            "the repository's discovery source with an exact set in place of its bloom filter; both message encodings"),
}
NOT = {}
