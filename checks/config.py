"""The checks by property."""
import c19
import ts

CALL_RULE = ("A case is a set of concurrent calls (seeded scripts of sends, receives, half-closes, cancels, returns) over one "
             "transport with a schedule (none, random yields, or goroutines parked at 1-3 instrumented statements until all else "
             "is blocked); distinct by scripts, sizes, transport and schedule; every case runs real calls, so all are non-trivial. "
             "distinct_histories counts distinct orders of the logged events.")
CALL_TECH = "runtime monitoring: offline checker over event logs of real calls, schedule perturbation, quiescence (deadlock) detector"
CALL_ASSUME = ["in-process transports stand for the network (TCP and WebSocket are covered by C16)",
               "a deadlock is reported only if every goroutine of the process is blocked and no timer of the code is pending"]


def calls(note, **kw):
    return dict({"modes": [{}], "rule": CALL_RULE, "technique": CALL_TECH, "note": note, "assumptions": CALL_ASSUME}, **kw)


STANDINS = ("the npm packages which the sandbox lacks are replaced by stand-ins written for the harness "
            "(it-pushable, it-pipe, uint8arraylist, protobuf-es-lite, event-iterator, yamux, the duplex of it-ws)")

CHECKS = {
    "C01": calls("3000 cases of 1-4 concurrent calls over pipe, packet and yamux transports with random chunking; every received message is compared with the sent sequence, kept messages are compared again at the end."),
    "C02": calls("3000 half-close cases in both directions; EOF only after all messages, repeated, and the other direction keeps working."),
    "C03": calls("6000 cases (1500 in which the context of the server is cancelled); outcome at the client compared with what the handler returned, and again after the connection ended; 12000 scripted ends of single calls, 2000 calls with messages which cannot be encoded or decoded."),
    "C04": calls("900 cases of 3-16 concurrent calls on one muxed connection, some cancelled, abandoned or not reading; all checks of each call and a deadlock detector."),
    "C05": calls("4000 cases with a cancel or close at scripted or scheduled points; every operation returns, the handler context ends."),
    "C06": calls("The connection is cut after every byte of the packet streams of small calls (three kinds of failure, one or both directions), and at sampled bytes of larger, muxed, nested and proxied calls.",
                 level="fault_enumeration",
                 technique="runtime monitoring under fault injection: connection cut after each byte, log checker, deadlock detector",
                 modes=[{"thorough_scale": 10}]),
    "C07": {
        "modes": [{"thorough_scale": 10}],
        "rule": "A case is a byte stream of packets with its split into reads (or concurrent writers with a short-writing, failing "
                "writer and a schedule); distinct by the bytes, the split, the end and the handler error. All are non-trivial: each "
                "compares the delivered packets with those the stream was made of.",
        "technique": "runtime monitoring: independent framing oracle over every delivered packet and every written byte, fault injection",
        "note": "All splits of 60 short streams into up to three reads, 6000 random streams with random chunks, the size limit, and 800 cases of concurrent writers (packets and raw frames) over short-writing and failing writers.",
        "assumptions": ["a writer which returns 0, nil forever is outside the contract of io.Writer"],
    },
    "C08": {
        "modes": [{"thorough_scale": 10}],
        "rule": "A case is a packet value or a byte string given to the codec of a packet type; distinct by content and type. Each is "
                "non-trivial: the result is compared with an independent protobuf encoder/decoder written from the schema.",
        "technique": "runtime monitoring: differential oracle (independent wire codec) over every encode, decode, validate, clone, equal, size and JSON result, panic monitor",
        "note": "24000 generated values in random valid encodings, 60000 hostile byte strings, every string of up to two bytes (three sampled) and 8000 validations.",
        "assumptions": ["invalid UTF-8, over-long varints, known fields with a wrong wire type and field numbers above 2^29-1 are not specified by the property and only checked for panics"],
    },
    "C09": {
        "modes": [{"thorough_scale": 20}],
        "rule": "A case is the packet script of a hostile peer (valid calls with repeated, late, invalid, undecodable or misframed "
                "packets, cancels, ends) with a schedule; distinct by the bytes, the end and the handler. Non-trivial: each compares "
                "what handler, client and peer saw with a protocol model, and requires the stream to end.",
        "technique": "runtime monitoring: protocol model as online oracle over hostile packet sequences, panic monitor, deadlock detector, bystander calls with the log checker",
        "note": "3000 hostile streams at a server, 3000 at a client, 1500 at a nested stream, 900 connections with hostile streams next to correct calls, 200 invalid muxed connections.",
        "assumptions": ["data packets before the call start and encodings named in C08 have no specified meaning"],
    },
    "C10": {
        "modes": [{"thorough_scale": 20}],
        "rule": "A case is a sequence of registrations, queries and invocations on a tree of muxes and fallbacks, a set of real calls to "
                "one, or a concurrent history with its schedule; distinct by operations, results and (concurrent) interleaving. "
                "Non-trivial: every invocation and query result is compared with the model; overlapping-pairs counts concurrent operations.",
        "technique": "runtime monitoring: reference model of every query and route, linearizability checker over recorded concurrent histories",
        "note": "40000 sequences, 2000 x 8 calls through client and server, 24000 concurrent histories of up to 20 operations with schedule perturbation inside the mux.",
        "assumptions": ["a handler does not change its service and method ids after it was registered"],
    },
    "C11": {
        "modes": [{"thorough_scale": 20}],
        "rule": "A case is a tree of client (or invoker) wrappers over scripted leaves and a call; distinct by tree, service and the leaves reached. "
                "Non-trivial: the sequence of leaves reached, the service id each saw, the arguments and the result are compared with a model.",
        "technique": "runtime monitoring: reference model over the call trace of each wrapper tree, log checker for real calls through wrappers",
        "note": "40000 client trees, 40000 invoker trees, 1200 cases of real calls through wrappers on both sides with the log checker of C01-C05.",
        "assumptions": ["an empty string is not a prefix"],
    },
    "C12": calls("2000 cases of calls through nested streams with the same log checker as direct calls and a monitor of lookups and releases; 3000 openings and 2000 served nested streams with scripted peers; 700 cases of several components with exact id routing."),
    "C13": calls("2000 cases of calls through proxied nested streams with the same log checker as direct calls and a monitor of lookups; 5000 proxied packet streams with scripted ends and faults on either side."),
    "C14": {
        "modes": [{"thorough_scale": 20}],
        "rule": "A case is a byte stream in writes of given sizes through one adapter, a pair of adapters on a real call, or a raw component (scripted "
                "or behind real calls), with read buffer sizes, ends, faults and a schedule; distinct by all of these. Non-trivial: every byte read is "
                "compared with the bytes written.",
        "technique": "runtime monitoring: byte-exact conservation oracle over adapters under random chunking, faults and schedules; monitor of lookups, closes and releases; deadlock detector",
        "note": "24000 single adapters over scripted streams, 4000 wrapped streams, writers and handlers, 1500 pairs over real calls, 4000 scripted and 1200 real raw component cases.",
        "assumptions": ["a stream which the client cancels may drop bytes in flight", "raw streams have no half-close: when one side ends both end"],
    },
    "C15": {
        "modes": [{"thorough_scale": 10}],
        "rule": "A case is a scripted stream (chunks, ends, short writes, faults) below a connection with reads, writes, deadlines, close or cancel and a "
                "schedule, or calls over a muxed connection on top; distinct by all of these. Non-trivial: bytes, ends, timeouts and what is left are checked.",
        "technique": "runtime monitoring: byte-exact conservation oracle, interval oracle for timeouts over the log of deadlines and reads, resource monitor after close, log checker for calls on top",
        "note": "12000 read cases, 4000 write cases, 320 deadline histories with real time, 1600 close or cancel cases, 1000 cases of calls over yamux on the connection.",
        "assumptions": ["the write deadline is documented as not enforced"],
    },
    "C16": {
        "modes": [{"thorough_scale": 10}],
        "rule": "A case is a set of calls of several clients to one server (in-memory listener, TCP, WebSocket over in-memory or TCP) next to noise "
                "connections (idle, garbage, cut, stalled), a listener script (accept errors, end) or HTTP paths; distinct by scripts, transport, "
                "noise and schedule. Non-trivial: each runs real calls whose logs are checked, or compares what was served with the configured path.",
        "technique": "runtime monitoring: log checker for calls next to misbehaving connections, deadlock detector, monitor of Listen's return and of the bound address",
        "note": "1200 cases over an in-memory listener, 800 over WebSocket on in-memory connections, 80 over TCP, 40 over WebSocket on TCP, 400 listeners which fail, 1600 path cases, 64 ends of Listen, 400 accept loops with muxers which fail or a context which ends.",
        "assumptions": ["Listen ends connections it has not yet ended only when they end themselves"],
    },
    "C17": calls("After each case the goroutines, muxed streams, transport ends and context registrations are compared with those before.",
                 technique="runtime monitoring: resource monitor (goroutines, streams, transport ends, context registrations) at quiescence after each case"),
    "C18": {
        "modes": [{"race": True, "thorough_scale": 12}],
        "only": ["data-race", "panic", "monitor-panic"],
        "rule": "A case is a set of operations on shared objects from several goroutines (calls, streams with a goroutine per operation, muxes, "
                "wrapped clients, connections with deadlines, pipe streams, packet writers, adapters, stream RPCs, muxed connections), without more "
                "synchronisation than a caller would use; distinct by operations, transport and schedule. The race detector watches every access of "
                "each case, so all are non-trivial.",
        "technique": "runtime monitoring: Go race detector (happens-before sanitizer) over hostile concurrent workloads with schedule perturbation",
        "note": "9360 cases in ten groups; the worker is built with -race and stops at the first race.",
        "assumptions": ["the race detector sees races of accesses which the executed schedules leave unordered, within its history of the last accesses"],
    },
    "C19": {
        "extra": c19.run,
        "rule": "A case is a call through freshly generated stubs: a random schema (files, packages, services, methods of all kinds, own, nested, "
                "imported and well-known message types, comments, names near to each other and to names of the generated code), registrations under "
                "default and overridden ids, and a scripted call; distinct by schema, registration and script. Non-trivial: the implementation which "
                "ran, each message on both sides and the outcome are compared with the schema and the script.",
        "technique": "runtime monitoring: generated programs compiled and run under an oracle built from the schema (which implementation ran, messages, outcome)",
        "note": "24 schemas (about 130 services, 500 methods) and the committed echo and mock stubs; about 10000 calls, 3000 near-miss method names, 450 calls to unregistered services.",
        "assumptions": ["Go names derived from the schema are distinct and no imported package is named like a parameter or variable of the generated code",
                        "the messages are generated by protoc-gen-go-lite of the module cache"],
    },
    "C20": {
        "modes": [{"thorough_scale": 15}],
        "rule": "A case is a pair of pipe ends with a sender and a receiver goroutine each, closes, half-closes and cancels at random or when all is "
                "blocked and a schedule; or a sequence of overlapping single operations. Distinct by scripts and schedule; distinct_histories by the "
                "order of all starts and ends. Non-trivial: each log is judged at every moment when all is blocked and at the end.",
        "technique": "runtime monitoring: trace checker over the event log of both ends, blocked operations judged at quiescence, schedule perturbation",
        "note": "12000 concurrent cases, 8000 sequences; after each case the context is cancelled and all operations must end.",
        "assumptions": ["a message whose send overlaps the close of the same end may be delivered or not"],
    },
    "C21": {
        "modes": [{"thorough_scale": 50}],
        "rule": "A case is a sequence of operations on a raw message and of writes to the buffers the caller holds; distinct by the sequence. "
                "Non-trivial: content, size and every buffer (to its capacity) are compared with a model after every operation.",
        "technique": "runtime monitoring: reference model with canaries in every buffer the caller holds",
        "note": "40000 sequences of up to 14 operations, half in copy mode.",
        "assumptions": ["the buffer given to NewRawMessage in copy mode is handed over, as documented"],
    },
    "C22": {
        "extra": ts.check("C22"),
        "rule": "A case is a set of up to six scripted calls over one TypeScript transport (packet stream, framed bytes, muxed connection, message channel) "
                "with pauses, aborts, failures or a cut at any byte; distinct by scripts, sizes and transport; distinct_histories by the order of the "
                "events of both ends. Non-trivial: both logs are checked for every call.",
        "technique": "runtime monitoring: offline checker over the event logs of both ends, deadlock detection at quiescence, monitor of streams left open, faults and schedule perturbation",
        "note": "3000 cases of plain calls, 2000 with aborts and failures, 2000 with lost connections, 700 over message channels and the connections made of them, 300 with such a connection closed during the calls (about 18000 calls).",
        "assumptions": [STANDINS, "messages queued before an error may be dropped at the receiver"],
    },
    "C23": {
        "extra": ts.check("C23", prepare=ts.gopeer),
        "rule": "A case is a set of up to five scripted calls between a TypeScript and a Go process, each in one of both directions over its own byte "
                "stream, one muxed connection, or a WebSocket, with chunkings, pauses, aborts, failures or a cut; distinct by scripts, sizes and directions; distinct_histories by events and "
                "results. Non-trivial: the logs of both processes are checked for every call, and the Go process must be back to its idle goroutines.",
        "technique": "runtime monitoring: offline checker over the event logs of both processes, monitor of goroutines, connections and streams left over, faults and schedule perturbation",
        "note": "6000 cases of plain calls, 3600 with aborts and failures, 2400 with lost connections, each on its own streams; 2400 over a muxed connection, 1200 over WebSockets to a Go HTTP server (about 37000 calls).",
        "assumptions": [STANDINS,
                        "messages queued before an error may be dropped at the receiver"],
    },
    "C30": {
        "extra": ts.check("C30", prepare=ts.gowasm),
        "rule": "A case is a set of up to five scripted calls (some through nested streams) between TypeScript and the Go packages built for GOOS=js, "
                "whose packets leave through a JavaScript pushable; chunkings, pauses, aborts, failures or a cut; distinct by scripts, sizes and directions. "
                "Non-trivial: the pushable compares every array with the encoding of the packet and watches its use, and the logs of both ends are checked.",
        "technique": "runtime monitoring: monitor of the JavaScript pushable (contents, order, later changes, end), offline checker over the event logs of both ends, monitor of goroutines and connections left over",
        "note": "2000 cases of plain calls, 1500 with aborts and failures, 700 with lost connections, 800 of nested calls, in the WebAssembly build run by node.",
        "assumptions": [STANDINS, "node stands for the browser"],
    },
    "C31": {
        "modes": [{"thorough_scale": 20}],
        "extra": ts.check("C31"),
        "rule": "A case is a set of concurrent calls of the echo and mock services with their committed stubs, in Go over each transport and in TypeScript, "
                "plain or through one or two nested streams, with random contents, lock-step, cancels and missing nested servers; or a message of "
                "both services in any valid encoding; distinct by calls and contents. Non-trivial: every message and end a client gets is compared with "
                "what the service documents.",
        "technique": "runtime monitoring: specification of each method as oracle over what every client received and how its call ended, deadlock detector, schedule perturbation",
        "note": "4000 + 6000 cases of calls (Go, TypeScript), 72 of calls which take seconds, 8000 messages.",
        "assumptions": [STANDINS, "a Go bidirectional echo fails at an empty message, the TypeScript one echoes it"],
    },
    "C25": {
        "extra": ts.check("C25", prepare=ts.gopeer),
        "rule": "A case is a set of scripted calls through one to three levels of nested streams, TypeScript to TypeScript or between TypeScript and Go, with "
                "component ids, failed lookups, aborts, failures or cuts, or a nested stream by itself with packets, ends and failures in both directions, or with "
                "a scripted other end which sends unexpected packets; distinct by scripts, components and transport. Non-trivial: the logs of both "
                "ends, the components looked up, and what is left over are checked.",
        "technique": "runtime monitoring: offline checker over the event logs of both ends and of the lookups, monitor of handlers, streams and goroutines left over, faults and schedule perturbation",
        "note": "20000 nested streams by themselves, 7000 cases of calls TypeScript to TypeScript, 6500 between TypeScript and Go, 900 over a muxed connection.",
        "assumptions": [STANDINS, "a Go client which does not wait for the acknowledgment may fail to send instead of seeing the error of the lookup"],
    },
    "C24": {
        "extra": ts.check("C24"),
        "rule": "A case is a list of messages (sizes 0 to 70000, as arrays or lists of pieces) framed, cut anew into chunks (down to single bytes, empty "
                "ones too), possibly ended early or by an error, and decoded; or items written to a pushable from a source which may fail; distinct by "
                "sizes, chunks and end. Non-trivial: every output is compared byte by byte, also after later input.",
        "technique": "runtime monitoring: reference framing as oracle over recorded outputs, monitors for lateness, reuse of memory and ends that do not come, fault injection",
        "note": "40000 framings, 15000 pushables.",
        "assumptions": [STANDINS],
    },
    "C26": {
        "extra": ts.check("C26"),
        "rule": "A case is a history of registrations and lookups on a mux, a handler made of a definition, or a history of a value container with its "
                "waiters; ids include names of inherited properties; distinct by history. Non-trivial: every result is compared with a model.",
        "technique": "runtime monitoring: model-based oracle over recorded histories, monitor of the shared prototypes",
        "note": "40000 histories of a mux, 10000 handlers, 25000 containers.",
        "assumptions": [STANDINS],
    },
    "C27": {
        "extra": ts.check("C27", gen=True),
        "rule": "A case is a set of up to four services with freshly generated stubs (150 files of random services per run, and the committed stubs), "
                "registered under their own or another id, and one scripted call per chosen method, with failures and aborts; distinct by services, "
                "methods, scripts. Non-trivial: every call is checked at the implementation and the client; all generated files and a use of each method "
                "with the types of the schema go through the TypeScript compiler.",
        "technique": "runtime monitoring: execution of generated stubs with an oracle over the records of implementation and client, definitions compared with the descriptors",
        "note": "150 files (about 300 services, 900 methods), 12000 cases (about 57000 calls).",
        "assumptions": [STANDINS, "the plugin framework (descriptors, printing of files, imports and comments) is a stand-in, too"],
    },
    "C28": {
        "extra": ts.check("C28"),
        "rule": "A case is a history of a watchdog, or of two channel streams or duplexes over a message port or broadcast pair with delays, loss, noise, "
                "closes, idle timeouts and keep-alives under a virtual clock; distinct by options, sizes and times; distinct_histories by the events of "
                "both ends. Non-trivial: the events of both ends are checked at each step and at the end.",
        "technique": "runtime monitoring: online monitors of timeouts under a virtual clock, offline checker of both ends, loss and delay injection, monitor of timers left over",
        "note": "20000 watchdogs, 15000 pairs of channel streams or duplexes.",
        "assumptions": [STANDINS, "channels deliver in order, or nothing any more", "a BroadcastChannel loses what is sent before the other end exists"],
    },
    "C29": {
        "extra": ts.check("C29"),
        "rule": "A case is a set of streams, framed or of packets, on which a scripted peer talks raw bytes or packets to a TypeScript server or client: "
                "valid scripts, and scripts wrecked by repeated, dropped, swapped, truncated or corrupted packets and frames, foreign bytes, ends and "
                "failures at any point, or a peer which never ends its side; distinct by scripts, chunks and kind. Non-trivial: what the handlers and "
                "clients got, in which order, and what was sent and closed is compared with a reference model of the script; a regular call on the same "
                "server follows.",
        "technique": "runtime monitoring: reference model over recorded outputs and deliveries, fault injection by hostile peers, monitors of unhandled failures and of streams left open",
        "note": "20000 cases of hostile streams, 20000 single ends of calls fed directly.",
        "assumptions": [STANDINS, "messages queued before an error may be dropped at the receiver"],
    },
}

NOT_APPLICABLE = []
