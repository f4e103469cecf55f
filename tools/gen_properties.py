#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "MessagePack encoding round-trips and is exactly as long as the sizer says",
 "For every value the library can write (each typed write, nillable writes, slices, maps, byte arrays, strings, times and dynamically typed values), the size computed by the sizing pass equals exactly the number of bytes the encoding pass produces, encoding never fails or overruns a buffer of that size, and the bytes are well-formed MessagePack. Decoding those bytes with the matching read gives back an equal value and consumes all of them, also when several values follow each other.",
 ["inputs"], "All values: every format boundary of every type (integer widths, string, binary, array and map length classes, nil/non-nil, time), every nesting of dynamic values up to a depth, every sequence of writes up to a length, and for every type pair every width class.",
 "The tests encode a handful of values per type; the boundary lengths (255/256, 65535/65536), nil in dynamic values, times and sequences are never compared between sizer, encoder and decoder.",
 ["msgpack/sizer.go", "msgpack/encoder.go", "msgpack/decoder.go", "msgpack/utils.go", "msgpack/codec.go", "msgpack/format.go"],
 [("two-pass sizing then encoding", "msgpack/codec.go ToBytes/AnyToBytes"), ("format selection by width", "msgpack/encoder.go, msgpack/sizer.go")],
 ["bytes returned by msgpack.*ToBytes, Encoder output, Decoder results"])

prop("C02", "MessagePack decoding is total and skips exactly one value",
 "Whatever bytes are given to the MessagePack decoder, every read returns either a value or an error: it never panics, never hangs, never reads outside the given bytes, and never allocates memory out of proportion to the input. A value that is cut short is always reported as an error, and skipping consumes exactly the bytes of one complete well-formed value, whatever its format. A nil where the size of an array or map, or bytes are read counts as none of them.",
 ["inputs"], "All byte strings: exhaustively all short strings, all leading format bytes with all boundary length fields, and all truncations and single-byte mutations of well-formed encodings, through every read operation.",
 "Unit tests only decode bytes the encoder has just produced; malformed, truncated and hostile input is untested.",
 ["msgpack/decoder.go", "msgpack/data_reader.go", "msgpack/utils.go"],
 [("bounds-checked byte reader", "msgpack/data_reader.go"), ("Skip / ReadAny format dispatch", "msgpack/decoder.go")],
 ["return values of the Decoder reads"])

prop("C03", "Protocol frames round-trip through their wire encoding",
 "Encoding any protocol frame (setup, the four request kinds, request-n, cancel, payload, error) writes exactly as many bytes as the frame's declared size, and decoding those bytes yields a frame of the same type and stream with every field and flag equal to the original. The bytes follow the documented RSocket layout (big-endian 31-bit stream id, 6-bit type, 10-bit flags, fields in order), and the 24-bit length prefix helpers are exact over their whole range. Port messages (name, data, next and completion markers) round-trip likewise.",
 ["inputs"], "All frames: every combination of type, flags, presence/absence of each optional field, boundary lengths of each field, boundary numbers, and all 24-bit values.",
 "The tests check one hand-written sample of three frame types; flag combinations, follows, tokens, long durations and field lengths are never tried.",
 ["internal/frames/setup.go", "internal/frames/request_payload.go", "internal/frames/payload.go", "internal/frames/request_n.go", "internal/frames/error.go", "internal/frames/cancel.go", "internal/frames/frame_header.go", "internal/u24/u24.go"],
 [("Size/Encode/Decode triple of each frame", "internal/frames/*.go"), ("uint24 length prefix", "internal/u24/u24.go")],
 ["encoded bytes and decoded frame values"])

prop("C04", "No sequence of bytes from the wire can crash the decoders",
 "For any bytes whatsoever in the place of a received frame body, of an operation table or of a port message, decoding ends with a value or with an error, never with a panic, and without allocating memory out of proportion to the input. A frame body or table that is cut short or whose inner lengths exceed the bytes present is reported as an error.",
 ["inputs"], "All byte strings per frame type and flag combination: all short bodies, all boundary values of every inner length field, all truncations of valid encodings.",
 "No test ever decodes anything except bytes the encoder produced.",
 ["internal/frames", "operations/operatons.go", "invoke/portio.go", "transport/rsocket/tcp_conn.go", "transport/rsocket/decoder.go"],
 [("frame Decode methods", "internal/frames/*.go"), ("operations.FromBytes", "operations/operatons.go"), ("PortIO.Decode", "invoke/portio.go")],
 ["error or value returned by each decoder", "a TCP connection fed the bytes"])

prop("C05", "Fragmenting a payload loses, duplicates and reorders nothing",
 "When a request or payload frame is larger than the maximum frame size, splitting it yields frames that each fit in the maximum size, of which all but the last and only those say that more follows; joining their metadata and data in order gives back the original metadata and data. The first fragment keeps the request's kind, stream and initial demand, the completion and next markers survive, and frames that already fit are not split.",
 ["inputs"], "All metadata lengths, data lengths, maximum frame sizes, frame kinds and flag combinations within a grid that crosses every boundary of the splitting logic.",
 "There are no tests of fragmentation at all except one; the split boundaries (metadata exactly filling a frame, data one byte over) are never hit.",
 ["internal/frames/util.go", "internal/frames/payload.go", "internal/frames/request_payload.go"],
 [("splitPayloads", "internal/frames/util.go"), ("Fragment", "internal/frames/payload.go, internal/frames/request_payload.go")],
 ["frames returned by Fragment"])

prop("C06", "Operation tables round-trip and dispatch reaches the advertised operation",
 "Any operation table survives encoding and decoding unchanged. The table a process advertises lists every exported and imported operation exactly once with its kind and direction, looking an operation up by the advertised index gives exactly the handler that was exported under that name, importing the same name twice gives the same index, and an index that was never advertised gives no handler.",
 ["inputs", "histories"], "All tables up to a size over boundary names and kinds; all sequences of export/import registrations up to a depth over colliding names and all four kinds, followed by lookups of all indices.",
 "Nothing tests the registry or the table encoding; a kind or direction mix-up shows only with particular registration orders.",
 ["operations/operatons.go", "invoke/handlers.go", "handler/caller.go"],
 [("table codec", "operations/operatons.go"), ("index assignment per kind", "invoke/handlers.go"), ("lookup of the peer's table", "handler/caller.go")],
 ["GetOperationsTable, Get*Handler, Import* results, FromBytes(ToBytes(t))"])

prop("C07", "Stream identifiers are unique, non-zero and of the right parity",
 "However many callers ask concurrently, each gets a stream identifier different from all others handed out within one pass over the identifier space; client identifiers are odd, server identifiers even, none is zero and none has its top bit set. Identifiers start at the lowest one, increase by two, and after the space is exhausted wrap around to valid identifiers again while saying that the first pass is over.",
 ["schedules", "histories"], "All interleavings of concurrent allocations up to three threads, from fresh state and from every state around the wrap-around points, and every position in the identifier space (stepping over all of it).",
 "The unit test takes a few identifiers sequentially from the start; neither concurrency nor the wrap-around is reached (2^30 allocations).",
 ["internal/socket/stream_id.go", "handler/handler.go", "transport/wasmrs/host/caller.go"],
 [("atomic counter doubled and masked", "internal/socket/stream_id.go")],
 ["identifiers returned; stream ids of frames sent by a Handler"])

prop("C08", "The unbounded frame queue delivers every element once, in order",
 "Under every interleaving of producers, a consumer and a dispose, each element whose put was accepted is delivered exactly once, elements of one producer in the order they were put, and puts never block. After dispose no put is accepted, everything accepted before is still delivered, and then the consumer sees the end of the queue; the consumer never hangs with elements left and nothing ever panics, even if disposed twice.",
 ["schedules", "histories"], "All interleavings (up to a preemption bound) of up to two producers, one consumer following the documented read/load protocol, and one or two disposers; all sequential histories of operations up to a depth.",
 "The test runs the goroutines once under the Go scheduler; check-then-act windows between the backlog, the channel and dispose are only a few instructions wide.",
 ["internal/buffer/unbounded.go", "transport/rsocket/transport.go"],
 [("mutex around backlog and one-slot channel", "internal/buffer/unbounded.go"), ("consumer loop", "transport/rsocket/transport.go loopReadBuffer")],
 ["elements received from the queue; blocking"])

prop("C09", "The table of open streams behaves like an atomic map",
 "Adding, looking up, removing and counting streams behave, under any interleaving of concurrent calls, as if executed one at a time: a lookup finds a stream exactly when it was added and not removed, a removed stream is never found again, removing one stream never affects another, and the size equals the number of streams present.",
 ["schedules", "histories"], "All sequences of add/remove/lookup up to a depth over a few stream ids, and all interleavings (up to a preemption bound) of two or three threads doing such operations.",
 "The registry has no test; wrong unlinking needs particular add/remove orders, and races need particular interleavings.",
 ["proxy/lookup.go", "handler/handler.go"],
 [("doubly linked list under a mutex", "proxy/lookup.go")],
 ["results of Get, Size, IsEmpty"],
 [("Lookup", "open streams of one parity", "proxy/lookup.go")])

prop("C10", "Live-instance handles resolve to their own instance until removed",
 "A handle returned for an instance resolves to exactly that instance until it is removed, and to nothing afterwards; distinct live instances have distinct handles, removing succeeds exactly once, and unknown handles resolve to nothing without crashing. This holds for all interleavings of concurrent put, get and remove.",
 ["schedules", "histories"], "All sequences of put/get/remove up to a depth over a few instances and handles incl. never-issued ones, and all interleavings of two or three threads (up to a preemption bound).",
 "Untested; use-after-remove and double-remove need specific interleavings.",
 ["invoke/instances.go", "transform/transform.go"],
 [("map keyed by pointer under RWMutex", "invoke/instances.go")],
 ["results of Get/Put/Remove; transform.InterfaceEncode payloads"])

prop("C11", "A subscriber sees items, then at most one end, then nothing",
 "For every flux and mono (created, error, just, slice, processor, mapped, converted between flux and mono, with a source that emits any sequence of signals), a subscriber receives items in the order emitted, at most one completion or error, and no item or other end after an end or after cancelling. Its finally callback and every registered notification run exactly once, after the end, with the signal that matches how it ended, and a mapping that fails ends the sequence with that error, cancels the source and delivers nothing more.",
 ["histories", "inputs"], "All sequences of source signals (next, complete, error) and subscriber actions (request, cancel, notify) up to a depth, for every kind of publisher and every composition of mapping and conversion up to depth two, with mapping failures at every position.",
 "No rx test exists; misbehaviour needs signals after the end, failures in the middle, or callbacks registered at particular moments.",
 ["rx/flux/flux.go", "rx/flux/processor.go", "rx/flux/slice.go", "rx/flux/response.go", "rx/mono/mono.go", "rx/mono/processor.go", "transform/transform.go"],
 [("closed flag per subscriber", "rx/flux/flux.go, rx/mono/mono.go"), ("finally/notify fan-out", "rx/flux/flux.go finally, rx/mono/mono.go finally"), ("Map", "rx/flux/flux.go, rx/mono/mono.go")],
 ["callbacks OnNext/OnSuccess/OnComplete/OnError/Finally/Notify"])

prop("C12", "Demand is honoured: never more items than requested, and all that were",
 "A subscriber that controls its own demand never receives more items from a demand-driven source than it has requested in total, and receives min(requested, available) of them in order, followed by completion once the source is exhausted. A subscriber without explicit demand receives everything, and an on-request callback is invoked at subscription and again each time the demand is used up; this holds for every order in which requests and deliveries interleave, and deliveries are never concurrent with each other.",
 ["schedules", "histories"], "All request patterns up to a total over slices up to a length, directly and through mapping, with requests issued before, during and after deliveries, and all interleavings (up to a preemption bound) of two requesting threads with the delivering one.",
 "No test exercises demand; losing, duplicating or overdrawing demand depends on the order of request and delivery.",
 ["rx/flux/flux.go", "rx/flux/flux_host.go", "rx/flux/slice.go", "rx/flux/response.go"],
 [("demand counter and refill", "rx/flux/flux.go Request/Next/handleOnSubscribe"), ("serialised request delivery", "rx/flux/flux_host.go doRequest")],
 ["items delivered vs requested"])

prop("C13", "Waiting for a result neither hangs, nor loses it, nor sees it half-done",
 "Blocking on a mono or flux returns exactly once with the value or error that the source produced, whichever thread produces it and whenever: before, during or after the call that blocks. A completion callback registered while another thread completes the sequence runs exactly once, whichever comes first.",
 ["schedules"], "All interleavings (up to a preemption bound) of one thread blocking or registering a notification and one or two threads completing, failing or cancelling, over processors, created publishers, mapped and remote ones.",
 "The window between checking for completion and registering is a few instructions; tests never hit it.",
 ["rx/mono/mono_host.go", "rx/flux/flux_host.go", "rx/mono/mono.go", "rx/mono/processor.go", "proxy/mono_host.go", "rx/flux/flux.go", "rx/flux/processor.go"],
 [("Block", "rx/mono/mono_host.go, rx/flux/flux_host.go, proxy/mono_host.go"), ("Notify", "rx/mono/mono.go, rx/flux/flux.go"), ("processor hand-over", "rx/mono/processor.go")],
 ["return of Block, callback counts"])

prop("C14", "A flow runs its steps once each, in order, waiting for what each awaits",
 "A flow's steps run exactly once each and in order, each only after everything awaited by the previous step has ended, whether an awaited result was already there, arrives later, arrives in any order, or fails. A step error ends the flow's result with that error and no later step runs; ending the flow early runs no later step; and a step that awaits nothing does not stall the flow.",
 ["histories", "schedules"], "All flows up to three steps with up to two awaited results each, every result completing before, at, or after the wait, in every order and (up to a preemption bound) on every interleaving of two completing threads, and errors or end at every step.",
 "There is no flow test; step skipping, repetition and stalls depend on completion order.",
 ["rx/flow/flow.go", "rx/await/await.go"],
 [("next/check counting", "rx/flow/flow.go")],
 ["order of step executions and the final signal"])

prop("C15", "Every request gets its own answer, whatever the delivery order",
 "When two peers exchange request/response and fire-and-forget calls concurrently, each request handler runs exactly once with exactly the data and metadata that was sent, and each caller receives exactly one answer: the value or the error message its own request's handler produced, never another's. An unknown operation or malformed metadata is answered with an error on that request only, other requests are unaffected, a request or answer that cannot be sent ends its call with an error, when the connection ends every call in progress ends with an error, and answered requests leave nothing behind on either side.",
 ["schedules", "histories"], "All interleavings (up to a deviation bound) of two to three concurrent calls in either or both directions between two connected peers, with handlers that succeed, fail, complete later or call back, and all delivery orders of the frames.",
 "No test connects two peers; cross-talk, lost or duplicated answers need overlapping requests and specific schedules.",
 ["handler/handler.go", "handler/caller.go", "proxy/mono.go", "proxy/mono_host.go", "proxy/lookup.go"],
 [("registration by stream id", "handler/handler.go registerStream/getStream/removeStream"), ("remote mono", "proxy/mono.go")],
 ["caller's result, handler invocations, frames sent"])

prop("C16", "Streams and channels deliver in order within demand and always end",
 "In a stream or channel between two peers, the receiver gets the items in the order sent, never more than it has requested, and then the completion or error message of the sender; extra demand takes effect whenever it is sent, even before the responder has finished subscribing. Cancelling stops the remote source and ends only that stream, in a channel both directions flow independently until each has ended, a request or item that cannot be sent ends the stream with an error, when the connection ends every open stream ends on both sides, and a stream that has ended leaves nothing behind on either side.",
 ["schedules", "histories"], "All interleavings (up to a deviation bound) of requester, responder and frame deliveries for streams and channels of up to three items, with all split points of demand, cancellation at every point, and errors at every position.",
 "No test runs a stream between two peers; lost demand, over-delivery and leaks depend on frames arriving at specific moments.",
 ["handler/handler.go", "handler/caller.go", "proxy/flux.go", "rx/flux/flux.go", "rx/flux/flux_host.go"],
 [("requestStream / streamFlux", "handler/handler.go, proxy/flux.go"), ("initial demand and request-n", "proxy/flux.go Request, handler/handler.go HandleFrame")],
 ["items at the receiver, frames sent, registry size"])

prop("C17", "A misbehaving peer cannot crash or confuse the other side",
 "Whatever sequence of well-formed frames a peer sends - in any order, for any stream identifier, repeated, after completion, of the wrong kind for the stream, or with bad metadata - the receiving side does not panic or deadlock, and streams that the frames do not address are unaffected and still complete correctly. A frame for a stream that is unknown or already finished has no effect on anything else, in particular it does not take the connection down.",
 ["histories", "schedules"], "All sequences of frames up to a depth from an alphabet covering every frame type, on a fresh id, an open request/stream/channel id in both directions, a finished id and id zero, delivered to a handler with other calls in flight.",
 "No test sends an unexpected frame.",
 ["handler/handler.go", "proxy/mono.go", "proxy/flux.go", "transport/rsocket/transport.go"],
 [("HandleFrame dispatch", "handler/handler.go")],
 ["panics, returned errors, outcome of the unrelated call"])

prop("C18", "Frames sent over TCP arrive whole, unmixed, in order and unaltered",
 "Frames written to a connection by any number of concurrent senders arrive at the other end exactly as sent, each whole and exactly once, the frames of one sender in its order, for every way the byte stream is cut into reads and writes. What is handed to the receiver stays unchanged while later frames are read; a stream that ends inside a frame, or whose length prefix is invalid, ends with an error or end-of-stream after all complete frames have been delivered, and never with a partial frame.",
 ["schedules", "inputs", "fault_sequences"], "All ways to cut short streams of frames into reads (including data together with end-of-file), all truncation points, boundary frame sizes, and all interleavings (up to a preemption bound) of two or three concurrent senders on one connection.",
 "Nothing tests the transport; interleaved writes and buffer reuse need concurrency and specific read sizes.",
 ["transport/rsocket/decoder.go", "transport/rsocket/tcp_conn.go", "transport/rsocket/transport.go", "internal/u24/u24.go"],
 [("length-prefixed splitting", "transport/rsocket/decoder.go"), ("buffered writes and flush", "transport/rsocket/tcp_conn.go, transport/rsocket/transport.go Send")],
 ["frames returned by Conn.Read / dispatched to the handler"])

prop("C19", "A connection dispatches frames in order after setup and always shuts down",
 "A server connection becomes ready only after a setup frame has been received and handled, and ends with an error without dispatching anything if the first frame is something else or cannot be read; afterwards every received frame is dispatched exactly once and in order. When the peer disconnects, a read fails, a frame cannot be handled, the context is cancelled or the connection is closed, the connection's run ends, everything received before is dispatched, the underlying connection is closed exactly once, a handler that can be closed is closed, and no thread stays behind - including whoever was waiting for it to become ready -, and a server forgets the connection; a server that is closed, at any time, ends its run, its listener and its connections.",
 ["schedules", "fault_sequences", "histories"], "All sequences of connection events up to a depth (frames of each kind, malformed first frame, read error, end-of-file, handler error, close, cancel) and all interleavings (up to a preemption bound) of reader, dispatcher, closer and waiter.",
 "No transport test exists; shutdown races and leaked goroutines are schedule-dependent.",
 ["transport/rsocket/transport.go", "transport/rsocket/tcp_transport.go", "internal/buffer/unbounded.go"],
 [("read loop, dispatch loop, dispose and join", "transport/rsocket/transport.go Start/loopReadBuffer"), ("server accept loop", "transport/rsocket/tcp_transport.go Listen")],
 ["frames given to the handler, return of Start, connection closed, blocked threads"])

prop("C20", "The WebAssembly host bridges calls both ways and closes cleanly",
 "Every frame the host sends is handed to the guest whole and in order within the shared buffer's bounds, and every frame the guest sends is processed in order; each call from the host to the guest and from the guest to the host gets exactly its own answer or error, with demand and cancellation honoured for streams. A frame that does not fit the buffer or that the guest fails on ends its call with an error. Closing an instance lets the guest's calls in flight finish, then stops it: close returns, never crashes, every call of the host ends with its answer or an error, and a guest calling an operation that is not linked gets a not-found error and does not keep the instance from closing.",
 ["schedules", "histories", "fault_sequences"], "All sequences of guest-side and host-side calls up to a depth over all four interaction kinds, linked and unlinked, with every placement of close, explored (up to a deviation bound) over all interleavings of the instance's loops and handlers.",
 "Only a benchmark exists for the host, and it needs a compiled guest that is not in the repository.",
 ["transport/wasmrs/host/instance.go", "transport/wasmrs/host/host.go", "transport/wasmrs/host/caller.go"],
 [("send and receive loops", "transport/wasmrs/host/instance.go sendLoop/recvLoop"), ("active request accounting and Close", "transport/wasmrs/host/instance.go Close/reduceActiveRequests")],
 ["frames seen by the guest module, results at the host, return of Close"])

prop("C21", "The WebAssembly guest answers every frame the host sends it",
 "For every sequence of frames the host puts in the guest's buffer, in one or several sends, the guest runs the addressed operation once with the data sent and sends back its answer, items within the requested demand, or an error - in order, whole, and within the host buffer's bounds. Calls the guest makes to the host are sent as requests with fresh odd stream ids and complete with the host's answer; frames for unknown streams are ignored without stopping the frames after them.",
 ["histories", "inputs"], "All sequences of frames up to a depth over all interaction kinds, known/unknown operations and streams, demand patterns and handler behaviours, and all ways to group them into sends.",
 "The guest code has no test: it is only reachable inside a WebAssembly module.",
 ["transport/wasmrs/guest/guest.go", "transport/wasmrs/guest/caller.go", "proxy/flux.go", "proxy/mono.go", "rx/flux/flux_webassembly.go"],
 [("frame loop over the shared buffer", "transport/wasmrs/guest/guest.go GuestSend"), ("sendFrame", "transport/wasmrs/guest/guest.go")],
 ["frames passed to the host's send import"])

prop("C22", "The mesh links every import to the current provider of that operation",
 "After loading any set of modules in any order, each imported operation for which some loaded module exports the same namespace, operation and kind is linked to it with the provider's own index, and calls through the mesh or through the import reach that module; an import nobody provides stays unlinked until a provider is loaded. When a provider is loaded again, calls made afterwards reach the new instance, and those in progress are answered once by the instance they reached, which has a while for it (not less than 0.2 s) before it is closed, or fail when it is closed. The caller's payload is not changed, so the same one can be used for several calls.",
 ["histories", "configurations"], "All load orders of up to three modules over all small configurations of exported and imported operations (all four kinds, same and different indices, same names), including reloads, also while calls are in progress.",
 "The mesh has no test; mislinking depends on load order and on index differences between modules.",
 ["transport/wasmrs/mesh/mesh.go"],
 [("linkOperations and pending imports", "transport/wasmrs/mesh/mesh.go"), ("destination index rewriting", "transport/wasmrs/mesh/mesh.go destination")],
 ["which module receives a call and with which operation index"])

prop("C23", "Reading custom sections returns exactly the requested ones, intact",
 "For any well-formed WebAssembly binary, reading custom sections by name returns exactly the sections with the requested names and their exact bytes, regardless of the other sections around them (any one of them where several have the same name). For bytes whose header or section structure is malformed or cut short it returns an error; it never panics, never returns data that is not in the file, and never allocates memory out of proportion to the file.",
 ["inputs"], "All sequences of up to three sections over wanted, unwanted, empty, duplicate and non-custom sections, and all truncations and length-field corruptions of those binaries, plus all short byte strings after the header.",
 "The reader has no test.",
 ["transport/wasmrs/customsections/customsections.go"],
 [("section walk with size check", "transport/wasmrs/customsections/customsections.go Read")],
 ["returned map or error"])

prop("C24", "UUIDs parse, print, and are generated correctly and uniquely",
 "Every UUID printed in canonical form parses back to itself from every accepted textual form, and any other text is rejected with an error without panicking; text and binary marshalling round-trip. Generated random UUIDs carry the version and variant of random UUIDs, use fresh random bytes for each UUID, also when drawn concurrently from the random pool or after the pool is switched, and consecutive time values never repeat: each has a later time or the next clock sequence.",
 ["inputs", "schedules"], "All byte positions with all byte values in each accepted form, all lengths up to a bound, all mutations of a valid text; all interleavings (up to a preemption bound) of concurrent generation with and without the pool.",
 "The fork carries no tests at all.",
 ["types/uuid/uuid.go", "types/uuid/version4.go", "types/uuid/marshal.go", "types/uuid/time.go", "types/uuid/util.go"],
 [("Parse/String", "types/uuid/uuid.go"), ("pool position under mutex", "types/uuid/version4.go"), ("clock sequence under mutex", "types/uuid/time.go")],
 ["returned UUIDs, errors, bytes consumed from the random source"])

prop("C25", "Typed payload transforms and nil-aware conversions are faithful",
 "Encoding any value with a typed transform and decoding the payload with the same transform gives the value back, also for slices, maps, codecs and times, decoding malformed payloads yields an error and never a panic, and encoding a value whose codec fails yields that error. Conversions pass values and errors through unchanged, map nil to nil, and never panic.",
 ["inputs"], "Every transform over all boundary values of its type, every conversion over nil/non-nil and error/no error, and all truncations of every encoding produced.",
 "No test covers the transforms or conversions.",
 ["transform/transform.go", "msgpack/convert/convert.go", "payload/payload.go"],
 [("Decode/Encode pairs", "transform/transform.go"), ("nillable conversions", "msgpack/convert/convert.go")],
 ["decoded values and errors"])

prop("C26", "Connected applications reach each other's operations until the connection ends",
 "When an application connects to a server over a socket, the server's application is handed a caller once the setup has been handled; through it every operation that the client exported is found by its name and kind, and calls and streams of either side are answered by the other's handlers, in either direction, also while calls overlap, several applications are connected, and the network delivers the bytes in pieces. Dialling where nothing listens yields an error. When the connection is cut or closed, or either side is closed or cancelled, at any time, then the client's run and (for the server) Listen return, every call in progress ends once, with an error, sources are cancelled, the other applications' connections go on, sockets are closed, and no goroutine stays behind.",
 ["schedules", "fault_sequences", "inputs", "configurations"], "The real client, server, transport, handler, buffer and reactive code over a network in memory: all schedules within a delay bound, of every kind of call in both directions, with one to three applications, networks that hold and deliver only a few bytes at a time, and the connection cut, closed or cancelled before each single network operation.",
 "No test connects a client to a server, none covers two directions, overlapping calls, or the end of a connection.",
 ["transport/rsocket/init.go", "transport/rsocket/transport.go", "transport/rsocket/tcp_transport.go", "transport/rsocket/tcp_conn.go", "handler/handler.go"],
 [("NewServer/Listen/Accept/Close", "transport/rsocket/tcp_transport.go"), ("Connect/NewClient/Handler", "transport/rsocket/init.go"), ("Transport", "transport/rsocket/transport.go")],
 ["results of the calls on both sides", "what handlers were called with", "return of Connect and Listen", "sockets closed", "goroutines that remain"])

prop("C27", "wasmrs-ops adds a module's table of operations and changes nothing else",
 "For every module that the host can load and that has no wasmrs_ops section, wasmrs-ops adds one such section, which lists exactly the operations that the module announces when it runs, and shows them; every other section of the module stays as it is, byte for byte and in order, whatever sections it has (also custom sections, names, passive segments). A module that has the section is not touched, and the operations of its section are shown; so a second run changes nothing. For a file that is missing, not a module, cut short, or has a malformed table, or that cannot be written, the program fails and leaves the file as it is.",
 ["programs", "inputs"], "The real program on real guests: all tables of up to two (three) operations from a pool over kinds, directions, names and indexes, sizes around the borders of length fields, all placements of one or two custom sections, name sections, further sections, the table ready at different times, and all truncations of the module and of the table.",
 "The program has no test.",
 ["transport/wasmrs/cmd/wasmrs-ops/main.go", "transport/wasmrs/customsections/customsections.go", "operations/operatons.go", "transport/wasmrs/host/module.go"],
 [("main", "transport/wasmrs/cmd/wasmrs-ops/main.go"), ("getOperationListFromModule", "transport/wasmrs/cmd/wasmrs-ops/main.go")],
 ["content of the file", "exit code", "operations shown"])

prop("C28", "wasmrs invoke gives an operation the JSON it reads and prints its answer as JSON",
 "For every JSON document on its input, wasmrs invoke loads the modules, in any order, calls the request-response operation with the given namespace and name (at its own index, of the module loaded last if several have it) with that value, also through the imports of other modules, and prints the answer as exactly one JSON document with the same value, plain or pretty. It fails with a message, without printing an answer, when the input is not exactly one JSON document, a module cannot be loaded, no module has the operation, the guest fails or the answer cannot be read or written as JSON. It always ends, if the guest answers or fails.",
 ["programs", "inputs", "configurations"], "The real program on real guests: documents up to a depth over boundary scalars and sizes, truncated and malformed documents, answers in every MessagePack format with boundary values and their truncations, all assignments of indexes to two operations, all loading orders of chains of up to three (four) modules, failing guests and broken files.",
 "The program has no test.",
 ["transport/wasmrs/cmd/wasmrs/commands/invoke.go", "transport/wasmrs/cmd/wasmrs/main.go", "transport/wasmrs/mesh/mesh.go", "transport/wasmrs/host/instance.go"],
 [("InvokeCmd.Run", "transport/wasmrs/cmd/wasmrs/commands/invoke.go")],
 ["standard output", "exit code", "messages"])

prop("C29", "Typed clients, handlers and components carry values faithfully",
 "For each service in the repository, a call through its typed client runs the registered handler once with exactly the arguments given, whatever strings or numbers they are, and its result, items or error reach the caller unchanged, within the demand, in either direction and while calls overlap. A request whose bytes are not one complete map of fields is answered with an error without running the handler; fields may come in any order, and unknown ones are skipped. A component reached through a channel answers on its output port with the value that its inputs determine and then completes; word counts are complete, regardless of case, and come most frequent first.",
 ["inputs", "schedules", "histories"], "All pairs of boundary strings, numbers and outcomes through every typed client, under every schedule with few delays of two connected handlers; every request of a few bytes over the format bytes, maps with every pair of known, unknown and repeated fields and all truncations; all short word sequences and ways they end.",
 "The clients, handlers and components have no test.",
 ["transport/wasmrs/mesh/modules", "transport/wasmrs/example", "example/greeter/greeter.go", "transform/transform.go", "msgpack/decoder.go", "handler/handler.go"],
 [("RegisterConcat", "transport/wasmrs/mesh/modules/concat/export.go"), ("Concat", "transport/wasmrs/mesh/modules/concat/import.go"), ("SayHello", "transport/wasmrs/mesh/modules/greeting/import.go"), ("Uppercase.Uppercase", "transport/wasmrs/example/uppercase.go"), ("wordFrequencyHandler", "transport/wasmrs/example/wordfrequency/generated.go")],
 ["arguments of handlers", "results, items and errors of calls", "port messages"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
