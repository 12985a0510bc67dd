#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

H1=["src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/proto/h1/io.rs"]
p("C01","HTTP/1 server hands its service exactly the requests the bytes define",
 "For every byte stream a client sends, however it is split into reads, delayed or interleaved with the server's own work, the requests an HTTP/1 server hands to its service (method, target, version, header fields, body bytes, trailers and the boundaries between requests) are exactly those that a single sequential reading of the stream under the HTTP/1.1 message-framing rules defines. Bytes of one request's body are never interpreted as part of another request, nor the other way round. A head or body whose syntax or framing is invalid (conflicting lengths included) is never delivered as a complete valid request, and once it is met nothing later on that connection reaches the service.",
 ["inputs","schedules","fault_sequences"],"all request streams (pipelined or not, valid or malformed), all segmentations and delays of them, all service behaviours (read, ignore, drop, delay the body) and all write backpressure",
 "The suite sends each request whole or in a couple of hand-chosen pieces on a real or mock socket; no test re-delivers the same stream under arbitrary splits while the service is stalled or the write side is blocked.",
 H1+["src/proto/h1/role.rs","src/proto/h1/decode.rs","src/headers.rs"],
 [("incremental head parse with partial-read memory","src/proto/h1/role.rs is_complete_fast, Server::parse; src/proto/h1/io.rs Buffered::parse"),("body decoder state machines","src/proto/h1/decode.rs Decoder::decode"),("framing selection, duplicate/ambiguous length rejection","src/proto/h1/role.rs Server::parse"),("reading only when the previous message is finished","src/proto/h1/conn.rs State, try_keep_alive, can_read_head")],
 [("state.reading","where in the current request the reader is","src/proto/h1/conn.rs"),("partial_len","bytes already scanned for the end of head","src/proto/h1/io.rs")],
 ["requests and body frames seen by the Service","bytes injected by the simulated transport"])
p("C02","HTTP/1 client returns exactly the response the bytes define for its request",
 "For every byte stream a server sends, however it is split into reads or delayed, the response an HTTP/1 client returns for a request (status, version, header fields, body bytes, trailers) is exactly the one that a single sequential reading of the stream under the HTTP/1.1 framing rules defines for that request's method, including bodiless responses (HEAD, 1xx, 204, 304, successful CONNECT), length-delimited, chunked and close-delimited bodies. Bytes that follow a response are never attributed to an earlier response or to a request that had not yet been sent. A response whose syntax or framing is invalid is reported as an error and never as a valid complete response.",
 ["inputs","schedules","fault_sequences"],"all response streams, all segmentations/delays/connection endings, all orders of sending requests and reading bodies",
 "Tests feed responses whole through a real socket; segmentation, timing of reads against the next request, and unsolicited bytes are sampled at a few points only.",
 H1+["src/proto/h1/role.rs","src/proto/h1/decode.rs","src/client/conn/http1.rs"],
 [("response parse and decoder selection","src/proto/h1/role.rs Client::parse, Client::decoder"),("close-delimited bodies","src/proto/h1/decode.rs Kind::Eof"),("rejecting bytes while idle","src/proto/h1/conn.rs require_empty_read, poll_read_head")],
 None,["responses and body frames returned to the caller"])
p("C03","HTTP/1 server writes each response exactly, once, in request order",
 "Whatever the transport accepts per write (partial writes, refusals, vectored or not) and in whatever order services, body producers and reads make progress, the bytes an HTTP/1 server writes are the concatenation, in request order, of one correctly framed message per answered request that carries exactly the status, header fields, body bytes and trailers the service supplied plus only the fields the server itself must add. No byte is lost, duplicated, reordered or interleaved between messages, body framing always matches the declared length or chunking, and responses that must not have a body (HEAD, 204, 304) have none. A protocol-error or interim response the server generates itself appears at its place in this order too.",
 ["schedules","inputs","fault_sequences"],"all response shapes, buffer sizes, write strategies, partial-write patterns, and interleavings of body production, socket readiness and further (also malformed) pipelined requests",
 "Tests use sockets that accept every write at once; partial vectored writes and blocked sockets while the next request is parsed are never exercised.",
 H1+["src/proto/h1/encode.rs","src/proto/h1/role.rs","src/common/buf.rs"],
 [("two-part write buffer with flatten/queue strategies","src/proto/h1/io.rs WriteBuf, Buffered::poll_flush"),("body encoder","src/proto/h1/encode.rs Encoder"),("head encoding","src/proto/h1/role.rs Server::encode"),("write gating","src/proto/h1/dispatch.rs poll_write; src/proto/h1/conn.rs can_write_head, can_buffer_body")],
 [("headers.pos / queue","bytes already written","src/proto/h1/io.rs")],["bytes accepted by the simulated transport, in order"])
p("C04","HTTP/1 client writes each request exactly, once, in submission order",
 "Whatever the transport accepts per write and however body production interleaves with it, the bytes an HTTP/1 client writes are the concatenation, in submission order, of one correctly framed message per sent request carrying exactly the method, target, header fields, body bytes and trailers the caller supplied plus only the framing fields required. No byte is lost, duplicated, reordered or written for a request the caller did not submit. A request is not written before the previous exchange on the connection has finished.",
 ["schedules","inputs","fault_sequences"],"all request shapes, buffer settings, partial-write patterns, body-producer timings and early responses",
 "Tests check a handful of literal request texts on sockets that accept whole writes.",
 H1+["src/proto/h1/encode.rs","src/proto/h1/role.rs","src/client/conn/http1.rs","src/client/dispatch.rs"],
 [("head encoding and framing choice","src/proto/h1/role.rs Client::encode, set_length"),("write buffer","src/proto/h1/io.rs"),("one request in flight","src/proto/h1/dispatch.rs Client::poll_msg; src/proto/h1/conn.rs")],
 None,["bytes accepted by the simulated transport"])
p("C05","A truncated incoming message is never presented as complete",
 "If the transport ends, is reset, fails or the connection task is dropped before all the bytes that an incoming message's framing calls for have arrived, the reader of that message's body (request body on a server, response body on a client, HTTP/1 and HTTP/2) gets a prefix of the bytes, in order, and then an error, and never a clean end of body. Conversely a message whose bytes all arrived is readable to a clean end unless the connection task was dropped first. For a message whose length only the end of the connection marks, only an orderly end of the transport counts as its end. (An HTTP/2 stream that its sender resets with NO_ERROR may end early without an error, unless a declared length is outstanding; and over HTTP/2 the converse holds while the connection has not failed.)",
 ["crash_points","fault_sequences","schedules","inputs"],"every byte offset and moment at which the connection can end (EOF, reset, I/O error, stream reset, dropped connection task), for each body framing",
 "Tests cut the stream at two or three hand-chosen offsets; the cut must be tried at every offset and against every reader/connection interleaving.",
 ["src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/body/incoming.rs","src/proto/h2/client.rs","src/proto/h2/server.rs"],
 [("EOF inside a body is an error","src/proto/h1/decode.rs"),("abort on drop of the body sender","src/proto/h1/dispatch.rs SenderDropGuard, src/body/incoming.rs Sender::send_error"),("h2 error mapping on body","src/body/incoming.rs poll_frame")],
 None,["frames and end/err seen by the body reader"])
p("C06","A failed or short outgoing body is never sent as a complete message",
 "When an outgoing body fails, ends before the length that was declared for it, or is abandoned because its connection is dropped, the peer can never read the resulting bytes as a complete message: there is no final chunk, the declared length is not reached by padding or by bytes of another message, and an HTTP/2 stream is reset instead of ended. An HTTP/1 connection on which this happened carries no further message in that direction, and the error is reported to the party driving the connection or awaiting the request. A body that offers more bytes than its declared length never puts the excess on an HTTP/1 wire.",
 ["fault_sequences","schedules","inputs"],"every point at which a body producer can fail or stop, with every amount of previously buffered and unflushed data, for each framing and both roles",
 "Existing tests fail a body at one fixed point with an idle socket.",
 ["src/proto/h1/encode.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/proto/h2/mod.rs"],
 [("encoder end checks","src/proto/h1/encode.rs Encoder::end"),("end_body / abort on error","src/proto/h1/conn.rs end_body, src/proto/h1/dispatch.rs poll_write"),("reset on body error","src/proto/h2/mod.rs PipeToSendStream")],
 None,["wire bytes as decoded by an independent parser","connection future result"])
p("C07","Every client request has exactly one outcome, its own, and errors are honest",
 "Every request submitted through a client handle (HTTP/1 or HTTP/2) resolves exactly once, with either the response to that very request or an error, in every interleaving of submissions, cancellations, connection failures, shutdowns and drops of the connection or of handles. When an error hands the request back as unsent, or is classified as cancelled before being sent, no byte of that request was put on the wire; a request submitted so that it can be handed back is handed back, untouched, whenever its error says it was cancelled before being sent. An error never blames the caller unless the caller's body failed or the connection task was dropped. No request is silently dropped, sent twice, or given another request's response.",
 ["schedules","crash_points","histories","fault_sequences"],"all interleavings of concurrent submitters, cancelling callers, the connection task, and connection death at any instant",
 "Tests race one request with one shutdown on real sockets; the interleavings are whatever the OS gives.",
 ["src/client/dispatch.rs","src/client/conn/http1.rs","src/client/conn/http2.rs","src/proto/h1/dispatch.rs","src/proto/h2/client.rs"],
 [("callback/envelope drop guarantees","src/client/dispatch.rs Envelope, Callback, Receiver"),("want/give handshake","src/client/dispatch.rs Sender::poll_ready, can_send"),("returning unsent messages","src/client/dispatch.rs TrySendError; src/proto/h1/dispatch.rs Client::recv_msg; src/proto/h2/client.rs")],
 None,["the caller's futures","requests parsed off the wire"],"preemption points inside client/dispatch.rs (cfg hyper_sim)")
p("C08","HTTP/1 connections are reused only when both messages allow it",
 "An HTTP/1 connection carries another exchange only if the previous request and response were both completely framed and transferred and both sides allowed persistence by version, Connection header and configuration; a server that knows, when it writes the head of the response to a well-formed request, that it will not reuse the connection says so in it wherever the client could otherwise expect reuse, and then closes. When persistence is allowed and nothing has failed the connection is in fact kept usable, so a compliant peer's next request on it is served. A client handle never reports ready, nor sends a further request, on a connection that must close.",
 ["histories","inputs","schedules"],"all sequences of exchanges mixing HTTP/1.0 and 1.1, Connection header values, body framings, early responses, partially read bodies and keep-alive settings",
 "Tests try individual header combinations with one or two requests and friendly timing.",
 ["src/proto/h1/conn.rs","src/proto/h1/role.rs","src/proto/h1/dispatch.rs","src/headers.rs"],
 [("keep-alive state machine","src/proto/h1/conn.rs KA, State::try_keep_alive, fix_keep_alive, enforce_version, disable_keep_alive"),("parsing of Connection","src/headers.rs connection_keep_alive/connection_close; src/proto/h1/role.rs")],
 [("state.keep_alive","whether the connection may be reused","src/proto/h1/conn.rs")],["wire bytes, connection end, readiness of SendRequest"])
p("C09","Connections always make progress: no lost wakeups, stalls or busy loops",
 "If every party keeps doing its part (the peer sends what it promised and reads what it is sent, services and body producers and consumers eventually act), every exchange on a connection, HTTP/1 or HTTP/2, client or server, finishes within a bounded number of scheduler steps, even when each task is polled only after one of the wake-ups it most recently asked for. No task spins: with nothing to do the connection stays idle without waking itself, and unrelated tasks get to run. This holds for all orders of readiness, partial I/O, and handoff between caller tasks and connection tasks.",
 ["schedules","inputs","configurations"],"all task interleavings, readiness orders and partial reads/writes under fault-free (only slow) transports",
 "A lost wake-up shows only in one interleaving; Tokio's scheduler on a loopback socket rarely produces it and a test that hangs once is considered flaky.",
 ["src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/body/incoming.rs","src/common/watch.rs","src/client/dispatch.rs","src/proto/h2/client.rs","src/proto/h2/server.rs","src/proto/h2/mod.rs","src/proto/h2/upgrade.rs"],
 [("poll loop with bounded iterations and explicit yield","src/proto/h1/dispatch.rs poll_loop"),("read/write wakeups","src/proto/h1/conn.rs maybe_notify, wants_read_again"),("body demand signalling","src/common/watch.rs; src/body/incoming.rs Sender::poll_ready"),("h2 task plumbing","src/proto/h2/client.rs ConnTask, PipeMap, SendWhen")],
 None,["quiescence of the simulated executor with unfinished exchanges"],"preemption points at shared atomics (cfg hyper_sim)")
p("C10","Graceful shutdown finishes admitted work, admits no more, then ends",
 "After graceful shutdown is requested at any moment on a server connection (HTTP/1 or HTTP/2), every request already handed to the service still gets its complete response, and the connection then closes in an orderly way and its future completes without error. An idle connection closes promptly, no request beyond those the protocol lets the peer still consider accepted is handed to the service, and HTTP/1 peers are told the connection will close when a response is still to be sent. An HTTP/2 peer is told (GOAWAY) which streams will be processed, and every stream at or below that mark is processed.",
 ["schedules","crash_points","histories"],"every instant (every scheduler step) at which shutdown can be requested, in every phase of requests, bodies and handshakes",
 "Tests call it at four or five hand-picked moments.",
 ["src/server/conn/http1.rs","src/server/conn/http2.rs","src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/proto/h2/server.rs"],
 [("disable keep-alive / close when idle","src/proto/h1/conn.rs disable_keep_alive; src/proto/h1/dispatch.rs disable_keep_alive"),("h2 graceful shutdown","src/proto/h2/server.rs graceful_shutdown, Handshaking/Serving states")],
 None,["connection future, service calls, wire"])
p("C11","HTTP/1 header read timeout fires exactly when a head is late",
 "With a header read timeout configured, a server connection on which a request head has not been completely received within that time, counted from when the server starts waiting for that head, ends with a timeout error at that deadline whatever pattern of partial bytes arrives. A head that is complete in time never causes a timeout, and the time spent in request bodies, in the service or in writing responses never counts. Each request on a kept-alive connection gets the full period anew, and the service never sees a request from a connection that timed out waiting for it.",
 ["schedules","histories","configurations"],"all arrival patterns of head bytes in simulated time, all timeout values, keep-alive sequences, slow bodies, services and writes",
 "Tests use two real-time cases with wide margins; simulated time lets every deadline race be placed exactly.",
 ["src/proto/h1/conn.rs","src/proto/h1/io.rs","src/server/conn/http1.rs","src/common/time.rs"],
 [("header timer start/cancel","src/proto/h1/conn.rs poll_read_head h1_header_read_timeout_fut/_running"),("timeout configuration and default","src/server/conn/http1.rs header_read_timeout, timer")],
 [("h1_header_read_timeout_running","whether the head deadline is armed","src/proto/h1/conn.rs")],["connection future result and its simulated time"])
p("C12","HTTP/2 keep-alive and ping machinery act at the configured times",
 "With HTTP/2 keep-alive configured, a connection whose peer stays silent is probed after the configured interval without received frames (for a client without open streams only if probing while idle was asked for) and is ended within the configured timeout after an unanswered probe, failing every exchange on it that still waits for its response with a timeout error and every unfinished body with an error. A peer that answers probes in time is never disconnected by it however slow its responses are, and without the option the connection is never ended by silence. Adaptive window probing never changes what data is delivered.",
 ["schedules","fault_sequences","configurations"],"all patterns of peer silence, stalls, late or lost answers and traffic, all interval/timeout values, client and server",
 "Tests use a few real-time cases; intervals, stalls and data patterns must be swept in simulated time.",
 ["src/proto/h2/ping.rs","src/proto/h2/client.rs","src/proto/h2/server.rs"],
 [("KeepAlive state machine","src/proto/h2/ping.rs KeepAlive::maybe_schedule/maybe_ping/maybe_timeout"),("last-read bookkeeping","src/proto/h2/ping.rs Recorder::record_data/record_non_data"),("BDP estimator","src/proto/h2/ping.rs Bdp")],
 None,["PING frames on the wire with simulated timestamps; connection result"])
p("C13","Upgrades hand over the exact byte stream, and only when agreed",
 "When an upgrade (HTTP/1.1 101, HTTP/1 CONNECT 2xx, HTTP/2 CONNECT 2xx) is agreed, each side that asked for it gets the connection's bytes from exactly after the handshake messages: everything the peer sent is read once, in order, with no HTTP bytes mixed in and nothing lost, including bytes already buffered, and everything written is delivered up to an orderly close, which is seen as end of stream, while an abnormal end is seen as an error (over HTTP/2 a stream reset with NO_ERROR or CANCEL, which is what dropping an end before its peer has finished amounts to, reads as an end of stream). The handshake response itself is completely written before any tunnel byte. An upgrade that is not agreed, or whose connection dies first, makes every pending upgrade waiter resolve with an error and never with a transport.",
 ["schedules","inputs","fault_sequences"],"all splits of the bytes around the switch, all partial writes, close/reset moments and orders of writer, reader and connection tasks",
 "Tests send a couple of fixed payloads; loss needs a close racing with a blocked write.",
 ["src/upgrade.rs","src/proto/h1/dispatch.rs","src/proto/h1/conn.rs","src/client/conn/http1.rs","src/server/conn/http1.rs","src/proto/h2/upgrade.rs","src/proto/h2/client.rs","src/proto/h2/server.rs","src/common/io/rewind.rs"],
 [("rewound buffer","src/common/io/rewind.rs"),("pending upgrade fulfilment","src/upgrade.rs; src/proto/h1/dispatch.rs poll_catch; src/client/conn/http1.rs UpgradeableConnection"),("h2 tunnel send task","src/proto/h2/upgrade.rs")],
 None,["bytes read/written on hyper::upgrade::Upgraded and by the raw peer"],"preemption points in proto/h2/upgrade.rs (cfg hyper_sim)")
p("C14","100-continue and interim responses happen when due and never corrupt",
 "An HTTP/1.1 server sends 100 Continue for a request that expects it exactly when the service first asks for the body before having answered, at most once, before any part of the final response, and never otherwise. A client skips interim responses of any number, delivers each to the interim callback when one was registered, in order, and returns the final response unaltered. Neither ever desynchronises the connection's framing.",
 ["schedules","inputs"],"all relative orders of body polling, final response, body arrival and write readiness; any number and split of interim responses",
 "Tests cover fixed orders only.",
 ["src/proto/h1/conn.rs","src/proto/h1/decode.rs","src/proto/h1/role.rs","src/ext/informational.rs","src/proto/h1/dispatch.rs"],
 [("deferred continue","src/proto/h1/conn.rs Reading::Continue, poll_read_body, maybe_notify"),("client 1xx loop","src/proto/h1/role.rs Client::parse")],
 None,["wire bytes from server; response and callback on client"])
p("C15","HTTP/2 exchanges are delivered faithfully under any multiplexing",
 "On an HTTP/2 connection every request reaches the service, and every response reaches its caller, with exactly the method, target, status, header fields, body bytes and trailers that were sent for that stream, in order and complete, whatever number of streams are interleaved, however frames are split on the transport, and whatever flow-control windows or buffer sizes are in force. Body length information exposed to the reader agrees with the bytes delivered, messages without body end at their headers, and connection-specific header fields are never sent. Nothing of one stream ever appears in another.",
 ["schedules","inputs","configurations"],"all stream interleavings, window and frame-size settings, partial I/O, body chunkings, and speeds of readers and writers",
 "Tests run a few streams on loopback with default windows.",
 ["src/proto/h2/client.rs","src/proto/h2/server.rs","src/proto/h2/mod.rs","src/body/incoming.rs","src/client/conn/http2.rs","src/server/conn/http2.rs"],
 [("body piping with capacity","src/proto/h2/mod.rs PipeToSendStream"),("request/response conversion","src/proto/h2/client.rs, src/proto/h2/server.rs H2Stream::poll2"),("receive body with flow-control release","src/body/incoming.rs Kind::H2")],
 None,["service requests, client responses, frames tapped on the simulated transport"])
p("C16","Backpressure: buffering and concurrency stay bounded on every connection",
 "Data that the consumer has not asked for is not read without bound: when a body reader stops, the amount the connection takes from the transport for that message stays within its configured buffer or window, and when the transport stops accepting, the amount taken from a body producer stays within the configured write buffer (HTTP/1) or send buffer (HTTP/2). When the consumer or transport resumes, transfer resumes with nothing lost. A server runs at most one HTTP/1 request per connection at a time and no more concurrent HTTP/2 requests than configured.",
 ["schedules","configurations","inputs"],"all stall patterns of readers and transports, all buffer/window settings, body sizes far beyond them",
 "No test measures consumption against an arbitrarily stalled peer.",
 ["src/proto/h1/io.rs","src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/body/incoming.rs","src/proto/h2/mod.rs","src/proto/h2/client.rs","src/proto/h2/server.rs"],
 [("max_buf_size / can_buffer","src/proto/h1/io.rs"),("body channel of capacity 0 plus want","src/body/incoming.rs channel; src/common/watch.rs"),("h2 capacity reservation","src/proto/h2/mod.rs"),("flow control release on consumption","src/body/incoming.rs")],
 None,["bytes taken from transport and from body producers"])
p("C17","Configured and built-in protocol limits hold however bytes arrive",
 "Limits on an HTTP/1 head (buffer size up to its bounded read-ahead, number of headers, target length), on chunk extensions and on trailers, and the HTTP/2 settings (concurrent streams, frame size, windows, header list size), whether default or configured, decide acceptance by the content alone: the same bytes are accepted or rejected alike under every segmentation. Whatever is within the limits is accepted, and whatever exceeds them is refused with the documented status (400, 414, 431) or connection error instead of being delivered or buffered on. HTTP/2 settings advertised to the peer are the configured ones.",
 ["inputs","schedules","configurations"],"sizes just below, at and above each limit, under all segmentations and configurations",
 "Tests check single sizes delivered at once; several historical bugs were limits that depended on how bytes were split.",
 ["src/proto/h1/io.rs","src/proto/h1/role.rs","src/proto/h1/decode.rs","src/proto/h1/conn.rs","src/proto/h2/server.rs","src/proto/h2/client.rs","src/server/conn/http1.rs","src/client/conn/http1.rs"],
 [("max_buf_size check on partial head","src/proto/h1/io.rs Buffered::parse"),("max_headers, MAX_URI_LEN","src/proto/h1/role.rs"),("chunk extension and trailer limits","src/proto/h1/decode.rs"),("settings","src/proto/h2/{client,server}.rs")],
 None,["status written, error returned, service calls"])
p("C18","No peer behaviour or fault panics, wedges or corrupts a connection",
 "Whatever bytes a peer sends on a connection (HTTP/1 or HTTP/2, to a server or a client), and whatever transport errors, resets, stalls or half-closes occur, no panic happens and no unbounded memory or work is consumed; once the transport has ended the connection future completes with success or an error, every pending request, body and upgrade on it resolves, and other connections are unaffected. An I/O error or protocol violation that interrupted an exchange is reported as an error and never swallowed as success.",
 ["inputs","fault_sequences","schedules"],"arbitrary and mutated byte streams, faults at every operation, both roles and versions",
 "Tests contain a list of specific malformed inputs delivered over a working socket.",
 H1+["src/proto/h1/role.rs","src/proto/h1/decode.rs","src/proto/h2/client.rs","src/proto/h2/server.rs","src/error.rs"],
 [("error paths","src/proto/h1/conn.rs on_parse_error, on_read_head_error; src/proto/h1/dispatch.rs poll_catch"),("h2 error mapping","src/error.rs new_h2; src/proto/h2/*")],
 None,["panics, connection futures, pending futures"])
p("C19","The Date header follows the clock and the configuration",
 "Every response a server writes (HTTP/1 or HTTP/2) for which the service supplied no Date and automatic dates are enabled carries exactly one well-formed Date whose value is at most about one second behind and never ahead of the system clock at the time it is written, for every pattern of request times including long idle gaps. A Date supplied by the service is sent unchanged and alone, and with automatic dates disabled none is added.",
 ["schedules","configurations","histories"],"all sequences of request times under a (forward-moving, possibly jumping) clock; all header settings",
 "Tests only compare with the real current second; cache expiry at sub-second boundaries is not controllable there.",
 ["src/common/date.rs","src/proto/h1/role.rs","src/proto/h2/server.rs","src/server/conn/http1.rs","src/server/conn/http2.rs"],
 [("per-thread cached date with expiry","src/common/date.rs CachedDate"),("insertion into responses","src/proto/h1/role.rs Server::encode; src/proto/h2/server.rs")],
 None,["Date values on the wire against the simulated clock"])
p("C20","Incoming bodies report lengths and ends truthfully at every moment",
 "At every moment while an incoming body is read, its size hint brackets the number of data bytes still to come (exactly, whenever the length was declared), it never claims to be at its end while data or trailers may still follow or an error is pending, and once it has ended it yields nothing more. Data frames are never empty padding for a stall, trailers come after all data and at most once. This holds for HTTP/1 and HTTP/2 bodies on both roles, including bodies cut short.",
 ["schedules","inputs","histories"],"all body framings, chunkings, read interleavings, truncations",
 "Tests check size_hint on a fresh body only.",
 ["src/body/incoming.rs","src/body/length.rs","src/proto/h1/dispatch.rs","src/proto/h1/decode.rs","src/proto/h2/client.rs","src/proto/h2/server.rs"],
 [("size hints and end flags","src/body/incoming.rs"),("DecodedLength","src/body/length.rs")],
 None,["Body::size_hint / is_end_stream / poll_frame of hyper::body::Incoming"])
p("C21","The C API executor and bodies run tasks and transfers exactly once",
 "Through the C API, every task pushed to an executor is driven to completion and returned by polling exactly once, wakers woken from outside cause the task they belong to to be polled again, and exchanges driven through the callback-based transport and bodies transfer the same requests, responses, headers and body bytes as were given, whatever short or pending results the callbacks produce. Errors and aborts from callbacks surface as error tasks or codes and never as success, and user data is released exactly once.",
 ["schedules","inputs","fault_sequences"],"all patterns of partial, pending, failing transport and body callbacks and wake-up orders",
 "The C API has only example programs and a few unit tests for headers.",
 ["src/ffi/task.rs","src/ffi/io.rs","src/ffi/body.rs","src/ffi/client.rs","src/ffi/http_types.rs","src/ffi/userdata.rs"],
 [("executor with wake flag and ready queue","src/ffi/task.rs"),("callback transport","src/ffi/io.rs"),("callback body","src/ffi/body.rs")],
 None,["C API return values under a simulated event loop"])
p("C22","A connection is flushed and closed properly, and released when it ends",
 "A connection that ends in an orderly way has handed every byte of every finished message to the transport, flushed it and shut the transport down exactly then: nothing is written after the shutdown, and nothing is still buffered when it is asked for. A connection that ends for any reason releases its transport, its service calls, its bodies and every task it spawned, so that nothing it started remains alive or pending. Shutdown-free completion is used only when the transport is handed to its caller, who then receives every unread byte.",
 ["schedules","fault_sequences","histories"],"all endings (close by either side, errors, drops, graceful shutdown, handing the transport back) under slow flush and shutdown",
 "Tests cannot see flush/shutdown order on a kernel socket nor leaked tasks.",
 ["src/proto/h1/conn.rs","src/proto/h1/dispatch.rs","src/proto/h2/client.rs","src/proto/h2/server.rs","src/client/conn/http1.rs","src/server/conn/http1.rs"],
 [("poll_shutdown after flush","src/proto/h1/conn.rs poll_shutdown; src/proto/h1/dispatch.rs poll_inner"),("without_shutdown / into_parts","src/{client,server}/conn/http1.rs"),("cancel of spawned h2 tasks","src/proto/h2/client.rs")],
 None,["operations seen by the simulated transport; live tasks after the end"])
p("C23","HTTP/2 streams fail, cancel and are refused independently of each other",
 "Dropping a response future, a response body (once its request has been sent) or a service's response, or failing an outgoing body, on one HTTP/2 stream ends that stream promptly with the appropriate reset, stops its body producer, and is seen as an error by its other end. Every other stream on the connection, present or future, continues unaffected and the connection-level flow-control capacity of the ended stream becomes available again. A stream with an invalid or refused request fails alone too.",
 ["schedules","fault_sequences","histories"],"all moments of cancellation/failure in a stream's life, for any number of other streams, both roles",
 "Tests cancel one stream at one moment with no other traffic.",
 ["src/proto/h2/client.rs","src/proto/h2/server.rs","src/proto/h2/mod.rs","src/body/incoming.rs"],
 [("cancel propagation","src/proto/h2/client.rs PipeMap, SendWhen, ResponseFutMap"),("service cancellation on reset","src/proto/h2/server.rs H2Stream::poll2"),("reset on drop/err","src/proto/h2/mod.rs PipeToSendStream")],
 None,["RST_STREAM frames, other streams' outcomes"])
p("C24","Reason phrases accept exactly the bytes HTTP allows",
 "Constructing a custom reason phrase succeeds exactly for byte strings made only of the bytes that HTTP allows in a reason phrase, and the accepted bytes are kept unchanged.",
 ["inputs"],"all byte strings","A pure validation over all byte strings; tests check a few strings.",
 ["src/ext/h1_reason_phrase.rs"],[("validation","src/ext/h1_reason_phrase.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
