#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that statements, anchors and the manifest stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": m.strip(), "where": ", ".join(files)} for m in mechanism.split(";")]}
    if state: a["state"] = [{"name": m.strip(), "where": files[0]} for m in state.split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A call completes only with the response to its own request",
 "A call (blocking or asynchronous) that reports success or a remote error does so because a response carrying that call's own sequence number arrived after its request was sent, and it reports exactly that response's payload or error text. A duplicate, late, unsolicited or reordered response never completes another call, never completes a call twice, and never stops the client from receiving what follows.",
 ["histories", "schedules", "inputs"],
 "for every interleaving of concurrent calls, timeouts and cancels with responses delivered in any order, repeated, late or with unknown sequence numbers",
 "tests send a few requests to an echo server that answers once and in order; mismatches need concurrent calls, reordered, late or repeated responses",
 ["client.go", "handler.go"], "per-client request sequence numbers; pending-call table and pending-callback table looked up by the response's sequence number",
 "pending call table, pending callback table, sequence counter")

prop("C02", "Every blocking call ends: response, deadline, cancel, link loss or stop",
 "A blocking call on a client returns exactly once and without waiting for anything else as soon as one of these happens: its response arrives, its timeout elapses or its context is done, the connection it was issued on is lost, or the client stops. It reports a timeout only if its deadline has passed or its context is done, a reconnecting error only if the connection was lost or down while it ran, and a stopped error only if the client stopped. (With asynchronous writing switched off a call is only as prompt as the write it makes.)",
 ["schedules", "histories", "crash_points"],
 "for every point at which the connection is lost, the client stops, the peer stays silent, or the send queue is full or the writer stalled, relative to the phases of any number of concurrent calls",
 "tests exercise one timeout and one stop at convenient moments; a lost wake-up needs the loss to hit a particular phase of the call",
 ["client.go"], "session table cleared on disconnect, close channel, timers and contexts in the call paths", "pending call table, close channel, running/reconnecting flags")

prop("C03", "An accepted asynchronous call runs its callback exactly once",
 "If an asynchronous call is accepted (no error returned), its callback runs exactly once: with the response, or with an error once its timeout elapses, the connection is lost or dropped the request, or the client stops, and never later than its timeout allows. A callback never runs more than once, and every callback is told about its own call.",
 ["schedules", "histories", "crash_points"],
 "for every interleaving of responses, timeouts, connection loss, reconnection and stop with any number of outstanding asynchronous calls",
 "tests await one callback on a healthy link; losing or doubling one needs several outstanding calls at a disconnect or a timeout racing a response",
 ["client.go", "handler.go"], "callback table with timer; clearing on disconnect; drop path of the sender", "pending callback table, timers")

prop("C04", "Messages leave in submission order, once, and none is lost on a healthy link",
 "If one submission (call, notify, reply or stream frame) returned before another on the same connection began, its message is never written after the other's, and no message is written twice. While the connection stays healthy and the peer keeps reading, every accepted message is written promptly, and a submission that was refused with an error (queue full, timed out, stopped, reconnecting) is never written when it was a notification or an asynchronous call.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of concurrent submitters with a stalling or resuming writer, in batched, unbatched and direct write modes and for all queue and batch buffer sizes",
 "tests use one submitter and an idle queue; reordering, loss or duplication needs queue build-up, particular batch boundaries or a failure in the middle",
 ["client.go", "context.go", "stream.go"], "send channel, batching and non-batching send loops, direct write path", "send queue, batch buffer")

prop("C05", "The send queue is bounded and refusals are honest",
 "At most the configured number of accepted messages wait behind a stalled connection; a further submission waits no longer than its timeout and a zero-timeout submission never waits at all (asynchronous writing, the default). A queue-full error is reported only when the queue really was full, and when there is room a submission is accepted at once.",
 ["schedules", "configurations", "histories"],
 "for every queue size, any mix of concurrent submitters and timeouts, and any pattern of the peer stalling and resuming",
 "tests never stall the peer with a small queue and concurrent submitters",
 ["client.go"], "bounded send channel, overstock path, timers on submission", "send queue")

prop("C06", "A lost connection is re-established and operations fail fast meanwhile",
 "When a dialing client loses its connection it closes it, fails new operations at once with a reconnecting error until the link is back, retries about once per second, and becomes usable again on the first successful dial; it announces each successful connection once, runs on exactly one connection at a time, and never gives up a healthy connection on its own. With a limit of N reconnect attempts it stops for good after exactly N consecutive failures (announcing the disconnection once); without a limit it keeps trying.",
 ["fault_sequences", "schedules", "histories"],
 "for every sequence of connection losses, dial failures and successes, and operations issued or stalled around them",
 "tests restart a server once; the guarantees concern repeated and overlapping failures and limits",
 ["client.go"], "receive loop's reconnect loop, reconnecting flag, maximum reconnect counter", "reconnecting flag, current connection")

prop("C07", "Stopping a client is final and releases everything",
 "After a client is stopped, in whatever state (idle, stalled, mid-dial, between retries, with calls, callbacks or streams outstanding), it closes every connection it opened, never dials again, announces the disconnection exactly once, ends all its goroutines, and lets every pending operation finish; operations started afterwards fail with a stopped error. Stopping twice or concurrently is harmless.",
 ["schedules", "crash_points", "histories"],
 "for every moment at which stop is called relative to calls, connection loss, dialing and retries",
 "tests stop an idle client at the end; leaks or later activity need stop to land inside a dial, retry or stalled write",
 ["client.go", "stream.go"], "running flag, close channel, connection close in the stop path, cleanup at receive-loop exit", "running flag, close channel, connection")

prop("C08", "All bytes sent form well-formed frames with exactly the submitted content",
 "Everything a client or server writes to a connection is a sequence of complete, contiguous frames: little-endian body length, reserved, command, flag and method-length bytes, little-endian sequence number, method, payload, with the length equal to method plus payload. Each frame's command, flags, method, sequence number and payload equal what was submitted, for any method of 1 to 127 bytes and any payload, however many goroutines submit at once; a call, notification or broadcast with an invalid method is refused and nothing is written.",
 ["inputs", "schedules", "configurations"],
 "for all methods, value kinds and payload sizes (empty, around buffer sizes, large), write modes and concurrent submitters",
 "tests check echoes between two copies of the same code, which agree with each other on any layout, and small sizes only",
 ["proto.go", "client.go", "util/util.go", "codec/codec.go"], "message construction and header accessors, value to bytes conversion, batching buffer", "message buffer")

prop("C09", "Decoding is independent of segmentation, and malformed input is contained",
 "However the incoming byte stream is cut into reads, exactly the same messages are delivered, in order and with identical content. A frame declaring a body larger than the configured maximum ends that connection before its body is buffered; a frame whose method length is impossible is ignored; an unknown command ends only its own connection; nothing a peer sends crashes the process, disturbs another connection, or makes a handler run with content that was not sent.",
 ["inputs", "schedules", "configurations"],
 "for all byte streams (valid, malformed or truncated), all segmentations, buffered and unbuffered reading",
 "tests feed whole frames written by the same library over a local socket; the guarantee is about arbitrary cuts and hostile input",
 ["handler.go", "proto.go", "client.go"], "header read, body length limit, method length check, command switch", "read buffer, header")

prop("C10", "Each message reaches its method's handler through the middleware chain in order",
 "A request or notification runs the handler registered for exactly its method, once, preceded and followed by the registered middleware in registration order, with what each sets visible to the later ones; after an abort nothing later in the chain runs. A method without a handler reaches the not-found handler (by default an error reply to a request) and never another method's handler.",
 ["inputs", "histories", "configurations"],
 "for all sets and orders of registered methods, middleware and not-found handlers, all abort points and all incoming methods",
 "tests register one or two routes and one middleware; the guarantee ranges over all chains and abort points",
 ["handler.go", "context.go", "extension/middleware/router"], "route table and per-route chain, chain index, abort", "route table, chain index")

prop("C11", "A request is answered on its own connection with what its handler wrote",
 "On a server, each write by a request's handler produces exactly one response frame on the connection the request came from, with the request's sequence number and call kind, the method, the exact value written, and the error mark set exactly when an error was reported; nothing is sent if the handler writes nothing. Writing to a notification's context is refused and sends nothing, and this holds whether the handler runs in line or asynchronously, and whenever it writes.",
 ["schedules", "inputs", "histories"],
 "for all interleavings of requests on several connections, handlers finishing in any order, all written values and write modes",
 "tests check single echoes; cross-connection or cross-request mix-ups need concurrent handlers finishing out of order",
 ["context.go", "handler.go", "proto.go"], "context bound to client and message; response message construction", "context pool, message")

prop("C12", "A panic in user code harms only its own request",
 "If a handler, middleware, stream handler or asynchronous-call callback panics (in line or asynchronous, on response, timeout or disconnect), the process survives, the connection stays up, and every other request, callback and connection is served as if the panic had not happened.",
 ["fault_sequences", "schedules"],
 "for every user callback that may panic and every kind of traffic before, during and after it",
 "tests never panic in callbacks of every kind under traffic",
 ["handler.go", "client.go", "util/util.go"], "recovery wrappers around message dispatch and asynchronous execution", "goroutine recovery")

prop("C13", "In-line handlers run one at a time in arrival order",
 "On one connection, handlers registered as synchronous run one at a time, in the order their messages arrived, each finishing before the next message of that connection is handled; asynchronous handlers never delay the reading of later messages. Different connections are served independently of each other.",
 ["schedules", "histories"],
 "for all arrival orders and handler durations on any number of connections",
 "tests measure no ordering; violations need slow handlers and back-to-back messages",
 ["handler.go", "client.go"], "per-connection receive loop dispatching in line or to the executor", "receive loop")

prop("C14", "Server membership and load mirror its live connections",
 "Once the dust settles, the server's client set and load count contain exactly the accepted connections that are still alive, whatever order connects, requests, peer closes, stops from inside handlers or callbacks, and malformed input happen in. Each accepted connection is announced connected exactly once and disconnected exactly once, and iteration or broadcast never includes one that is gone.",
 ["schedules", "histories", "crash_points"],
 "for all interleavings of accept, early close, handler-initiated stop, protocol error and server iteration",
 "tests connect one client and never close it at awkward moments",
 ["server.go", "client.go"], "accept loop, client set add/delete, load counter, cleanup callback", "client set, load counter")

prop("C15", "A server never serves more connections than its maximum load",
 "With a maximum load of N, at most N connections are served at any time: a further one is closed without being announced, counted or answered, those already served are undisturbed, and as soon as a served connection ends a new one is accepted. With no maximum every connection is served.",
 ["histories", "schedules", "configurations"],
 "for all N and all sequences of connects and disconnects in any order",
 "the tests use one fixed sequence",
 ["server.go"], "load counter compared with the maximum in the accept loop", "load counter")

prop("C16", "A broadcast reaches each connected client exactly once, intact",
 "A broadcast writes exactly one notification with the given method and value to every client connected at that moment (and passing the filter, if any) whose queue has room, and to no other, with the same content whatever message coders are in use; it never blocks on a slow client and leaves all other traffic intact.",
 ["schedules", "histories", "configurations"],
 "for all sets of clients, filters, stalled clients, coders and concurrent traffic",
 "tests broadcast to identical idle clients without coders or stalls",
 ["server.go", "client.go"], "iteration over the client set pushing a shared reference-counted message", "client set, message reference count")

prop("C17", "Stopping a server closes everything and unblocks its callers",
 "After stop or shutdown the server accepts no further connection, every connection it served is closed and announced disconnected, its serving call returns, and shutdown returns without error once serving has ended, or a timeout error exactly if its context ends first; in-flight handlers and calls on its connections complete or fail rather than hang.",
 ["schedules", "crash_points", "histories"],
 "for every moment of stop relative to accepts, requests, calls to clients and stalled connections",
 "tests stop an idle server",
 ["server.go", "client.go"], "running flag, listener close, client clearing at accept-loop exit, stop channel", "running flag, stop channel, client set")

prop("C18", "A stream delivers what was sent, in order, then end of stream",
 "Each direction of a stream delivers the values sent on it in order, without loss, duplication or alteration while the connection lives, however slowly the receiver reads; after the sender closes, the receiver gets everything sent before and then end of stream, again on every further receive, and further sends are refused. Closing one direction leaves the other usable, and receive and send calls with a context end no later than the context.",
 ["schedules", "histories", "inputs"],
 "for all interleavings of sends, receives and half-closes on both ends, all queue sizes and receiver speeds",
 "tests run one lock-step echo; loss at close or with a slow receiver is schedule dependent",
 ["stream.go", "handler.go", "client.go"], "per-stream data channel, EOF flag, half-close counter", "stream tables, data channel, half-close state")

prop("C19", "Streams do not interfere, start their handler once and end with the connection",
 "Frames reach only the stream they were sent on, even when both ends open streams with equal identifiers, and opening a stream to a registered method runs its handler once with everything sent on it, as long as its handler has not closed both directions. When the connection is lost or either end stops, every blocked or later receive and send on its streams ends promptly with end of stream or an error, and other requests on the connection are unaffected by open, closed or idle streams.",
 ["schedules", "histories", "crash_points"],
 "for all numbers of streams opened from both ends concurrently with calls, and every moment of connection loss",
 "tests use one stream from one side on a healthy link",
 ["stream.go", "client.go", "handler.go"], "local and remote stream tables keyed by identifier and origin bit; clearing on disconnect", "stream tables")

prop("C20", "A pooled buffer is never released twice or used after release",
 "With pooling enabled or custom allocation hooks installed, every buffer the library obtained is returned to the allocator at most once, is never written to the wire or shown to a handler after its return, and content delivered to the application and to peers is the same as without pooling; the built-in allocator never hands the same memory to two owners.",
 ["schedules", "histories", "configurations"],
 "for all traffic mixes (calls, timeouts, drops, broadcasts, streams, batching, disconnects) and allocator implementations",
 "double release shows only as rare corruption under concurrent traffic, which tests neither create nor check",
 ["client.go", "proto.go", "context.go", "handler.go", "server.go", "stream.go", "allocator.go"], "allocation hooks, message reference count, done/dropped/overstock callbacks", "buffer ownership, reference count")

prop("C21", "Message coders apply in order and invert exactly",
 "Every outgoing message passes through all registered coders in registration order once, and every incoming one through all of them in reverse order, so that with the same coders on both ends every message arrives with its original content: calls, replies, errors, notifications, broadcasts and streams alike. The supplied compression, packing and value-appending coders restore content and attached values exactly, and leave alone messages they did not encode.",
 ["inputs", "histories", "configurations"],
 "for all payloads, attached values, and stacks of coders in any order, in every write mode",
 "tests encode one message with one coder in one mode",
 ["client.go", "context.go", "stream.go", "handler.go", "extension/middleware/coder"], "coder chain in the send and receive paths; gzip, msgpack and appender coders", "message buffer, reserved flag bits, message values")

prop("C22", "A client pool rotates fairly and skips unusable clients",
 "Choosing the next client of a pool never returns a stopped or reconnecting one while at least one member is usable, for any number of concurrent choosers, and when all members are usable successive choices visit every member equally in rotation; indexed access wraps around and stopping the pool stops every member. A pool that cannot be fully created leaves no connection behind.",
 ["schedules", "histories", "configurations"],
 "for all pool sizes, all subsets of unusable members and concurrent choosers",
 "tests use a healthy pool from one goroutine",
 ["client.go"], "atomic round counter and state check in the chooser", "round counter, member state")

prop("C23", "Published messages reach exactly the topic's authenticated subscribers",
 "A publication is delivered exactly once to each client subscribed to that topic (to one of them when published to one), with unchanged topic and content, and to nobody who never subscribed or has unsubscribed; where handlers are synchronous, each subscriber sees one publisher's messages of a topic in publication order. Clients that have not authenticated can neither subscribe, unsubscribe nor publish, and re-authentication or a disconnect leaves no dangling or lost subscription.",
 ["histories", "schedules", "inputs"],
 "for all interleavings of authentication, subscribe, unsubscribe, publish and disconnect by any number of clients",
 "tests use one subscriber per topic and a fixed order of operations",
 ["extension/pubsub"], "topic agents with client sets, per-client topic sets, authentication mark", "topic table, client topic sets")

prop("C24", "A pub/sub client restores its session after reconnecting",
 "After its connection is lost and re-established a pub/sub client authenticates again and re-subscribes every topic it was subscribed to and no other, so publications made after that reach its handlers again exactly once.",
 ["fault_sequences", "histories"],
 "for all sequences of disconnects interleaved with subscribing and unsubscribing",
 "tests do not cut connections under subscribers",
 ["extension/pubsub"], "reconnect hook re-authenticating and re-subscribing from the handler map", "topic handler map")

prop("C25", "Service discovery serves from exactly the currently registered nodes",
 "After any sequence of node additions, deletions and node failures, a lookup for a service returns a live client of one of that service's currently registered nodes, distributing choices by weight, or a definite error when none is usable; clients of removed nodes are stopped and no longer returned, and no connection is leaked or opened twice for a node.",
 ["histories", "schedules"],
 "for all sequences of add and delete notifications over any services and nodes, with nodes failing and recovering",
 "tests need a live registry and check one static configuration",
 ["extension/micro"], "service manager tables and weighted round robin list", "service and node tables")

prop("C26", "Graceful shutdown waits for admitted requests and refuses the rest",
 "Once graceful shutdown has begun, new requests are answered with a shutdown error and their handlers do not run, while every request admitted before runs to completion; shutdown returns only after all admitted requests have finished.",
 ["schedules"],
 "for all interleavings of requests, handler durations and the shutdown call",
 "no test covers it; the races are between admission and shutdown",
 ["extension/middleware/router/graceful.go"], "wait group and shutdown flag in the middleware", "shutdown flag, wait group")

prop("C27", "The dual listener hands each connection to exactly one of its two sides",
 "Every connection the dual listener accepts is handed exactly once and open to one of its two sides, in arrival order per side: to side A while fewer than its configured number are online there (one goes offline when the application reports it), otherwise to side B. A temporary accept error does not end it, and after closing every waiting or later accept on either side ends with a closed error once the connections already handed over are taken, the underlying listener is closed, and a connection that is not handed over is closed.",
 ["schedules", "histories", "configurations"],
 "for all sequences of arrivals, offline reports, accepts on both sides, temporary errors and closing, and all limits",
 "tests do not cover it",
 ["extension/listener/listener.go"], "online counter compared with the maximum; one channel per side; close with recovery of late sends", "online counter, accept channels")

prop("C28", "The WebSocket transport is a faithful byte stream",
 "A connection over WebSocket behaves like a byte stream: the bytes read on one end are exactly those written on the other, in order, for all write sizes, read sizes and concurrent writers, and closing it ends pending reads and writes on both ends; calls, notifications and broadcasts over it behave as over TCP.",
 ["inputs", "schedules"],
 "for all segmentations, buffer sizes and concurrent writers including keepalives",
 "tests do one small echo",
 ["extension/protocol/websocket"], "message to stream adaptor over a websocket library", "partial reader")

prop("C29", "An RPC over HTTP gives the same answer as over a connection",
 "Posting a request frame over HTTP runs the same handler chain for its method as over a connection, once, and the HTTP response body is exactly the response frame the handler wrote (value or error, with the request's own sequence number), for any number of concurrent requests; unknown methods get the not-found error, and a malformed body never runs a handler or harms other requests.",
 ["inputs", "schedules"],
 "for all methods, payloads, malformed bodies and concurrent requests",
 "tests do not cover it",
 ["extension/arpchttp/handler.go", "context.go", "handler.go"], "http handler adaptor with a connection that writes to the response", "per-request client and message")

prop("C30", "The JavaScript client speaks the same protocol and completes every call once",
 "The JavaScript client's frames carry the same layout as the server's, every call's promise settles exactly once with the response to its own sequence number, the error, a timeout or a disconnect, notifications from the server reach the handler for their method, and it reconnects and serves later calls after a lost connection; a call over HTTP likewise ends once, with its own response or an error.",
 ["histories", "inputs", "schedules"],
 "for all sequences of calls, responses in any order, several messages per packet, timeouts and disconnects, and sequence numbers beyond one byte",
 "it has no tests",
 ["extension/jsclient/arpc.js"], "frame encoder/decoder and session map in the JavaScript client", "session map, sequence counter")

prop("C31", "Handlers are isolated copies and registration is conflict free",
 "A cloned handler starts with the same routes, middleware, coders and settings, and later changes to either never show in the other; servers and clients created with defaults never share later changes. Registering a method or stream handler twice or for a name that is too long, or a method handler for the empty name, is refused and changes nothing.",
 ["histories", "configurations"],
 "for all sequences of registrations and settings on originals and clones",
 "tests clone once",
 ["handler.go"], "deep copy of tables in clone; duplicate checks in registration", "route, stream, middleware and coder tables")

if __name__ == "__main__":
    import re
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
