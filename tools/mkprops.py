#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source for the property texts)."""
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

CONN = ["connection.go", "eventloop/eventloop.go", "poller/epoll.go", "server.go", "listener.go"]

p("C01", "Inbound bytes reach the message callback exactly once and in order",
  "For every connection using the default protocol, the concatenation of the data passed to the message callback equals, byte for byte and in order, what that peer sent (a prefix of it if the connection is torn down abruptly), however the stream is segmented and however many connections share a loop. The data handed to one callback never contains bytes of another connection and does not change while that callback runs.",
  ["inputs", "schedules", "histories"], "every byte stream, segmentation, number of connections, read size and interleaving of connections on a loop",
  "The echo test compares totals of random blobs on a few connections through one reply path; it fixes no segmentation, never has pending input left over, never mixes closes with pending data, and cannot see which callback received what.",
  CONN + ["protocol.go"],
  [("read into the loop's packet buffer, then spill to the per-connection read buffer", "connection.go handleRead/handlerProtocol"), ("default unpacking", "protocol.go DefaultProtocol.UnPacket")],
  ["message callback arguments vs. bytes written by the client"],
  [("inBuffer", "bytes received but not consumed", "connection.go"), ("packet", "per-loop scratch read buffer shared by all its connections", "eventloop/eventloop.go")])

p("C02", "Outbound data arrives exactly once, in order and uninterleaved",
  "On a connection that stays open the peer receives every reply returned by the message callback and every payload accepted by an asynchronous send exactly once, each as one contiguous run, replies in message order and the sends of one goroutine in call order, whatever partial writes and slow readers occur. If the connection is closed first, what the peer received is a prefix of such a sequence.",
  ["inputs", "schedules", "histories"], "all payload sizes, concurrent senders, reader speeds, socket buffer sizes and partial-write points",
  "Tests never force a kernel-level partial write with concurrent senders nor let the pending output wrap around its ring; only whole-echo equality with one outstanding message is checked.",
  CONN, [("direct write then buffer the unsent tail", "connection.go sendInLoop"), ("drain on writable", "connection.go handleWrite"), ("tasks executed on the loop in FIFO order", "eventloop/eventloop.go QueueInLoop")],
  ["bytes read by the client, parsed into uniquely numbered messages"],
  [("outBuffer", "bytes accepted for sending but not yet written", "connection.go")])

p("C03", "Custom-protocol frames are delivered once each for any segmentation",
  "With a user-supplied protocol, each complete frame received causes exactly one message callback, in stream order, carrying the context and payload the protocol extracted, and a frame is delivered as soon as its last byte has been received no matter how the stream was split or merged. Bytes of an incomplete frame are kept until the rest arrives, and every outgoing message (reply or asynchronous send) is encoded by the protocol exactly once.",
  ["inputs", "schedules", "histories"], "every sequence of frame sizes, every segmentation of the byte stream, every read-buffer boundary",
  "No test in the repository drives a framing protocol over the server; only the default protocol's unpacking is unit-tested on one 4-byte buffer.",
  CONN + ["protocol.go", "example/protocol/protocol.go"],
  [("unpack loop until no frame is returned", "connection.go handlerProtocol"), ("left-over bytes moved to the read buffer", "connection.go handleRead")],
  ["frames seen by the callback vs. frames sent; number of encode calls vs. outgoing messages"])

p("C04", "Connection lifecycle: one connect, then messages, then exactly one close",
  "For every accepted connection the connect callback runs exactly once and before any message callback, the close callback runs exactly once after which no further callback occurs for that connection, and the connection reports itself connected up to the close and not afterwards. This holds whatever ends the connection: peer close, reset, write failure, local close (repeated, concurrent or from inside a callback) or idle timeout.",
  ["schedules", "histories", "fault_sequences"], "every cause of closing, every interleaving of closing with data, sends and other closes",
  "Tests count connects minus closes after sleeping; double or missing callbacks that cancel out, or callbacks after close, are invisible, and only peer close or one close in the connect callback is exercised.",
  CONN, [("connected flag checked on the loop", "connection.go handleClose"), ("connect callback before registration", "server.go handleNewConnection")],
  ["connect/message/close callbacks per connection"], [("connected", "closed-once flag", "connection.go")])

p("C05", "Callbacks are confined to one loop and the public API is free of data races",
  "All callbacks of a connection, and of all connections served by the same event loop, run one at a time and always on that loop's single goroutine. Using the documented API concurrently from any goroutine (send, close, connected, backlog queries, key/value context, counters, timers, stop) causes no data race inside the library.",
  ["schedules"], "every interleaving of loops, user goroutines, timers and shutdown",
  "Sequential assertions cannot observe overlap or races; the race detector is not part of the stable test run and the tests use few API calls concurrently.",
  CONN + ["context.go", "load_balance.go"], [("cross-goroutine work is queued to the loop", "eventloop/eventloop.go QueueInLoop"), ("atomics for shared flags and lengths", "connection.go")],
  ["overlap detector in callbacks keyed by loop, goroutine identity, Go race detector reports"],
  hook="scheduling points (build tag verif) widen interleavings")

p("C06", "Queued loop tasks run exactly once, in order, without lost wakeups",
  "Every function handed to an event loop before the loop is stopped is executed exactly once on the loop's goroutine; tasks from one goroutine run in the order queued, including tasks queued from inside other tasks and before the loop starts. A queued task is executed even if the loop was idle and nothing else happens afterwards.",
  ["schedules", "histories"], "every interleaving of producers with the loop's wake/drain cycle, any number of producers and burst sizes",
  "The existing test queues ten logging functions and never checks that they ran; lost wakeups need a particular interleaving with the drain.",
  ["eventloop/eventloop.go", "poller/epoll.go"], [("double queue swap under a lock", "eventloop/eventloop.go doPendingFunc"), ("wake flag + eventfd", "eventloop/eventloop.go QueueInLoop/handlerEvent, poller Wake")],
  ["task executions recorded by uniquely numbered tasks"], [("needWake", "whether a producer must write the eventfd", "eventloop/eventloop.go")],
  hook="scheduling points between append, wake and drain")

p("C07", "A closed connection is inert and never touches another connection",
  "Once a connection is closed, send, close and write-shutdown on it return the connection-closed error, and none of them - even racing with the close or long after it, with the descriptor number reused by a newer connection or file - affects any other connection or file of the process. Data belonging to a closed connection is never delivered to or from a later one.",
  ["schedules", "histories"], "all interleavings of API calls with close and with descriptor reuse",
  "Tests never use a connection after it was closed; descriptor reuse needs a close followed by an accept and a late call.",
  ["connection.go", "eventloop/eventloop.go", "poller/epoll.go"], [("connected flag", "connection.go Send/Close/handleClose"), ("deregistration before closing the descriptor", "connection.go handleClose")],
  ["errors returned by late calls; integrity of newer connections and of canary descriptors held by the harness"])

p("C08", "Stopping a server completes and releases everything",
  "After Start, calling Stop (at any moment, repeatedly or from several goroutines) makes Start return, closes every connection with exactly one close callback each (peers observe end of stream), and releases the listening address so that it can be bound again and new dials are refused. No callback runs after Stop and Start have returned, and no event-loop goroutine or descriptor of the server survives.",
  ["schedules", "histories"], "every moment of Stop relative to accepts, traffic, timers, other Stops and start-up",
  "Tests stop idle servers at the end and inspect nothing afterwards.",
  ["server.go", "listener.go", "eventloop/eventloop.go", "poller/epoll.go"],
  [("stop closes all sockets on the loop then the poller", "eventloop/eventloop.go Stop"), ("poller close handshake", "poller/epoll.go Close/Poll"), ("listener close", "listener.go Close")],
  ["Start returning, close callbacks, peer EOF, re-bind, descriptor and goroutine counts"])

p("C09", "Connection counters and descriptors are conserved",
  "At every quiescent moment the connection counts reported by the event loops are non-negative, each equals the number of open connections served by that loop, and together they equal the number of connections that were connected but not closed. Each connection uses one descriptor while open and it is released exactly once when it closes, so after any history of opens and closes the process's descriptor count returns to its starting value.",
  ["histories", "schedules"], "every history of opens, closes, resets, failed registrations and concurrent closes",
  "Tests look at counts only after opens and never after a mixture of closes; descriptor leaks or double closes are not observed at all.",
  ["eventloop/eventloop.go", "connection.go", "poller/epoll.go"], [("count maintained at register/deregister", "eventloop/eventloop.go AddSocketAndEnableRead/DeleteFdInLoop"), ("close once", "connection.go handleClose")],
  ["ConnectionCount of each loop vs. harness's open connections; /proc/self/fd"], [("ConnCunt", "connections per loop", "eventloop/eventloop.go")])

p("C10", "Idle connections are closed, active connections are not",
  "With an idle time configured, a connection on which nothing is exchanged is closed (close callback, peer sees end of stream) not before the idle time has passed since its last activity and within a bounded time afterwards. A connection whose peer keeps sending at intervals clearly shorter than the idle time is never closed for idleness, and without an idle time no connection is.",
  ["histories", "configurations"], "every activity pattern and idle time, including idle times below or not a multiple of one second, and peers that stall while output is pending",
  "The only test uses silent connections and one idle time of 3 s; activity resetting the timer, sub-second idle times and re-arming are never exercised.",
  ["connection.go", "server.go", "options.go"], [("activity timestamp + re-armed timer", "connection.go closeTimeoutConn/HandleEvent")],
  ["close callbacks relative to server-observed activity"], [("activeTime", "time of last activity", "connection.go")])

p("C11", "Delayed tasks fire once, periodic tasks fire on schedule, none early",
  "A delayed task runs exactly once and not before its delay has elapsed, unless its timer was stopped first, in which case it never runs. A periodic task's k-th run does not start before k intervals have elapsed, runs keep coming without drift until its timer is stopped, and no task runs after the server has been stopped.",
  ["histories", "schedules"], "all delays and intervals (from 1 ms, across timing-wheel levels), counts of concurrent timers and stop moments",
  "Two example tests use a single one-second timer each.",
  ["server.go", "everyscheduler.go"], [("timing wheel", "server.go RunAfter/RunEvery"), ("next = previous + interval", "everyscheduler.go Next")],
  ["timestamps of task runs on the monotonic clock relative to scheduling"])

p("C12", "Load balancing follows the configured strategy for every connection",
  "Every accepted connection is assigned by exactly one invocation of the configured strategy over all the configured number of loops, and is served by the loop it returned. Round robin assigns cyclically, so after any number of accepts per-loop assignments differ by at most one; least-connection always selects a loop whose current connection count is minimal.",
  ["histories", "configurations"], "every number of loops, every history of connects and closes and every vector of counts",
  "The tests use fixed counts; the least-connection unit test passes only when some count is 0, and no closes ever happen between assignments.",
  ["load_balance.go", "server.go", "options.go", "eventloop/eventloop.go"], [("strategies", "load_balance.go"), ("strategy call on accept", "server.go handleNewConnection")],
  ["strategy invocations and results; loop identity observed by each connection's callbacks"])

p("C13", "Reported read and write backlogs match the bytes actually pending",
  "Whenever a connection is quiescent, its reported write backlog equals the bytes accepted for sending that have not yet been handed to the operating system, and its reported read backlog equals the bytes received that the protocol has not yet consumed. Both are zero once everything has been drained, and neither is ever negative.",
  ["histories", "inputs"], "every mixture of sends, replies, partial frames, slow readers and drains",
  "No test reads either backlog.",
  ["connection.go"], [("lengths published after each event", "connection.go HandleEvent"), ("send path", "connection.go sendInLoop")],
  ["backlog queries vs. byte conservation: accepted = received by peer + kernel queues + backlog"], [("outBufferLen/inBufferLen", "published backlogs", "connection.go")])

p("C14", "A peer that stops reading is throttled and bounded, and drains later",
  "When a peer stops reading, the server stops consuming that peer's input once replies are pending, so an echo-style connection's pending output stays bounded by the replies to one read of input however much the peer sends. When the peer resumes reading, everything accepted so far arrives intact and consumption of its input resumes without any further stimulus.",
  ["inputs", "histories", "schedules"], "all amounts of unread data, stall/resume sequences and socket buffer sizes",
  "Test clients always read everything promptly.",
  ["connection.go", "eventloop/eventloop.go", "poller/epoll.go"], [("reads suspended while output is pending", "connection.go HandleEvent"), ("write interest toggled", "connection.go handleWrite/sendInLoop")],
  ["maximum write backlog and bytes consumed while the peer is stalled; completeness after resume"])

p("C15", "Send completion callbacks run once, in order, when the buffer is reusable",
  "For an asynchronous send with a completion callback, the callback runs at most once, on the connection's loop, with exactly the value that was sent, in the order of the sends, and only when the library no longer needs the payload, so its memory may be overwritten without corrupting what the peer receives. It runs exactly once if the connection is still open when the send is processed and never if the send returned an error.",
  ["schedules", "histories"], "all interleavings of senders, backpressure and closes; payload reuse at callback time",
  "No test uses the completion callback.",
  ["connection.go", "connection_options.go"], [("callback invoked after write-or-copy", "connection.go Send")],
  ["callback invocations per send; bytes received by the peer while buffers are recycled"])

p("C16", "A connection's key/value context is a linearizable map",
  "Concurrent set, get and delete operations on a connection's key/value context behave as if executed one at a time in an order consistent with real time, with get returning the latest set value or absence. Contexts of different connections are independent.",
  ["schedules", "histories"], "every concurrent history of operations over any keys",
  "The only test is sequential.",
  ["context.go"], [("read-write lock around the map", "context.go")],
  ["call/return histories checked against a sequential register per key"])

p("C17", "WebSocket handshakes are accepted or rejected exactly as requested",
  "A complete, valid HTTP upgrade request - in any segmentation, header order and header-name case, and with the Connection/Upgrade values in any standard form - is answered by exactly one 101 response carrying the correct accept key and the negotiated options, after which the connection speaks WebSocket. A complete invalid request (wrong method, version, missing or wrong header) or one vetoed by any user hook is answered by exactly one HTTP error response with the appropriate status and is never upgraded.",
  ["inputs", "histories"], "every request text, segmentation, hook outcome and sequence of requests on a connection",
  "The tests only perform the handshake of one well-behaved client library.",
  ["plugins/websocket/protocol.go", "plugins/websocket/ws/ws.go", "plugins/websocket/ws/http.go", "plugins/websocket/ws/nonce.go", "plugins/websocket/ws/util.go"],
  [("upgrade parser", "plugins/websocket/ws/ws.go Upgrade"), ("responses", "plugins/websocket/ws/http.go")],
  ["HTTP responses read by a raw client, hook invocations"])

p("C18", "WebSocket messages survive any framing, masking and segmentation",
  "After the handshake, every complete masked data frame is delivered to the handler exactly once, in order, with the unmasked payload, for every payload length encoding, mask, and way the bytes are split or merged by TCP, and as soon as its last byte has arrived. Every non-empty handler reply reaches the client as one well-formed unmasked frame of the chosen type with exactly that payload.",
  ["inputs", "schedules", "histories"], "all frame sizes (all length encodings), masks, segmentations and pipelinings, including splits inside the frame header",
  "The test client writes each message at once with lengths up to 3 KB; splits inside headers, 64-bit lengths and pipelining never occur.",
  ["plugins/websocket/protocol.go", "plugins/websocket/wrap.go", "plugins/websocket/ws/read.go", "plugins/websocket/ws/write.go", "plugins/websocket/ws/cipher.go"],
  [("incremental frame parsing on the ring buffer", "plugins/websocket/protocol.go UnPacket, ws/read.go"), ("reply framing", "plugins/websocket/wrap.go OnMessage")],
  ["handler messages vs. frames sent; frames parsed strictly by the client"])

p("C19", "WebSocket control frames get the required replies",
  "Every ping is answered by exactly one pong with the same payload, in order with surrounding messages. A close frame is answered by exactly one close frame - echoing a valid status code and reason, empty for an empty close, and 1002 for an invalid code or reason - after which the server ends the stream and the connection's close callback runs once the client goes away; control frames never reach the message handler.",
  ["inputs", "histories", "schedules"], "all control payloads, close codes and reasons, positions among data frames, segmentations and amounts of pending output",
  "No test sends a ping or inspects the server's close reply.",
  ["plugins/websocket/wrap.go", "plugins/websocket/ws/util/util.go", "plugins/websocket/ws/frame.go"],
  [("control dispatch", "plugins/websocket/wrap.go OnMessage"), ("close validation", "plugins/websocket/ws/util/util.go")],
  ["frames read by a raw client after sending control frames"])

p("C20", "WebSocket codec functions are inverse to each other and match the RFC",
  "Writing any frame header and reading it back yields the same header and consumes exactly its bytes, encodings are the minimal ones prescribed by RFC 6455, and masking equals the byte-wise XOR definition for every length, alignment, mask and offset (and is its own inverse). Close bodies encode code and reason within 125 bytes, and packing helpers produce exactly one well-formed frame with the given payload.",
  ["inputs"], "all header field combinations, payload lengths, masks, offsets, memory alignments, codes and reasons",
  "No unit test covers the codec; the integration tests touch one length class.",
  ["plugins/websocket/ws/read.go", "plugins/websocket/ws/write.go", "plugins/websocket/ws/cipher.go", "plugins/websocket/ws/frame.go", "plugins/websocket/ws/util/util.go"],
  [("header codec", "ws/read.go, ws/write.go"), ("8-byte XOR loop", "ws/cipher.go")],
  ["differential comparison with an independent reference codec"])

p("C21", "Protobuf-protocol messages round-trip for any types, bodies, segmentation",
  "Every message packed by the protobuf plugin, with any type name up to 65535 bytes (including empty) and any body (including empty), is delivered by the server exactly once, in order, with the same type and body, for every segmentation of the stream and as soon as its last byte arrived. Messages never alias each other's memory: a delivered type and body stay intact after later messages are received.",
  ["inputs", "histories"], "all type/body sizes, segmentations, pipelinings and retention of delivered data",
  "The protobuf plugin has no test.",
  ["plugins/protobuf/protobuf.go", "plugins/protobuf/protocol.go"], [("length-prefixed codec on the ring buffer", "plugins/protobuf/protocol.go UnPacket")],
  ["types and bodies seen by the handler vs. messages packed by clients"])

p("C22", "Malformed or hostile input never harms the server or other connections",
  "Whatever bytes a peer sends to a server using the default, protobuf or WebSocket protocol, and however it connects, resets or half-closes, the server process does not panic or stall, and well-behaved connections on the same loops keep receiving exactly their own correct service. Memory is not allocated merely because a peer announced a large length.",
  ["inputs", "histories", "fault_sequences"], "all byte sequences and connection-level misbehaviour",
  "All test clients are well behaved.",
  ["plugins/protobuf/protocol.go", "plugins/websocket/protocol.go", "plugins/websocket/ws/read.go", "plugins/websocket/ws/ws.go", "plugins/websocket/ws/http.go", "connection.go"],
  [("length checks before allocation", "plugins/*/protocol.go"), ("error handling on read/write", "connection.go")],
  ["process liveness, witness connections served before, during and after each hostile input, heap growth"])

p("C23", "The poller reports readiness of registered descriptors and nothing else",
  "For any set of descriptors and any sequence of add, modify and delete, each descriptor that is ready for a condition it is registered for is reported with that condition (and with the error condition when the peer hung up with nothing left to read), and descriptors that are deleted or not registered for a ready condition are not reported. Every wake-up issued to a running poller leads to the wake notification, any number of simultaneously ready descriptors is handled, and closing a running poller ends polling exactly once while closing one that is not running reports an error.",
  ["inputs", "schedules", "histories"], "all registration histories and numbers of ready descriptors (beyond the initial event array), all wake timings",
  "The two tests never register a descriptor.",
  ["poller/epoll.go", "poller/poller.go"], [("epoll wrapper", "poller/epoll.go Poll/add/mod/Del"), ("eventfd wake", "poller/epoll.go Wake")],
  ["handler invocations (descriptor, event) vs. a model of registration and readiness of socket pairs"])

p("C24", "A connection's address and attached state are its own",
  "The peer address reported by a connection equals the remote end's actual address (IPv4 and IPv6) throughout its life and after close, and user context and key/value data attached to a connection are returned unchanged for that connection and are never visible on any other, including later connections that reuse its resources.",
  ["histories", "schedules"], "every history of connects and closes with resource reuse, both address families",
  "No test checks the address or per-connection state across connections.",
  ["connection.go", "context.go"], [("address formatting", "connection.go sockAddrToString"), ("per-connection fields", "connection.go")],
  ["address and attached values observed in callbacks vs. the client's own local address and unique token"])

p("C25", "Write-shutdown ends the stream after sent data and keeps receiving",
  "When the write side of a connection is shut down, the peer receives all data already written followed by end of stream, data the peer still sends continues to be delivered to the message callback, and the connection is closed with one close callback only when the peer finishes. The call succeeds on an open connection from any goroutine, including the connect callback.",
  ["schedules", "histories"], "all moments of the shutdown relative to sends, receives and the peer's close",
  "No test calls it.",
  ["connection.go", "poller/epoll.go"], [("half close", "connection.go ShutdownWrite")],
  ["bytes and EOF at the peer, later inbound data at the callback, close callback"])

p("C26", "One connection cannot block others sharing its loop",
  "However many connections on a loop are silent, stalled with pending output, mid-frame or flooding, every other connection on that loop keeps being served: each of its requests is answered while the misbehaving connections make no progress. No server call made from a callback blocks the loop waiting for a peer.",
  ["schedules", "inputs", "histories"], "all mixtures of stalled, silent, flooding and normal connections on one loop",
  "Tests have no stalled peers.",
  ["connection.go", "listener.go", "poller/epoll.go", "eventloop/eventloop.go"], [("non-blocking descriptors", "listener.go"), ("one bounded read per event", "connection.go handleRead")],
  ["round trips completed by witness connections while others are stalled"])

p("C27", "Log calls emit exactly the enabled messages, intact",
  "A log call reaches the configured logger exactly once, with the configured prefix and its message unchanged, if and only if its severity is enabled at the configured level; disabled calls reach it never. Fatal calls additionally terminate the process with status 1, and calls never modify the caller's arguments.",
  ["inputs", "configurations"], "all levels, prefixes, argument lists and formats",
  "The log package has no test.",
  ["log/log.go"], [("level filter and prefixing", "log/log.go")],
  ["calls received by a recording logger"])

p("C28", "Construction honours its options or fails cleanly",
  "Creating a server either succeeds, owning the requested address with exactly the configured number of loops and the given options visible, or returns an error and leaves behind no listening socket, descriptor or goroutine. A nil handler, an unusable address or an address already in use is an error; with port reuse enabled several servers can share one address and every connection is served by exactly one of them.",
  ["configurations", "fault_sequences"], "all option combinations and failures at each resource-acquisition step (including descriptor exhaustion)",
  "Tests construct servers only with valid options and ample descriptors.",
  ["server.go", "options.go", "listener.go", "eventloop/eventloop.go", "poller/epoll.go"], [("construction and unwinding", "server.go NewServer, listener.go newListener, poller/epoll.go Create")],
  ["returned values, strategy's view of loops, /proc/self/fd under injected descriptor limits"])

p("C29", "Accepting recovers from descriptor exhaustion and aborted connections",
  "If accepting fails temporarily (descriptor limit reached, or peers that connect and reset at once), existing connections continue to be served and, once descriptors are available again, all still-waiting peers are accepted and served. No accepted connection is lost, leaked or served twice.",
  ["fault_sequences", "histories"], "all points at which the limit is hit and lifted, any number of waiting or aborted peers",
  "Tests never exhaust descriptors.",
  ["listener.go", "server.go", "poller/epoll.go"], [("level-triggered accept", "listener.go HandleEvent")],
  ["service of existing and waiting connections around an injected RLIMIT_NOFILE"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
