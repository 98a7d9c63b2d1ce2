#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

I, S, F, H, C = "inputs", "schedules", "fault_sequences", "histories", "configurations"

p("C01", "Packets survive an encode/decode round trip unchanged",
  "Encoding any srpc packet (call start, call data, call cancel) or rpcstream packet (init, ack, data) and decoding the bytes yields a packet equal to the original in every field, and the size reported beforehand is exactly the number of bytes written. This holds for empty fields, for every combination of flags, and for field lengths on both sides of the varint length boundaries.",
  [I], "all packets of every body kind, all flag values, all string/byte contents, lengths 0..3 and 126..130 and 16382..16385 per field",
  "TestRawMessage encodes one constant packet; the e2e tests exchange a handful of short messages and never cross a varint length boundary.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go", "srpc/packet.go"],
  [("SizeVT / MarshalToSizedBufferVT / UnmarshalVT", "srpc/rpcproto.pb.go"), ("packet constructors", "srpc/packet.go")],
  observe=["MarshalVT", "SizeVT", "UnmarshalVT"])

p("C02", "Decoding untrusted bytes is total and follows the protobuf wire format",
  "Decoding an arbitrary byte string as an srpc or rpcstream packet never panics and always terminates: it either returns an error or yields the message the protobuf wire format prescribes (fields in any order, the last scalar wins, a repeated sub-message merges, the last oneof member wins). Malformed input (truncated, over-long varints, wrong wire type, field number zero) is reported as an error, and unknown fields are skipped and kept for re-encoding.",
  [I], "all byte strings up to the stated length",
  "No test feeds the decoder anything but well-formed packets produced by the encoder.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go"],
  [("UnmarshalVT bounds and overflow checks", "srpc/rpcproto.pb.go")],
  observe=["UnmarshalVT", "NewPacketDataHandler"])

p("C03", "Framing delivers exactly the packets written, for any segmentation",
  "Whatever sequence of packets one side writes, a reader on the other side of a reliable byte stream hands its handler exactly those packets, byte for byte, once each and in order, no matter how the transport splits or coalesces the bytes into reads, including reads that return the last bytes together with end-of-stream. A clean end of stream is reported to the close handler as no error.",
  [I, F], "all packet contents, all ways of cutting the byte stream into non-empty reads, all packet counts up to the bound, frames below, at and above the 2048 byte read size",
  "The tests run over an in-memory pipe whose segmentation is fixed (one read per write) and never see a frame split inside its length prefix or several frames in one read.",
  ["srpc/packet-rw.go"],
  [("ReadToHandler length-prefix state machine", "srpc/packet-rw.go"), ("WritePacket", "srpc/packet-rw.go")],
  state=[("buffered bytes / current length", "bytes received but not yet emitted and the pending frame length", "srpc/packet-rw.go")],
  observe=["ReadPump", "ReadToHandler", "WritePacket"])

p("C04", "Malformed or truncated frames are never delivered",
  "A frame whose length prefix is zero or larger than the 10,000,000 byte maximum is rejected with an error before anything of it is delivered, and no handler is ever given a frame whose bytes have not all arrived. When the transport fails, or the handler returns an error, reading stops, no later frame is delivered, and the close handler is called exactly once with that error.",
  [I, F], "all 32-bit length prefixes, all truncation points, all positions of a transport or handler error",
  "No test sends a bad prefix, truncates a stream or makes the handler fail.",
  ["srpc/packet-rw.go"],
  [("prefix validation", "srpc/packet-rw.go ReadToHandler"), ("ReadPump close notification", "srpc/packet-rw.go")],
  observe=["ReadPump", "ReadToHandler"])

p("C05", "Concurrent and partial writes never corrupt the frame sequence",
  "Packets written concurrently to one connection appear on the transport as whole, uninterleaved frames, one per successful write, in every schedule, even when the transport accepts only part of a frame per call. A transport error ends the write, is returned to the caller, and nothing of that frame is written after it.",
  [S, F, I], "all schedules of two concurrent writers within the preemption bound, all short-write patterns, all error positions",
  "Tests write from one goroutine per direction most of the time, and an in-memory pipe or yamux stream never returns a short write.",
  ["srpc/packet-rw.go"],
  [("write mutex and write loop", "srpc/packet-rw.go WritePacket"), ("Write", "srpc/packet-rw.go")],
  observe=["the io.ReadWriteCloser under NewPacketReadWriter"])

p("C06", "A call delivers its messages in order, exactly once, then its end",
  "The reader of a call (client or server side) receives exactly the messages the peer sent on it, including messages that encode to zero bytes, in the order sent and without loss, duplication or invention; only after the last of them does it see end-of-stream (if the peer completed normally) or the peer's error. Every later read repeats that outcome, and data arriving after completion is rejected, not delivered.",
  [H, I, S], "all sequences of call start/data/complete packets and reads up to the bound, all contents, reads racing with arrivals",
  "The e2e tests exchange one or five non-empty messages in lock step; they never read behind a queue, send an empty message or send after completion.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/msg-stream.go"],
  [("data queue under the broadcast lock", "srpc/common-rpc.go HandleCallData / ReadOne"), ("first message in call start", "srpc/server-rpc.go HandleCallStart")],
  state=[("data queue, closed flag, remote error", "messages received and not yet read; whether more may come; how the call ended", "srpc/common-rpc.go")],
  observe=["ReadOne", "MsgRecv", "HandlePacket"])

p("C07", "The handler's outcome reaches the caller unchanged",
  "If a service method fails with a (non-empty) error text the caller's call or stream read fails with that same text after any messages sent before it; if the method or service does not exist the caller gets the unimplemented error; if the method succeeds the caller sees no error. Each server call ends with exactly one completion packet, sent after every message the handler sent.",
  [I, H], "all error texts, all response contents, any number of messages before the end, up to the bound",
  "No test makes a handler return an error or calls a missing method.",
  ["srpc/server-rpc.go", "srpc/common-rpc.go", "srpc/client.go", "srpc/packet.go"],
  [("completion packet", "srpc/server-rpc.go invokeRPC"), ("error field", "srpc/packet.go NewCallDataPacket")],
  observe=["ExecCall", "MsgRecv", "Invoker"])

p("C08", "A unary call ends with its own result, one invocation and no leftovers",
  "A request/response call made through a client connected to a server invokes the addressed method exactly once with the request the caller passed, and returns the handler's response or error to that caller, in every schedule of client, transport and server. When the call returns, the transport stream of the call has been closed, and once the handler has returned nothing of the call is left running on either side.",
  [S, I], "all schedules within the preemption bound, all request and response contents within the size bound",
  "TestE2E_Unary and TestE2E_Cancel run one schedule each with one constant message and never look for leaked goroutines or unclosed streams.",
  ["srpc/client.go", "srpc/client-rpc.go", "srpc/server.go", "srpc/server-rpc.go", "srpc/server-pipe.go"],
  [("ExecCall", "srpc/client.go"), ("HandleStream / invokeRPC", "srpc/server.go, srpc/server-rpc.go")],
  observe=["Client.ExecCall", "Server.HandleStream", "transport Close"])

p("C09", "Once a call has completed on the wire its outcome never changes",
  "After the client has received the completion of a call, whatever arrives later on the stream (a surplus completion or data packet, a cancel-free close, a transport error) leaves the result unchanged: the caller still reads every queued message and then the outcome the completion announced. In particular a stream whose server finished with send-and-close ends in end-of-stream for the reader, however late it reads.",
  [H, S, F], "all completion kinds followed by all sequences of late packets and close notifications up to the bound, reads at any point",
  "Tests read immediately, so the late packet or the close practically never overtakes the reader.",
  ["srpc/client-rpc.go", "srpc/common-rpc.go"],
  [("HandleStreamClose", "srpc/client-rpc.go"), ("HandleCallData after completion", "srpc/common-rpc.go")],
  state=[("remote error", "the first terminal outcome", "srpc/common-rpc.go")],
  observe=["ReadOne", "MsgRecv"])

p("C10", "Cancellation and close reach both sides and unblock every waiter",
  "When the caller cancels its context or closes its stream, or the connection fails, a pending or later read on that call returns instead of blocking, with an error once the messages received before are drained, and the server side's stream context is cancelled once it receives the cancel packet or sees the stream close. A client starting a call under an already cancelled context sends nothing and returns a cancelled error; a call that was cancelled before it started on the server is never invoked.",
  [S, F, H], "every point of a call's life at which cancel, close or connection failure can happen, in every schedule within the preemption bound",
  "TestE2E_Cancel cancels at one point (handler blocked) in one schedule.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/msg-stream.go"],
  [("HandleStreamClose / HandleCallCancel", "srpc/common-rpc.go"), ("ReadOne context handling", "srpc/common-rpc.go"), ("Start", "srpc/client-rpc.go")],
  observe=["ReadOne", "Wait", "Stream.Context", "ClientRPC.Close"])

p("C11", "No wakeup is lost and no deadlock arises inside a call",
  "A reader or waiter blocked on a call always resumes once a message, the completion, the peer's error, a stream close or a context cancellation has been delivered, whichever order and interleaving they and the reader run in. Concurrent use of one call by its reader, its writer, its packet source and its closer never deadlocks and never makes unsynchronised conflicting accesses to the call's state.",
  [S], "all interleavings, within the preemption bound, of a reader or waiter with one or two concurrent deliveries, closes or cancellations",
  "A lost wakeup needs one particular interleaving of the reader's check and the delivery; the tests sample a few schedules.",
  ["srpc/common-rpc.go", "srpc/client-rpc.go", "srpc/server-rpc.go"],
  [("wait channel obtained under the lock that guards the checked state", "srpc/common-rpc.go ReadOne / Wait")],
  observe=["ReadOne", "Wait", "Close"])

p("C12", "A server stream starts at most one call and closes it properly",
  "On one server-side stream the method named by the first call start is invoked at most once: a second call start, or a start after cancellation or completion, is refused with an error and invokes nothing. When the invoked method returns, the server sends the completion, closes the packet writer and cancels the call's context, in every schedule.",
  [H, S], "all packet sequences up to the bound, in every schedule within the preemption bound",
  "Tests send one well-formed call start per stream.",
  ["srpc/server-rpc.go", "srpc/common-rpc.go"],
  [("start-once check", "srpc/server-rpc.go HandleCallStart"), ("invokeRPC", "srpc/server-rpc.go")],
  observe=["Invoker.InvokeMethod", "PacketWriter"])

p("C13", "No packet sequence from the peer can crash a client or server",
  "Feeding a client or server call any sequence of packets, valid or not, as bytes or parsed, before or after the call was started or completed, never panics and never blocks: invalid packets (no body, missing service or method, empty data, a call start sent to a client, undecodable bytes) are rejected with an error and change nothing. A cancel packet whose flag is false is ignored.",
  [I, H], "all packet sequences up to the bound with arbitrary field contents, at every stage of a call",
  "Tests only ever receive packets from a well-behaved peer after the call has been started.",
  ["srpc/client-rpc.go", "srpc/server-rpc.go", "srpc/common-rpc.go", "srpc/packet.go"],
  [("Validate", "srpc/packet.go"), ("HandlePacket dispatch", "srpc/client-rpc.go, srpc/server-rpc.go")],
  observe=["HandlePacketData", "HandlePacket"])

p("C14", "Half-closing a stream ends it without inventing a message",
  "Closing the send direction makes the peer's reader see end-of-stream after exactly the messages sent before it; no additional (empty) message appears. The half-closed side can still receive everything the peer sends afterwards, and sending an empty message remains distinguishable from closing.",
  [H, I], "all sequences of up to the bounded number of sends (including empty messages) followed by a half close, in either direction",
  "No test reads past the half close of its peer and counts the messages.",
  ["srpc/msg-stream.go", "srpc/common-rpc.go", "srpc/packet.go"],
  [("CloseSend", "srpc/msg-stream.go"), ("WriteCallData / data-is-zero flag", "srpc/common-rpc.go")],
  observe=["Stream.CloseSend", "Stream.MsgRecv"])

p("C15", "The mux routes every call to the registered handler or its fallbacks",
  "A call for a service and method goes to the handler most recently registered for exactly that pair, with the ids and stream it was called with, and its result is returned; with an empty service id any handler registered for the method may serve it. If no handler is registered for the pair, the fallback invokers are tried in order until one handles the call or fails, and if none does the call is reported as not found without invoking anything else.",
  [I, H, C], "all service and method ids within the length bound, all registration sequences and fallback lists up to the bound",
  "Tests register one service per mux and only call methods that exist.",
  ["srpc/mux.go"],
  [("InvokeMethod lookup", "srpc/mux.go"), ("Register", "srpc/mux.go")],
  state=[("service and method table", "handler per (service, method)", "srpc/mux.go")],
  observe=["Mux.InvokeMethod", "Handler.InvokeMethod"])

p("C16", "Mux queries agree with routing, also under concurrent registration",
  "The mux reports having a service or a service method exactly when a handler was registered for it (empty ids are never present, a service registered without any method counts as absent, and registering an empty service id fails and changes nothing). Registering, querying and invoking concurrently is free of data races, never deadlocks, and a call made after a registration completed sees it; a handler may register services or make calls on the same mux while it runs.",
  [S, H, I], "all registration sequences up to the bound and all interleavings of a registration with a query or call within the preemption bound",
  "No test queries the mux or registers concurrently.",
  ["srpc/mux.go"],
  [("read-write lock", "srpc/mux.go")],
  observe=["Mux.HasService", "Mux.HasServiceMethod", "Mux.Register"])

p("C17", "Prefixed invokers and clients strip exactly the first matching prefix",
  "With a list of non-empty prefixes, a service id that starts with one of them is forwarded with exactly the first matching prefix removed and nothing else changed; an id matching none is refused as not found (invoker) or unimplemented (client) without reaching the underlying invoker or client. With no prefixes every call is forwarded unchanged, and results and errors pass through unchanged.",
  [I, C], "all ids and prefix lists within the length bounds",
  "No test uses a prefixed invoker or client.",
  ["srpc/strip-prefix.go", "srpc/invoker-prefix.go", "srpc/client-prefix.go"],
  [("CheckStripPrefix", "srpc/strip-prefix.go")],
  observe=["PrefixInvoker.InvokeMethod", "PrefixClient.ExecCall", "PrefixClient.NewStream"])

p("C18", "Invoker chains stop at the first invoker that handles or fails the call",
  "A list of invokers tries its non-nil members in order with the caller's ids and stream and stops at the first that handles the call or returns an error, returning its error; later members are never invoked. If none handles it the call is reported as not found with no error, and a nil invoker function behaves as not found.",
  [C, I], "all lists up to the bound with nil, not-found, handling and failing members in any order",
  "No test uses invoker lists.",
  ["srpc/invoker.go"],
  [("InvokerSlice.InvokeMethod", "srpc/invoker.go")],
  observe=["InvokerSlice.InvokeMethod", "InvokerFunc.InvokeMethod"])

p("C19", "A client set fails over only on unimplemented or unavailable clients",
  "A set of clients tries its non-nil members in order, moving on only if a member reports unimplemented or was cancelled while the caller's own context is still live; the first success or other error is returned and no later member is used, so a call is never executed again after one member accepted or failed it. If the caller's context is cancelled the set returns a cancelled error at once; an empty set reports that no client is available, an exhausted one unimplemented.",
  [C, I, F], "all sets up to the bound with every combination of outcomes and caller cancellation",
  "No test uses a client set.",
  ["srpc/client-set.go"],
  [("execCall", "srpc/client-set.go")],
  observe=["ClientSet.ExecCall", "ClientSet.NewStream"])

p("C20", "Raw messages carry bytes unchanged and copy when asked to",
  "A raw message returns exactly the bytes last set or unmarshaled into it, and its reported size and sized marshaling agree with them (a wrongly sized buffer is refused). In copy mode it never shares memory with the buffers it was given after construction or returned from marshaling: changing one later never changes the other, including when a message is reused for larger and smaller data or cleared in between.",
  [I, H], "all contents within the length bound, all sequences of set/unmarshal/clear/reset/marshal up to the bound",
  "TestRawMessage checks one non-copying round trip.",
  ["srpc/message.go"],
  [("SetData / MarshalVT", "srpc/message.go")],
  observe=["RawMessage methods"])

p("C21", "Byte-stream adapters preserve the byte sequence",
  "Reading through the byte-stream adapter of a stream (srpc stream or rpcstream) yields exactly the concatenation of the message payloads received, whatever buffer sizes the reader uses and wherever message boundaries fall; a non-empty read returns zero bytes only together with an error, an error comes only after all earlier bytes, and a remote error in an rpcstream ack is surfaced. Each non-empty write sends the bytes as one message that is unaffected by later changes to the caller's buffer, and reports the full length on success and the error on failure.",
  [I, H], "all message sequences and read sizes within the bound, all contents",
  "No test uses the adapters directly; the raw stream handler is untested.",
  ["srpc/stream-rwc.go", "rpcstream/read-writer.go", "rpcstream/writer.go"],
  [("Read buffering", "srpc/stream-rwc.go, rpcstream/read-writer.go")],
  observe=["Read", "Write"])

p("C22", "The connection wrapper preserves the byte stream and shuts down cleanly",
  "A connection built over a read-write-closer returns the bytes read from it in order without loss, duplication or corruption to a reader whose buffer holds a whole chunk (a smaller buffer gets a short-buffer error, never silent loss), then the underlying error or end-of-stream; writes pass all bytes through in order, completing short writes and reporting errors with the count written. Closing the connection, or cancelling its context, unblocks a blocked reader and ends the background receive loop, even if received data is never read; after a cancellation alone the loop ends no later than its pending read of the underlying connection. A read still blocked at its deadline fails with a deadline error and loses nothing.",
  [I, F, S], "all chunk contents, short writes, read/write error positions, and interleavings of the receive loop with reads and close within the bounds",
  "No test uses the wrapper.",
  ["srpc/rwc-conn.go"],
  [("rxPump / packet arena", "srpc/rwc-conn.go"), ("Read / Write / Close", "srpc/rwc-conn.go")],
  observe=["RwcConn.Read", "RwcConn.Write", "RwcConn.Close"])

p("C23", "The in-memory stream pair behaves like a stream and never panics",
  "Messages sent on one end of an in-memory stream pair are received on the other in order and exactly once, then end-of-stream after the sender closed its send direction. Sending after a half close or close returns an error, closing twice or concurrently with a send is safe, cancelling the context unblocks senders and receivers, and no sequence or interleaving of these operations panics or deadlocks.",
  [H, S, I], "all operation sequences up to the bound and all interleavings of a send with a close within the preemption bound",
  "The in-memory stream pair has no tests.",
  ["srpc/stream-pipe.go"],
  [("data channel close-once", "srpc/stream-pipe.go")],
  observe=["NewPipeStream"])

p("C24", "Opening an rpc stream performs the handshake or fails cleanly",
  "Opening an rpcstream calls the remote, sends exactly one init packet carrying the given component id first, and, when asked to wait, returns success only after an ack without error; a remote error is reported with its text, any other packet or a closed stream is an error. On every failure after the remote call succeeded the underlying stream is closed, and no stream is returned together with an error.",
  [I, F], "all component ids, first packets and failure points within the bounds",
  "The tests open rpc streams without waiting for the ack and never fail the handshake.",
  ["rpcstream/rpcstream.go"],
  [("OpenRpcStream", "rpcstream/rpcstream.go")],
  observe=["OpenRpcStream", "NewRpcStreamOpenStream"])

p("C25", "Serving an rpc stream checks, acknowledges and releases the component",
  "The serving side of an rpcstream accepts only an init packet first (anything else ends it with an error and looks nothing up), looks up exactly the component id received, and sends exactly one ack, before any data, carrying the lookup's error text or none; a failed or empty lookup ends the stream with an error and serves nothing. A component that was handed out is released exactly once, when the stream ends, however it ends.",
  [I, F, S], "all first packets, component ids, lookup outcomes and send failures within the bounds",
  "The e2e test covers one successful lookup only.",
  ["rpcstream/rpcstream.go", "rpcstream/raw-stream.go"],
  [("HandleRpcStream / HandleRawRpcStream", "rpcstream/rpcstream.go, rpcstream/raw-stream.go")],
  observe=["HandleRpcStream", "HandleRawRpcStream", "the getter's release function"])

p("C26", "Proxied and raw rpc streams forward all data unchanged in both directions",
  "Once established, a raw or proxied rpcstream forwards every non-empty packet or byte received on one side to the other unchanged, in order and exactly once, in both directions, until one side ends or fails; the ack seen by the caller of a proxied stream is the target's. When a side ends, both sides are closed, the handler returns (with the failure, if it was one other than end-of-stream), the target is released exactly once, and no copying goroutine is left behind.",
  [I, S, F], "all packet contents, end and failure positions, and interleavings of the two directions within the bounds",
  "Neither the raw handler nor the proxy has a test.",
  ["rpcstream/proxy.go", "rpcstream/raw-stream.go", "rpcstream/read-writer.go"],
  [("copyRpcStreamTo / copyRwcTo", "rpcstream/proxy.go, rpcstream/raw-stream.go")],
  observe=["HandleProxyRpcStream", "HandleRawRpcStream"])

p("C27", "A call nested in an rpc stream behaves like a direct call",
  "A call made by a client over an rpcstream reaches the component's invoker with the request, service and method the caller passed, invokes it exactly once, and returns the same response or error text to the caller as a direct call would, whether or not the open waits for the ack. Calls to a component that is not found fail, with the lookup's error if the open waited for the ack.",
  [I, S], "all request, response and error contents within the bounds; delivery schedules within the preemption bound",
  "TestE2E_RpcStream makes one successful nested call in one schedule.",
  ["rpcstream/rpcstream.go", "rpcstream/writer.go", "srpc/client.go", "srpc/server-rpc.go"],
  [("RpcStreamWriter / ReadPump", "rpcstream/writer.go, rpcstream/read-writer.go")],
  observe=["NewRpcStreamClient", "HandleRpcStream"])

p("C28", "Generated clients and handlers agree on routing and message flow",
  "For every service the Go code generator handles (and for the generated code in the repository), each generated client method calls the remote method of its own name on its service id (the configured one if overridden), and the generated handler dispatches exactly that id pair to the matching implementation method and nothing else. For unary, client-streaming, server-streaming and bidirectional methods the request and response messages pass through unchanged (a nil message to the send of a client stream or to a send-and-close sends nothing), errors of the implementation and of the stream are returned, and the method list equals the set of dispatched methods.",
  [I, C], "all methods of the repository's services and of a synthetic service with every streaming kind, all message contents and error outcomes within the bounds",
  "Tests call four of the six methods of one service and never regenerate the code.",
  ["cmd/protoc-gen-go-starpc/main.go", "echo/echo_srpc.pb.go", "mock/mock_srpc.pb.go"],
  [("generateClientMethod / generateService", "cmd/protoc-gen-go-starpc/main.go")],
  observe=["generated SRPC clients and handlers"])

p("C29", "Decorators are transparent",
  "Verbose logging wrappers around a client or mux forward every argument to the wrapped object exactly once and return its results and errors unchanged, with any logging level. Stream and packet-writer wrappers with a close callback forward everything else unchanged and on close run both the wrapped close and the callback exactly once, returning the first error.",
  [I, C], "all arguments, results and error combinations within the bounds",
  "The e2e test passes one successful unary call through the verbose client.",
  ["srpc/client-verbose.go", "srpc/mux-verbose.go", "srpc/stream.go", "srpc/writer.go"],
  [("VClient, VMux", "srpc/client-verbose.go, srpc/mux-verbose.go"), ("streamWithClose, packetWriterWithClose", "srpc/stream.go, srpc/writer.go")],
  observe=["NewVClient", "NewVMux", "NewStreamWithClose", "NewPacketWriterWithClose"])

p("C30", "Connections are set up with opposite roles, independently, and torn down",
  "The dialing side and the accepting side of a TCP or WebSocket connection take opposite multiplexer roles, so that a dialed client can call a listening server. A listener keeps accepting and serving further connections while earlier ones are open and after failed ones, and listening ends, releasing the listener, when its context is cancelled (which also closes the accepted connections) or on a fatal listener error; the HTTP server upgrades exactly the requests for its configured path (every path if none is configured).",
  [S, F, I, C], "all accept outcomes and connection lifetimes up to the bound, in every schedule within the preemption bound; all request paths within the length bound",
  "Tests construct both muxer ends by hand over an in-memory pipe and never dial, listen, accept twice or serve HTTP.",
  ["srpc/net.go", "srpc/accept.go", "srpc/muxed-conn.go", "srpc/websocket.go", "srpc/server-http.go"],
  [("NewMuxedConn role argument", "srpc/muxed-conn.go, srpc/net.go"), ("accept loop", "srpc/accept.go"), ("Listen", "srpc/net.go")],
  observe=["Dial", "Listen", "AcceptMuxedListener", "HTTPServer.ServeHTTP"])

p("C31", "Every stream of a connection is served independently",
  "A server accepting a multiplexed connection serves every stream opened on it, each by its own call with its own state, while earlier streams are still running; it stops with end-of-stream, the accept error or a cancelled error when the connection is closed or fails, or the context is cancelled and its pending accept returns, and a stream that fails does not affect the others. The client side opens one new stream per call, reads it with the handlers of that call only, and reports a cancelled context as cancelled.",
  [S, F], "all numbers of streams up to the bound, accept and open outcomes, in every schedule within the preemption bound",
  "Tests run one call at a time per connection.",
  ["srpc/server.go", "srpc/muxed-conn.go"],
  [("AcceptMuxedConn", "srpc/server.go"), ("NewOpenStreamWithMuxedConn", "srpc/muxed-conn.go")],
  observe=["Server.AcceptMuxedConn", "NewOpenStreamWithMuxedConn"])

p("C32", "A failed or finished client call always releases its resources",
  "Whatever way starting or running a client call fails (marshal, open, write, read, undecodable response, cancellation), the error is returned to the caller, no half-started stream is returned, every packet writer the transport handed out has been closed by the time a failed start or a unary call returns, and the call's context is cancelled. Closing a stream closes its packet writer after telling the peer, and closing twice is harmless.",
  [F, S], "every failure point of unary and streaming calls, in every schedule within the preemption bound",
  "Tests only exercise calls that start successfully.",
  ["srpc/client.go", "srpc/client-rpc.go", "srpc/msg-stream.go"],
  [("ExecCall / NewStream error paths", "srpc/client.go"), ("Start / Close", "srpc/client-rpc.go")],
  observe=["Client.ExecCall", "Client.NewStream", "PacketWriter.Close", "the context given to the transport"])

p("C33", "Received messages never change after delivery",
  "A message delivered to an application, or queued for it, keeps its content whatever the transport does next: buffers reused by the frame reader, by decoding, by forwarding or by the connection wrapper never alias a delivered message. Likewise a message handed to send may be modified by its owner as soon as send has returned without affecting what the peer receives.",
  [H, I], "all message contents and all sequences of following reads and writes up to the bound",
  "Tests read each message before the next arrives, so a shared buffer would not be noticed.",
  ["srpc/packet-rw.go", "srpc/rpcproto.pb.go", "srpc/common-rpc.go", "srpc/rwc-conn.go", "rpcstream/read-writer.go"],
  [("copying in UnmarshalVT", "srpc/rpcproto.pb.go, rpcstream/rpcstream.pb.go")],
  observe=["ReadOne", "HandlePacketData"])

p("C34", "Message clone and equality agree with the content",
  "Cloning an srpc, rpcstream, echo or mock message gives an equal message that shares no memory with it, so that changing either afterwards does not change the other. Two messages compare equal exactly when all their fields, their body kinds and their unknown fields are equal (a nil sub-message in a body counts as empty), and equality is reflexive and symmetric.",
  [I], "all pairs of messages with fields within the length bound",
  "No test clones or compares messages.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go"],
  [("CloneVT / EqualVT", "srpc/rpcproto.pb.go")],
  observe=["CloneVT", "EqualVT"])

p("C35", "The JSON form of a message carries exactly its content",
  "Marshaling any srpc, rpcstream, echo or mock message to JSON gives an object with exactly the fields that are set, under their protobuf JSON names and in the protobuf JSON representation of their type. Unmarshaling it yields an equal message, also when the fields come in another order, under their original proto names, or together with unknown fields, and null reads as the empty message.",
  [I], "all messages with string fields of printable characters and bytes fields within the length bound, every combination of set fields and every body kind",
  "No test of the repository marshals a message to JSON.",
  ["srpc/rpcproto.pb.go", "rpcstream/rpcstream.pb.go", "echo/echo.pb.go", "mock/mock.pb.go"],
  [("MarshalProtoJSON / UnmarshalProtoJSON", "srpc/rpcproto.pb.go")],
  observe=["MarshalJSON", "UnmarshalJSON"])

p("C36", "Streams are full duplex and safe for concurrent senders",
  "Both sides of a streaming call can send and receive at the same time: each direction delivers its own messages in order whatever happens in the other, a side may send all its messages before it reads any, and a call that alternates question and answer never stalls. Several goroutines may send on one stream concurrently: every message arrives once and unmixed, the messages of each sender in its order, the end after all of them, and no memory is accessed without synchronization.",
  [S, I], "all message contents and numbers up to the bound, every schedule of both sides' senders and receivers within the preemption bound, buffered and unbuffered transports",
  "Tests send and receive in turn from one goroutine per side; a lock held across a blocking send or a lost message needs a particular interleaving.",
  ["srpc/common-rpc.go", "srpc/msg-stream.go", "srpc/packet-rw.go", "srpc/client-rpc.go", "srpc/server-rpc.go"],
  [("MsgSend / MsgRecv", "srpc/msg-stream.go"), ("ReadOne / HandleCallData", "srpc/common-rpc.go"), ("WritePacket", "srpc/packet-rw.go")],
  observe=["Stream.MsgSend", "Stream.MsgRecv", "Stream.CloseSend"])

p("C37", "The bundled echo and mock services do what they document",
  "Registered on a mux, the echo service answers a unary call with an equal copy of the request, a client stream with its first message or the stream's error, and a bidirectional stream with a greeting followed by every message in order until the caller half-closes, refusing an empty message; a server stream sends five copies of the request unless the call is cancelled or a send fails, which it reports as such; its RpcStream method serves calls to the configured mux and fails without one. The mock service runs its callback with the call's context and request and returns its outcome, and is unimplemented without one.",
  [I, F], "all message bodies and counts up to the bound, every point of failure, end or cancellation of the caller's stream",
  "The e2e tests run one fixed conversation per method and no failure inside it.",
  ["echo/server.go", "mock/mock.go"],
  [("EchoServer", "echo/server.go"), ("MockServer", "mock/mock.go")],
  observe=["EchoServer", "MockServer"])

p("C38", "TypeScript packets survive encoding and framing unchanged",
  "In the TypeScript implementation every srpc and rpcstream packet decodes to what was encoded, in the protobuf wire form the Go side uses. A sequence of packets written with the length-prefix framing is read back as exactly these packets in order, however the transport cuts the bytes, and a packet is delivered as soon as its last byte has arrived. Bytes that are no packet end the stream with an error and never hang, and the end or failure of the underlying stream is passed on.",
  [I, F], "all packet kinds and contents, all cuts of the byte stream, all byte sequences up to the bound",
  "The one TypeScript test exchanges a few short calls over an in-memory connection that is never cut inside a frame.",
  ["srpc/packet.ts", "srpc/length-prefix.ts", "srpc/array-list.ts", "srpc/stream.ts", "srpc/message.ts", "srpc/rpcproto.pb.ts", "rpcstream/rpcstream.pb.ts"],
  [("length-prefix transforms", "srpc/packet.ts"), ("uint32 length prefix", "srpc/length-prefix.ts"), ("message transforms", "srpc/message.ts")],
  observe=["parseLengthPrefixTransform", "prependLengthPrefixTransform", "encodePacketSource", "decodePacketSource", "streamToPacketStream"])

p("C39", "TypeScript calls deliver messages in order and end exactly once",
  "For every sequence of packets from the peer, a TypeScript client or server call passes on exactly the messages received before the call ended, once each, in order and unchanged, and every call ends: with the response, with the peer's error, with the end or failure of the stream, or with an abort error as soon as its abort signal fires. Requests appear on the wire as call start, data, completion or cancel as the protocol demands, and nothing of the packet stream is left running. Streaming methods pass on the end and the failure of the caller's input.",
  [H, F, S], "all packet sequences up to the bound, all ways the stream can end, all points at which a call is aborted, all outcomes of the handler",
  "The TypeScript test runs four successful calls and one abort against the echo server.",
  ["srpc/client.ts", "srpc/client-rpc.ts", "srpc/server-rpc.ts", "srpc/common-rpc.ts", "srpc/invoker.ts", "srpc/server.ts", "srpc/pushable.ts", "echo/server.ts", "echo/echo_srpc.pb.ts"],
  [("CommonRPC", "srpc/common-rpc.ts"), ("Client", "srpc/client.ts"), ("createInvokeFn", "srpc/invoker.ts")],
  state=[("packet sink and data source", "where outgoing packets and incoming messages of the call wait", "srpc/common-rpc.ts")],
  observe=["Client", "Server", "ServerRPC", "ClientRPC"])

p("C40", "TypeScript routing finds the method named and rpc streams carry it on",
  "A TypeScript mux resolves a service and method exactly when a handler or lookup function registered for it has it, and answers no method otherwise, whatever the names; a handler offers exactly its own methods. An rpc stream sends the component id first, lets messages flow only after the component was found (or at once if asked to), passes messages both ways in order and unchanged, and passes on a refusal, the end and the failure of either side.",
  [I, H, F], "all names up to the bound, all registrations and lookup outcomes, all packet sequences on an rpc stream up to the bound",
  "The TypeScript test registers one service and uses one rpc stream that always succeeds.",
  ["srpc/mux.ts", "srpc/handler.ts", "rpcstream/rpcstream.ts"],
  [("StaticMux", "srpc/mux.ts"), ("RpcStream", "rpcstream/rpcstream.ts"), ("handleRpcStream", "rpcstream/rpcstream.ts")],
  state=[("services", "registered handlers by service id", "srpc/mux.ts")],
  observe=["createMux", "createHandler", "openRpcStream", "handleRpcStream", "RpcStream"])

p("C41", "TypeScript channel streams open, carry data in order and time out correctly",
  "A TypeScript stream over a message port or broadcast channels sends data only after the other side has opened it, whatever the order in which the two sides are created and start writing, and then delivers every value once, unchanged and in order in each direction until that direction ends or fails or the stream is closed, which the other side learns. A stream with an idle timeout closes exactly when it has heard nothing for that long, a stream with a keep-alive interval never stays silent for longer, and closing releases everything that waits and stops all timers.",
  [S, H, I], "all orders of construction, delivery, writing and ending up to the bound, all message combinations, all intervals and times of events up to the bound",
  "No test covers timeouts, keep-alive, closing or failing; the one test uses a channel that is up at once.",
  ["srpc/channel.ts", "srpc/watchdog.ts"],
  [("ChannelStream", "srpc/channel.ts"), ("Watchdog", "srpc/watchdog.ts")],
  state=[("open and ack flags", "what each side knows about the other", "srpc/channel.ts")],
  observe=["ChannelStream", "newBroadcastChannelStream", "Watchdog"])

p("C42", "TypeScript connections carry bytes both ways and end cleanly",
  "A TypeScript connection over a message port, broadcast channels or a websocket passes bytes between the transport and its muxer in order in both directions; when the peer leaves, the muxer ends or fails, or it is closed, the muxer is closed or aborted with the error, the peer is told and the channel closed, any number of times and with nothing left unhandled. Incoming streams go to the server, framed into packets, and are refused without one. A container of an open or handle function serves everyone who waits as soon as it is set and later callers at once.",
  [H, S, F, C], "all sequences of traffic, ends, failures and closes up to the bound, all configurations, all operation sequences of a container up to the bound",
  "The TypeScript test uses one in-memory connection that is never closed or failed.",
  ["srpc/conn.ts", "srpc/message-port.ts", "srpc/broadcast-channel.ts", "srpc/websocket.ts", "srpc/value-ctr.ts", "srpc/open-stream-ctr.ts", "srpc/handle-stream-ctr.ts", "srpc/errors.ts", "srpc/stream.ts"],
  [("StreamConn", "srpc/conn.ts"), ("MessagePortDuplex", "srpc/message-port.ts"), ("BroadcastChannelDuplex", "srpc/broadcast-channel.ts"), ("ValueCtr", "srpc/value-ctr.ts")],
  observe=["StreamConn", "MessagePortConn", "BroadcastChannelConn", "WebSocketConn", "OpenStreamCtr", "HandleStreamCtr"])

p("C43", "Generated TypeScript clients and definitions agree on routing and message flow",
  "For every service the TypeScript generator handles (and for the generated code in the repository), each method of the generated client makes one call of its own kind to the method of its own name on its service id (the configured one if overridden), with the request messages encoded in order and the abort signal passed on; responses are decoded in order, and the end and the failure of the call and of the requests are passed on. The generated definition describes the service id, the methods, their kinds and message types, so that a handler made from it invokes exactly the implementation of the method named.",
  [I, C], "all methods of synthetic services with every method kind and of the echo service, generated and committed; all message contents, ends and failures up to the bound",
  "No test runs the TypeScript generator, and the TypeScript test calls four methods of one committed client.",
  ["cmd/protoc-gen-es-starpc/typescript.ts", "echo/echo_srpc.pb.ts", "srpc/handler.ts", "srpc/message.ts", "srpc/definition.ts", "srpc/proto-rpc.ts"],
  [("generateService", "cmd/protoc-gen-es-starpc/typescript.ts"), ("createHandler", "srpc/handler.ts")],
  observe=["generated clients and definitions", "createHandler"])

p("C44", "Packets written to a JavaScript pushable arrive whole, in order and once",
  "In a browser build a packet writer over a JavaScript pushable pushes every packet written as one byte array of its own that holds exactly the encoded packet and does not change when later packets are written or the caller reuses its buffers, in the order of the writes. Closing the writer ends the pushable, once, without an error however often it is closed, and a write after that fails with a closed-pipe error and pushes nothing.",
  [I, S], "all packet kinds and contents, numbers of writes and closes up to the bound; two concurrent writers and closers in every schedule",
  "No test builds the code for a browser.",
  ["srpc/pushable_js.go"],
  [("WritePacket / Close", "srpc/pushable_js.go")],
  observe=["PushablePacketWriter"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
