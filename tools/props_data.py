prop("C01", "A buffer is a FIFO: bytes read are exactly the bytes written, in order",
 "For any buffer and any sequence of tail writes (single byte, slice, fixed-width integer, fill from a reader) interleaved with reads (single byte, slice, fixed-width integer, drain to a writer), the bytes that come out are exactly the bytes that went in, in the same order, each exactly once. The count every call returns equals the number of bytes it really transferred, also when the reader or writer on the other side reports an error or a short transfer.",
 ["inputs", "histories"],
 "every capacity, reserved size, data content, split into calls, and every reader/writer return value",
 "The unit tests use one 64-byte buffer, constant fill patterns and whole-buffer transfers; short and failing transfers with data, and mixed histories, are not sampled.",
 ["ubuf.go"], [("index discipline of tail writes and reads", "ubuf.go: Write, WriteByte, ReadFrom, Read, ReadByte, WriteTo")],
 ["return values and data of the exported buffer methods"])
prop("C02", "Buffer space accounting is exact, and no buffer operation panics",
 "At every moment head room + readable length + tail room equals the capacity and none of the three is negative; the capacity never changes; reset empties the buffer and restores the reserved head room. An operation on a valid buffer never panics: it transfers what fits, and a fixed-width, single-byte or head operation that lacks room or data returns an error and changes nothing. Constructors accept exactly the valid capacity/reserved pairs (allocation panics and adoption of a user slice returns nil otherwise), and a buffer adopted from a user slice can use that slice's whole capacity.",
 ["inputs", "histories"],
 "every capacity/reserved pair, slice length/capacity pair, operation, argument, and reachable buffer state (snapshots included)",
 "Boundary arithmetic at every capacity and every reachable pair of cursors cannot be sampled; the tests use one capacity.",
 ["ubuf.go"], [("bounds checks against readable length, head room, tail room", "ubuf.go")],
 ["HeadWritableLength/ReadableLength/TailWritableLength/Capacity, returned errors, panics"])
prop("C03", "A head write prepends exactly its bytes and disturbs nothing else",
 "Writing a byte, a slice or a fixed-width integer into the head space makes exactly those bytes the first readable bytes, followed by the previous readable bytes unchanged; head room shrinks by that many bytes and tail room stays the same. If the head room is too small an error is returned and neither data nor space changes.",
 ["inputs", "histories"],
 "every buffer state (head room, readable data, snapshot sharing), every value and length",
 "Tests write heads into an empty, never shared buffer at one fixed reserve.",
 ["ubuf.go"], [("temporary relocation of the write cursor for head writes", "ubuf.go: writeHead")],
 ["data read back after a head write"])
prop("C04", "Fixed-width integers have the documented byte order in every direction",
 "Writing a 16/32/64-bit integer big-endian (little-endian) at the tail or in the head puts its bytes most (least) significant first, and the variants without suffix are big-endian. Reading or peeking with the matching variant returns the same value and reading consumes exactly the width, for every value and every position in the buffer.",
 ["inputs"], "every value of each width, every buffer state",
 "Round trips over a few constants cannot exclude value- or position-dependent errors, and a same-sided round trip never sees a swapped byte order.",
 ["ubuf.go"], [("encoding/binary with explicit byte order", "ubuf.go: WriteUxx/ReadUxx/PeekUxx/WriteHeadUxx")],
 ["bytes read back one by one"])
prop("C05", "Peeking never consumes or changes anything and shows the next read",
 "A peek returns exactly what the corresponding read would return next and leaves the data, the cursors and every space count as they were; it fails exactly when the corresponding read lacks data, and a slice peek fills min(available, requested) bytes.",
 ["inputs", "histories"], "every buffer state, every peek variant and length",
 "Tests peek constants at the start of a freshly filled buffer.",
 ["ubuf.go"], [("peek reads at the read cursor without moving it", "ubuf.go: Peek*")],
 ["values of peek vs. read, space counts around a peek"])
prop("C06", "Copy-on-write and direct-copy snapshots are isolated from their source",
 "A snapshot taken by copy or copy-on-write starts with exactly the source's readable data and space counts, and from then on nothing done to one of them (tail writes, head writes, reads, resets, further snapshots of these kinds, dropping one) changes what the other reads, for any family of such snapshots. This also holds when source and snapshot are used by different goroutines at the same time.",
 ["inputs", "histories", "schedules"],
 "every buffer state, every family of up to 3 sharing buffers, every sequence of operations on them, every interleaving of one writer per buffer",
 "Tests take one snapshot and do one tail write on each; head writes, chains of snapshots and concurrent holders are never exercised.",
 ["ubuf.go"], [("reference count and copy-on-write flag", "ubuf.go: UBufMakeSnapshot, resolveCopyOnWriteIfNeed")],
 ["data read from each member of the family"])
prop("C07", "Framing delivers the sent payloads exactly, however the stream is cut",
 "If one side sends non-empty payloads through the frame processor and the resulting byte stream reaches the peer's frame processor on one connection in arbitrary chunks, the peer's upper layer gets exactly those payloads, complete, unmodified, in order, each once, as soon as its last byte has arrived. Nothing is delivered from a frame that has not fully arrived, for any stream length as long as each frame fits the MTU. Empty payloads in between and events about anything else than the end of that connection change nothing.",
 ["inputs", "histories"],
 "every sequence of payload lengths and contents, every segmentation of the stream into received chunks",
 "No test touches the frame decoder; segmentation is decided by the network.",
 ["proc_frame_decoder.go", "ubuf.go"], [("length prefix and per-stream cache", "proc_frame_decoder.go")],
 ["payloads handed to the upper processor"])
prop("C08", "Framed streams of different connections never mix",
 "Whatever arrives on one connection, including incomplete or malformed frames, has no influence on the payloads delivered for another connection of the same stack; every payload is delivered with the connection it arrived on.",
 ["inputs", "histories"],
 "every interleaving of chunks from two connections, every content",
 "No test uses more than zero connections.",
 ["proc_frame_decoder.go"], [("decoder cache", "proc_frame_decoder.go: handleCurrentData/handleCachedData")],
 ["payload and connection handed to the upper processor"])
prop("C09", "Bytes from a peer can never crash or hang the receive path",
 "For every byte sequence received from a connection, in any chunking, every built-in processor that handles received bytes (framing, heartbeat, statistics, session, load balancing, and the byte, string, JSON, gob and generic codecs) returns normally: no panic and no endless loop, whether enabled or disabled.",
 ["inputs", "configurations"],
 "every received chunk content and length, every processor and enable setting, in stacks of them",
 "Hostile input is never sampled by the tests.",
 ["proc_frame_decoder.go", "proc_heartbeat.go", "proc_stat_counter.go", "proc_session_resolver.go", "proc_load_balancer.go", "proc_codec_bytes.go", "proc_codec_string.go", "proc_codec_json.go", "proc_codec_gob.go", "proc_codec_generic.go"],
 [("length and error checks on received buffers", "proc_*.go: OnLowerData")],
 ["absence of panic; termination"])
prop("C10", "What one endpoint sends is what the peer endpoint receives",
 "For any stack made of a codec and any selection and order of the built-in header-adding processors (framing, heartbeat, statistics, session, disabled load balancing), each enabled or disabled equally on both sides, a message whose encoding fits the MTU minus the stack's overhead arrives at the peer identical to what was sent. The bytes the processors add never exceed the overhead they declare, so adding headers never fails or overwrites payload.",
 ["inputs", "configurations"],
 "every message content and length, MTU, and processor combination within the stated stack depth",
 "No test builds a stack.",
 ["proc_codec_bytes.go", "proc_codec_string.go", "proc_codec_json.go", "proc_codec_gob.go", "proc_codec_generic.go", "proc_frame_decoder.go", "proc_heartbeat.go", "proc_stat_counter.go", "proc_session_resolver.go", "proc_load_balancer.go"],
 [("head-room reservation by total overhead", "ustack_default.go: build; codecs' OnUpperData"), ("matching header write/strip in each processor", "proc_*.go")],
 ["message handed to the receiving upper layer"])
prop("C11", "A message that does not fit is dropped whole, never truncated",
 "For every message and every MTU above the stack's overhead, what a codec (bytes, string, JSON, gob, generic) passes down is either the complete encoding of the message or nothing at all: a message too large for the MTU minus the overhead, of the wrong type, empty, or failing to encode puts no byte on the wire. A message that no codec encoded puts no byte on a byte connection either. A received buffer that is empty or fails to decode produces no message for the application.",
 ["inputs", "configurations"],
 "every message length and content, every MTU/overhead pair, every codec",
 "No test uses a codec.",
 ["proc_codec_bytes.go", "proc_codec_string.go", "proc_codec_json.go", "proc_codec_gob.go", "proc_codec_generic.go", "ubuf.go"],
 [("write result checked before passing the buffer on", "proc_codec_*.go")],
 ["buffer handed to the lower processor; message handed to the upper one"])
prop("C12", "Session addressing delivers to the addressed endpoint and no other",
 "With session handling on both sides, a message goes once, unmodified and with its connection, to the endpoint registered for the addressed session and to no other endpoint: the explicit destination session if the sender set one, else the sender's own session, for session numbers that fit the 32-bit field. If no endpoint has that session nobody receives it. Without session handling everything goes to the endpoint of session 0.",
 ["inputs", "configurations"],
 "every session number, payload, destination setting and set of registered endpoints",
 "No test uses sessions or endpoints.",
 ["proc_session_resolver.go", "proc_upperdeck.go", "endp_default.go"],
 [("4-byte session header", "proc_session_resolver.go"), ("lookup by session", "proc_upperdeck.go: findEndPoint")],
 ["receive channels of all registered endpoints"])
prop("C13", "Control messages and application data are never confused",
 "Messages the stack generates itself (heartbeats, statistics requests and responses) are never handed to the layers above the peer's matching processor, and application data is always handed up and never interpreted as a control message, whatever bytes it consists of. Control messages are sent only as complete, correctly tagged messages, and never on by-reference connections, where the framing, heartbeat, statistics and load-balancing processors pass everything on once and untouched.",
 ["inputs", "histories"],
 "every payload, every received tag and content, both connection kinds",
 "No test runs heartbeat or statistics processors.",
 ["proc_heartbeat.go", "proc_stat_counter.go"], [("one-byte tag in front of every message", "proc_heartbeat.go, proc_stat_counter.go")],
 ["what the processor hands up and down"])
prop("C14", "Statistics report the exact number of messages sent and received",
 "The counters in a statistics response equal the number of application messages passed down from the layers above and handed up to them by the statistics processor while it was enabled; control messages, and traffic while it is disabled, are not counted. The response carries the counters and the stack's name unmodified, and counting is exact also when several goroutines send and receive at the same time.",
 ["histories", "schedules"],
 "every history of sends, receives, requests and enable switches within the bound; every interleaving of two concurrent senders/receivers within the bound",
 "No test uses the statistics processor.",
 ["proc_stat_counter.go"], [("txCounter/rxCounter", "proc_stat_counter.go")],
 ["content of the statistics response sent down"])
prop("C15", "Every message is routed exactly once: passed, dropped, returned or taken",
 "A filter passes a message, unchanged and in the same direction, exactly if one of its functions accepts it, else it is dropped; a forwarder passes it exactly if none of its functions takes it. A discarder drops received data and passes sent data; an echo sends received data back as a message the peer can read and passes sent data down; loopback returns sent data up; a flow controller passes everything. Any of the processors that can be disabled (not loopback) passes both directions untouched when disabled, and no message is ever passed twice.",
 ["inputs", "configurations"],
 "every message, direction, number of functions and combination of their answers, enable setting",
 "No test uses these processors.",
 ["proc_filter.go", "proc_forwarder.go", "proc_discarder.go", "proc_echo.go", "proc_loopback.go", "proc_flow_controller.go"],
 [("doFilter/doForward and the enable switch", "proc_filter.go, proc_forwarder.go, ...")],
 ["calls received by the neighbouring processors"])
prop("C16", "Heartbeat loss is declared exactly when the peer was silent for the timeout",
 "On a byte connection, loss is declared (lost event published once, connection closed if and only if close-on-lost is set) within about two seconds after no heartbeat arrived for the configured timeout, and never while heartbeats keep arriving within the timeout; silence on one connection does not affect another, and a connection that was closed an interval before its timeout is not declared lost. While a connection is open a heartbeat is sent on it every configured interval, and none after it has closed.",
 ["histories", "schedules", "configurations"],
 "every timing of heartbeat arrivals and checks within the bound, every timeout/interval setting",
 "Time and arrival order cannot be sampled by tests; no test covers it.",
 ["proc_heartbeat.go"], [("per-connection time stamp compared by a periodic check", "proc_heartbeat.go: updateMonitor, check")],
 ["published events, closing of connections, heartbeats passed down"])
prop("C17", "Processors are chained in the order they were appended",
 "For any list of appended processors, data sent by an endpoint passes every processor exactly once from first to last and then the transport; received data passes them in the reverse order and then the endpoint. The stack's overhead is the sum of its processors' overheads, the configured MTU is what processors see, and every processor is attached to its stack and run once.",
 ["configurations", "inputs"],
 "every number of processors within the bound, every overhead and MTU value, every message",
 "No test builds a stack.",
 ["ustack_default.go", "proc_base.go", "proc_upperdeck.go", "proc_lowerdeck.go"],
 [("neighbour links set up when the stack runs", "ustack_default.go: build, Run")],
 ["sequence of processor callbacks"])
prop("C18", "Every published event reaches every party once; membership stays a set",
 "A published event reaches every listener, endpoint and processor of the stack exactly once. Adding an endpoint or transport twice is the same as adding it once, deleting one that is not there does nothing, and after any sequence of additions and deletions, also from listeners of other members' events and while walking the lists, they contain exactly the ones added and not deleted. One added/deleted event is published for each actual change.",
 ["histories", "configurations"],
 "every sequence of additions, deletions and publications within the bound, before and after the stack runs",
 "No test touches the stack object.",
 ["ustack_default.go", "event.go"], [("linear search and event publication", "ustack_default.go: Add*/Delete*/PublishEvent")],
 ["GetEndPoint/GetTransport, events seen by listeners"])
prop("C19", "Endpoints can be added and deleted at run time without loss or leaks",
 "While an endpoint is registered, every message put on its transmit channel is passed down exactly once, in order; at most one endpoint is registered per session. Once an endpoint has been deleted its later messages are not passed down, whatever the sender goroutine was doing at that moment, and it receives nothing any more. An endpoint that is added again after its deletion has taken effect works again.",
 ["schedules", "histories"],
 "every sequence of add, delete, send and receive within the bound, every interleaving within the bound",
 "Depends on goroutine interleavings; no test covers it.",
 ["proc_upperdeck.go", "ustack_default.go"], [("per-endpoint sender goroutine with a stop channel", "proc_upperdeck.go: acceptEndpoint, deleteEndpoint")],
 ["messages handed to the lower processor; receive channels"])
prop("C20", "By-reference transport delivers the same objects, in order, to the peer",
 "Two by-reference transports with the same address, one server and one client, form a two-way queue: every message sent by one side is received by the other side, in order, once, as the same object, never by the sender and never on another address. Sending nothing, and sending or receiving on a closed connection, is refused with an error. Stopping a transport at any moment closes its connection, wakes whoever waits on it, can be repeated without harm, and the address can be used afresh afterwards.",
 ["histories", "inputs", "schedules"],
 "every sequence of run, send, receive, close and stop on the transports of an address, two addresses at once, within the bound",
 "No test uses the transport.",
 ["tran_reference.go", "proc_lowerdeck.go"], [("shared channel pair per address with a use count", "tran_reference.go")],
 ["objects returned by the peer's connection"])
prop("C21", "Socket transports start, stop and hand out connections safely",
 "For the TCP and the Unix-socket transport, running twice is the same as running once, stopping twice the same as stopping once, running again after a stop starts afresh, and no interleaving of run and stop with incoming or outgoing connection attempts crashes the process. After a stop, a failure of the listener, or the configured number of failed connection attempts, the listener and every connection the transport established are closed and a waiting or later request for the next connection ends with none. Each connection established before is handed out exactly once and passes bytes between its user and its socket unchanged.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of run, stop, accept and dial results, failures included, within the bound",
 "Depends on network timing; no test covers it.",
 ["tran_tcp.go", "tran_unix.go"], [("mutex-protected running flag, connection list and hand-out channel", "tran_tcp.go, tran_unix.go")],
 ["NextConnection results, closed state of connections and listener"])
prop("C22", "Each connection is announced once, read in order and closed once",
 "Transports added before or while the stack runs are run and served, a deleted one is stopped, and one added again is run again. For every connection a transport hands out, the stack publishes one new-connection event before any of its data is processed, passes received data up in the order it arrived without loss or change and tagged with that connection, and on the first read or write failure closes the connection and publishes exactly one closed event. Data sent down is written to exactly the connection it is addressed to, completely and once.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence of read results, write results and connections within the bound",
 "Read/write failures and their order are never sampled; no test covers it.",
 ["proc_lowerdeck.go"], [("one reader goroutine per connection", "proc_lowerdeck.go: acceptTransport, closeConnection")],
 ["published events, upward data, connection writes"])
prop("C23", "An endpoint's data listener sees every received message once, in order",
 "While a data listener is set, every message delivered to the endpoint is handed to exactly one listener call, in delivery order and never concurrently, also when the listener is replaced or set before or after messages arrive; when it is removed no message is lost. Event listeners get every event passed to the endpoint.",
 ["schedules", "histories"],
 "every order of setting listeners and delivering messages within the bound, every interleaving within the bound",
 "Depends on goroutine interleaving; no test covers it.",
 ["endp_default.go"], [("auto-receive goroutine", "endp_default.go: autoReceive, SetDataListener")],
 ["listener calls"])
prop("C24", "Options and context fields return the last value set, else the default",
 "For stacks, processors, transports, features, contexts, endpoints and endpoint data, reading an option or field returns the value set last, and absent if never set; options are independent of each other and of other objects, and a setter returns its object. Parsing an option returns the value and true exactly if it is present with the right type, else the given default and false.",
 ["inputs", "histories"],
 "every option name and value within the bound, every parse function and dynamic type",
 "No test covers options.",
 ["utils.go", "proc_base.go", "feat_base.go", "ustack_default.go", "endp_default.go", "tran_reference.go", "tran_tcp.go", "tran_unix.go"],
 [("option maps and typed parse helpers", "utils.go, SetOption/GetOption")],
 ["return values of getters and parse functions"])
prop("C25", "End to end, messages arrive once, unchanged and in order where they were sent to",
 "Two complete stacks run with the same processors (a codec, session handling, framing, and optionally heartbeat, statistics and transparent processors) and are connected by a byte connection. Every message that fits the MTU and that an endpoint sends on the open connection arrives at the peer's endpoint with the destination session exactly once, unchanged, with the connection it came on, and at no other endpoint; messages of one sending endpoint to one destination arrive in sending order. This holds however the byte stream is cut, while both directions, several endpoints and several connections are in use and control messages flow, after any pause, and after another connection ended in the middle of a frame. A reply sent on the connection a message came with reaches the stack that sent the message and no other.",
 ["inputs", "histories", "schedules"],
 "every message content and length, every cutting of the stream, every sequence of sends by the endpoints of both sides, schedules within the bound",
 "The existing tests only test the buffer; no test runs a stack.",
 ["ustack_default.go", "endp_default.go", "proc_upperdeck.go", "proc_lowerdeck.go", "proc_frame_decoder.go", "proc_session_resolver.go", "proc_codec_bytes.go", "proc_codec_string.go", "proc_heartbeat.go", "proc_stat_counter.go", "tran_tcp.go", "tran_unix.go"], [("the whole path of a message", "proc_upperdeck.go: acceptEndpoint .. proc_lowerdeck.go: OnUpperData, acceptTransport .. proc_upperdeck.go: OnLowerData")],
 ["receive channels of the endpoints"])
