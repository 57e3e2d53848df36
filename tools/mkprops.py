#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})
S="serialization/"; T="transport/"; F="federation/"; L="lease/"; N="naming/"

prop("C01","Serialization round-trips every supported value",
 "Marshalling any struct built from the supported field kinds (bool, sized integers, floats, valid-Unicode strings, GUIDs, node ids and other custom-marshalled structs, nested and embedded structs, pointers, slices and maps) and unmarshalling the bytes into a fresh value of the same type yields an equal value, where nil and empty slices or maps count as equal. Marshalling leaves its argument unchanged, and refuses a field of an unsupported kind with an error. This holds whatever other values are marshalled and unmarshalled before, meanwhile or afterwards: bytes and values handed out stay as they are.",
 ["inputs","programs"],"every supported struct type shape and every value of it, including all integer and float boundaries, strings needing surrogate pairs and counts crossing each compressed-length boundary",
 "The suite round-trips about a dozen hand-written structs with one value each; compressed integers are checked on about fifteen values.",
 [S+"marshal.go",S+"unmarshal.go",S+"bytecompress.go",S+"common.go",S+"guid.go",F+"nodeid.go",F+"nodeid_range.go"],
 [("reflective encoder",S+"marshal.go encodeState.value"),("reflective decoder",S+"unmarshal.go decodeState.value"),("7-bit compression",S+"bytecompress.go")],
 ["serialization.Marshal / Unmarshal results"])
prop("C02","Readers and writers of different struct versions interoperate",
 "A value encoded from one version of a struct decodes into any other version that differs only by fields appended or removed at the end of objects (at any nesting level, including inside pointers, slices and map values): every common field receives the written value. Fields the writer did not send keep the value they had in the receiver, and unknown trailing fields are skipped without disturbing anything encoded after that object.",
 ["inputs","programs"],"every pair of type versions, position of the versioned object and value",
 "The suite has four version pairs, only at the outermost object, so nothing is ever encoded after a skipped tail.",
 [S+"unmarshal.go",S+"marshal.go"],
 [("object size header and scope end",S+"marshal.go objectScopeEnd"),("seek to object end",S+"unmarshal.go consumeObjectEnd"),("early scope end",S+"unmarshal.go decodeState.value struct case")],
 ["serialization.Unmarshal result for mismatched versions"])
prop("C03","Encoded bytes are the Service Fabric binary format",
 "The bytes produced for a value are exactly those of the Service Fabric binary format (type byte with empty and array bits, minimal big-endian 7-bit compressed integers with a sign bit, little-endian fixed-size data, counted UTF-16 strings, sized object scopes with begin and end markers), as computed by an independent encoder. Every conforming encoding, including objects that carry a type-information block and maps in any entry order, decodes to the value it denotes.",
 ["inputs","programs"],"every supported type shape and value",
 "Round-trip tests cannot see a change made to encoder and decoder alike, and no test pins bytes; the peer is a different implementation.",
 [S+"marshal.go",S+"unmarshal.go",S+"bytecompress.go",S+"fabricserializationtype.go",S+"guid.go",F+"nodeid.go"],
 [("type bytes",S+"fabricserializationtype.go"),("object header",S+"marshal.go objectScopeEnd"),("compression",S+"bytecompress.go")],
 ["serialization.Marshal output","serialization.Unmarshal of foreign encodings"])
prop("C04","Decoding hostile bytes is safe",
 "Unmarshalling any byte string into any destination struct type that is not self-referential returns, with a value or an error, and never panics or loops. The memory it allocates is bounded by a constant multiple of the input length times the size of the destination's element types, whatever counts and lengths the input claims.",
 ["inputs"],"every byte string, in particular mutated valid encodings, wrong type bytes in every position, inflated counts and lengths and object sizes that point backwards or past the end",
 "The suite decodes only bytes produced by the encoder.",
 [S+"unmarshal.go",S+"bytecompress.go",S+"guid.go",F+"nodeid.go",F+"nodeid_range.go"],
 [("type byte checks",S+"unmarshal.go decodeState.value"),("count reads",S+"unmarshal.go readCompressedUInt32"),("object end seek",S+"unmarshal.go consumeObjectEnd")],
 ["return or panic of serialization.Unmarshal","bytes allocated during the call"])
prop("C05","Messages arrive with identical headers and body",
 "Every message accepted for sending reaches the peer with the same id, relates-to id, actor, action, expects-reply, high-priority and idempotent flags, fault header, non-negative retry count, body bytes and custom headers (all values, in order, per header type), whether read by this library or by an independent parser of the wire format. A message that cannot be represented on the wire (unmarshallable body, header section or header over 65535 bytes) is refused with an error, writes nothing, and leaves the connection usable.",
 ["inputs"],"every header combination, custom header multiset, body size from empty to several megabytes, and fragmentation of the byte stream",
 "One header set and four-byte bodies are tested, by the library against itself, over unfragmented loopback.",
 [T+"messageheaders.go",T+"message.go",T+"frame.go",T+"conn.go"],
 [("header writer and parser",T+"messageheaders.go"),("frame writer and reader",T+"frame.go")],
 ["bytes on the net.Conn","message given to the peer's message callback"])
prop("C06","Corrupted or truncated frames are never delivered",
 "With frame header checking on, a frame in which any one byte of the frame length, security mask, header length or header checksum was altered is never delivered; with body checking on, neither is one with an error burst of up to 32 bits in its headers and body, or an altered body checksum. A stream cut at any byte delivers exactly the messages whose frames were complete before the cut. A frame whose header section breaks off inside a header, or in which the content of a standard header or of one with a registered type ends early or is of another type, is bad too, and after the first bad frame nothing more is delivered from that connection.",
 ["inputs","fault_sequences"],"every corruption position and burst, every truncation point, each setting of the check and generate options",
 "The suite flips one byte in the header and one in the body of one frame, in one position.",
 [T+"frame.go",T+"message.go",T+"messageheaders.go",T+"conn.go"],
 [("CRC-8 over the frame header",T+"frame.go nextFrame"),("CRC-32 over the frame body",T+"frame.go nextFrame"),("full reads",T+"frame.go, messageheaders.go")],
 ["messages given to the callback","return of the receive loop"])
prop("C07","Hostile peers cannot crash or starve a server, client or piper",
 "No byte sequence sent by a peer, before, during or after connection set-up, panics the process or makes it allocate memory far out of proportion to the bytes received. A malformed, stalled or abruptly closed connection ends (or waits) alone: other connections of the same server or piper are accepted and keep exchanging messages.",
 ["inputs","fault_sequences"],"every byte sequence from a peer and every point at which it stops, on plain and TLS endpoints",
 "Every test peer is the library itself or a well-formed writer.",
 [T+"frame.go",T+"message.go",T+"conn.go",T+"server.go",T+"piper.go",T+"tls.go"],
 [("frame length and header length handling",T+"frame.go, message.go"),("per-connection goroutine",T+"server.go Serve")],
 ["process survival","bytes allocated per received byte","progress of a well-behaved connection"])
prop("C08","Concurrent senders never corrupt or reorder a connection",
 "When any number of goroutines send one-way messages, requests, replies and heartbeats on one connection at the same time, each message whose send succeeded arrives at the peer exactly once, whole and unmixed with others. Messages sent by one goroutine arrive in the order it sent them.",
 ["schedules","inputs"],"every interleaving of senders, message sizes and partial progress of the underlying writes",
 "Every test sends from one goroutine at a time.",
 [T+"conn.go",T+"frame.go",T+"message.go"],
 [("frame write",T+"frame.go writeFrame"),("send path",T+"conn.go SendOneWay")],
 ["frame sequence on the net.Conn, parsed independently"])
prop("C09","Each request gets its own reply, once",
 "A request returns successfully only with a message received on its connection whose relates-to id equals the request's message id, and every received reply completes at most one request. Under any number of concurrent requests and any reply order, each answered request gets its own answer; messages that match no outstanding request (unsolicited, duplicate or late replies, plain messages) are each handed to the message callback set at the time exactly once.",
 ["schedules","inputs","histories"],"every interleaving of requests, replies in any order, duplicates, late and unsolicited replies",
 "At most one request is outstanding at a time in the suite and every reply is correct.",
 [T+"requesttable.go",T+"conn.go"],
 [("pending request table",T+"requesttable.go"),("receive loop dispatch",T+"conn.go Wait")],
 ["request results and callback deliveries against the peer's send log"])
prop("C10","Requests end on cancel and close, and never wedge the connection",
 "A request that is waiting returns an error as soon as its context ends or its connection is closed locally, closed by the peer, or fails; sends and requests made after the close return an error. However a cancellation races with the writing of the request or the arrival of its reply, other calls are unaffected, the connection keeps receiving and later requests on it succeed.",
 ["schedules","fault_sequences"],"every relative order of request, reply arrival, cancellation, local close, peer close and I/O failure",
 "Two orderings are tested, each separated by one-second sleeps, and no reply ever arrives near a cancellation.",
 [T+"requesttable.go",T+"conn.go"],
 [("wait on reply or context",T+"requesttable.go Wait"),("close of all pending requests",T+"requesttable.go Close"),("receive loop feeding the table",T+"requesttable.go Feed")],
 ["return of every outstanding call at quiescence","a fresh request after each race"])
prop("C11","Heartbeats are answered exactly and pings match their own echo",
 "Every heartbeat request is answered with exactly one heartbeat response carrying the same body. A ping succeeds only after the peer echoed that very ping, returning the time that took, and fails when its context ends while it waits for the echo, or the connection closes; heartbeat responses that are unsolicited, duplicated, stale or malformed neither crash the process, nor fail a later ping that is answered, nor stop other traffic.",
 ["schedules","inputs","histories"],"every sequence of pings, echoes, stale, forged and duplicated responses, cancellations and closes",
 "One ping with one prompt echo, and one echo of one request, are tested.",
 [T+"conn.go"],
 [("heartbeat exchange",T+"conn.go Ping, handleTransportMessage"),("close",T+"conn.go Close")],
 ["ping results against the peer's echo log","process survival","liveness of other traffic"])
prop("C12","TLS connections carry the same traffic, encrypted",
 "Over every supported TLS configuration (TLS 1.2 and 1.3, with or without client certificates, session resumption, any certificate size) and any fragmentation of the byte stream, handshake messages are framed as transport messages by both sides, the first frame each side sends carries the security negotiation header, and then messages in both directions arrive intact and in order. No application message ever appears in clear on the wire, each side's certificate checks are obeyed, and a handshake that fails, or a write error during it, is reported as an error.",
 ["configurations","inputs","fault_sequences"],"every TLS configuration, chunking of the stream and failure point of the handshake",
 "One TLS configuration is tested with one four-byte message over loopback.",
 [T+"tls.go",T+"conn.go",T+"server.go"],
 [("framed handshake",T+"tls.go fabricSecureConn"),("switch to raw records",T+"tls.go markHandshakeComplete"),("security mask and CRC off",T+"conn.go setTls")],
 ["bytes on the raw net.Conn","messages delivered","result of connecting"])
prop("C13","The piper forwards every message once, in order, both ways",
 "Between a connected client and its upstream, every message the filter keeps reaches the other side exactly once, in order, with unchanged headers and body (or as the filter rewrote it), and messages the filter drops never do; the client's first message is forwarded too on non-secure connections, and its headers and its connection (a secure one with its TLS state, after the handshake) are what the upstream is looked up with; the filter is told which side a message comes from and goes to. This holds with TLS on either side and for any number of concurrent client connections, which never see each other's traffic; when either side ends, or the upstream cannot be reached, the other side is closed.",
 ["inputs","configurations","fault_sequences"],"every message sequence in both directions, filter behaviour, TLS combination and point of disconnection",
 "There is no test of the piper.",
 [T+"piper.go",T+"frame.go",T+"tls.go"],
 [("two copy loops",T+"piper.go copy, pipe"),("first message hand-over",T+"piper.go handle")],
 ["message sequences at both ends against the filter's log","closing of both ends"])
prop("C14","Message ids are unique and never empty",
 "Every message sent without an id is given a non-empty one, and no two messages given ids automatically, on one connection or on different connections, clients, servers or generators in a process, get the same id. An id the caller set is kept.",
 ["schedules","histories"],"every interleaving of concurrent senders and generators",
 "No test looks at the ids.",
 [T+"message.go",T+"conn.go",F+"sitenode_sender.go",S+"guid.go"],
 [("random prefix and atomic counter",T+"message.go messageFactory"),("fill if empty",T+"message.go fillMessageId")],
 ["ids on the wire and from generators"])
prop("C15","A connection refused by the peer's authorization stays failed",
 "Once the peer reports that the connection was not authorized, the connection closes, requests waiting on it return an error, and every later send or request returns an error that names the peer's error code and message. A connection-authorization message that reports success, and failure reports from other actors or with other actions, do not close the connection.",
 ["schedules","inputs"],"every error code, message body (including malformed), and timing relative to requests in flight",
 "There is no test of it.",
 [T+"conn.go"],
 [("auth failure branch",T+"conn.go Wait"),("sticky error",T+"conn.go SendOneWay")],
 ["results of sends and requests after the report"])
prop("C16","Naming calls return what the gateway said, or an error, and obey ctx",
 "A ping, application list or filter registration succeeds only when the gateway answered that very call successfully, and then returns exactly the gateway description or applications the gateway sent, for a query that asked for exactly the given application name; a reported operation failure, error code in the result, missing result, undecodable reply, or reply to a ping with another action is returned as an error (with the gateway's code, where it sent one), never a panic. Every call returns when its context ends.",
 ["inputs","schedules","fault_sequences"],"every reply (valid, failing, malformed), number of concurrent calls and moment of cancellation",
 "The naming package has no tests.",
 [N+"naming.go"],
 [("reply checks",N+"naming.go requestReply, Ping, GetApplicationList, RegisterFilter")],
 ["results of naming calls against the fake gateway's log"])
prop("C17","Service notifications are delivered and acknowledged exactly once",
 "Each well-formed service notification request received is acknowledged by exactly one success reply that relates to it, and handed to the registered callback exactly once with the content sent; one that cannot be decoded is neither acknowledged as a success nor handed to the callback, and does not stop later ones. Registered filters get ids that are unique for the client and reach the gateway with exactly the requested name, prefix and primary-only flags, after the client announced itself under the same client id.",
 ["inputs","schedules","histories"],"every notification content and rate, interleaved with requests, and every filter registered concurrently",
 "The naming package has no tests.",
 [N+"naming.go"],
 [("notification handler",N+"naming.go onMessage"),("filter registration",N+"naming.go RegisterFilter")],
 ["fake gateway's log of replies","callback log"])
prop("C18","Node ids convert and generate exactly",
 "A node id survives conversion to its 32-digit hexadecimal text and back and its 16-byte wire form, and text that is not a hexadecimal number of at most 128 bits is rejected. The MD5 and V4 generators give every name, including names without a separator or a numeric suffix, the id Service Fabric gives it (an independent computation and known cluster ids agree), without panicking, and V4 names of one role with different instance numbers below 2^24 get different ids, also when several goroutines convert and generate at once.",
 ["inputs"],"every 128-bit id, every text and every node name",
 "The federation package has no tests.",
 [F+"nodeid_generator.go",F+"nodeid.go"],
 [("hex parsing",F+"nodeid_generator.go NodeIDFromHex"),("Pearson hash and instance spreading",F+"nodeid_generator.go NodeIDFromV4Generator"),("MD5",F+"nodeid_generator.go NodeIDFromMD5")],
 ["results of the exported functions"])
prop("C19","Node id ranges contain exactly the ids on their arc of the ring",
 "A range contains an id if and only if the id lies on the arc that starts at the range's begin and ends at its end going upwards round the 128-bit ring, both ends included, also when the arc passes through zero. Ranges survive their wire form unchanged.",
 ["inputs"],"every begin, end and id, in particular wrapping ranges, neighbours of the ends, zero, the maximum and values differing only in one half",
 "The federation package has no tests.",
 [F+"nodeid_range.go",F+"nodeid.go"],
 [("wrap handling",F+"nodeid_range.go Contains"),("128-bit compare",F+"nodeid.go uint128.cmp")],
 ["NodeIdRange.Contains against big-integer arithmetic"])
prop("C20","Knowledge about a partner node never goes backwards",
 "For each partner, the information a node holds is always that of some message it received (or its seed configuration), with the highest instance seen so far, and never a later phase replaced by an earlier one of the same instance, however many connections deliver partner information at the same time and in whatever order. After all messages are processed it is exactly the newest information received for every partner mentioned.",
 ["schedules","histories","inputs"],"every multiset of partner headers, delivery order and number of concurrent connections",
 "The federation package has no tests.",
 [F+"sitenode_parteners.go",F+"sitenode.go",F+"message.go"],
 [("newest instance wins",F+"sitenode_parteners.go updatePartnerNode"),("partner headers of incoming messages",F+"sitenode.go onMessage")],
 ["KnownPartnerNodes observed continuously and at quiescence"])
prop("C21","Messages go to the right node and carry the right addressing",
 "A one-way message to a node id goes to the address known for exactly that node, or fails; a routed message goes to the known partner, never the node itself, with the smallest clockwise ring distance from the target id (distance zero for the target), and fails only if no partner is known. A lost connection is dialled again for the next message. Each carries the sender's and the chosen node's instance, the right delivery kind, and the partner information of the sender and of every partner with a known instance (as long as all that fits a header section), also when the caller sends the same message again; a routed request returns its own reply, reports an error code in the reply as an error, and ends with its context or when the node is closed.",
 ["inputs","schedules","configurations"],"every partner set, target id and reply",
 "The federation package has no tests.",
 [F+"sitenode_sender.go",F+"sitenode_parteners.go",F+"message.go"],
 [("closest partner",F+"sitenode_parteners.go closestPartnerNode"),("addressing headers",F+"sitenode_sender.go SendOneWay, Route"),("partner gossip",F+"sitenode_sender.go appendPartnerInfo")],
 ["address dialled and headers received by fake partner nodes","Route results"])
prop("C22","Bootstrap and discovery finish and report what they found",
 "Bootstrap returns successfully once any partner in the routing phase has announced itself, whenever that announcement arrives, and otherwise only when its context ends (provided dialling returns); until then it pings every seed it can reach again and again; the phase never goes back. Discovery pings every node it learns of and returns every other node that announced itself with a non-zero instance, under its newest instance, together with the seeds, and ends when its context does. Joining sends one routed neighbourhood query for the node's own id to the partner a routed message to it would go to, and ends when that is answered, whatever the answer, or with its context or the node.",
 ["schedules","fault_sequences","configurations"],"every arrival time of the announcements relative to the pings, unreachable and slow seeds, and cluster shape",
 "The federation package has no tests.",
 [F+"sitenode_boot.go",F+"sitenode_join.go",F+"sitenode.go"],
 [("phase change notification",F+"sitenode.go changePhase"),("vote ping loop",F+"sitenode_boot.go Bootstrap"),("discovery rounds",F+"sitenode_boot.go Discover"),("neighbourhood query",F+"sitenode_join.go Join")],
 ["return of Bootstrap, Discover and Join in virtual time","pings and queries received by fake seeds"])
prop("C23","Lease messages have the exact wire layout and hostile ones are harmless",
 "Each lease message put on the wire is one length-framed message whose header fields, list descriptors, offsets, sizes and listening endpoint an independent parser reads back as what was sent, and which a lease agent of this library accepts in turn. No byte sequence sent to a lease agent panics the process, exhausts its stack or makes it allocate far out of proportion to the bytes received, and a bad connection does not affect other connections of the agent.",
 ["inputs","fault_sequences"],"every message field value, endpoint address, frame sequence and corruption",
 "The lease package has no tests.",
 [L+"serialize.go",L+"frame.go",L+"agent.go"],
 [("message header and lists",L+"serialize.go marshal, unmarshal"),("frames",L+"frame.go"),("incoming loop",L+"agent.go handleIncoming")],
 ["bytes on the net.Conn of a session","process survival","effect of accepted messages on sessions"])
prop("C24","A lease ping succeeds exactly when a pong arrives",
 "A lease ping returns success only if a ping response from that session's peer arrived after the ping began to be sent, and it does return success if one arrives at any time after that and before its context ends or the session closes; otherwise it returns an error when its context ends while it waits, when the session is closed or when the connection cannot be written. Any number of pings at once share the connection without mixing their frames; the time of the last pong advances with each pong and only then, and a pong's instance is used in later pings. A ping loop keeps pinging, about once each interval, answered or not, until its context ends.",
 ["schedules","histories","fault_sequences"],"every interleaving of pings, pongs, other messages, closes and write failures",
 "The lease package has no tests.",
 [L+"agent.go",L+"frame.go"],
 [("pong broadcast",L+"agent.go boardcastPong"),("ping wait",L+"agent.go Ping")],
 ["ping results against the fake peer's pong log"])
prop("C25","Lease agents and sessions start and stop cleanly",
 "After an agent is closed, its receive loop returns, every session ends, waiting pings return an error, and no new session can be established; until then it accepts connections again after any failed one. Closing twice is harmless, and a session closed locally is no longer reachable by incoming messages while others, also a newer one to the same address, are unaffected.",
 ["schedules","fault_sequences"],"every order of accept, establish, ping, session close and agent close",
 "The lease package has no tests.",
 [L+"agent.go"],
 [("accept loop",L+"agent.go Wait"),("agent close",L+"agent.go Close"),("session table",L+"agent.go Establish, leaseSession.Close")],
 ["return of the receive loop","results of calls after close"])
prop("C26","Time spans convert without wrapping",
 "Converting a duration to a time span and back gives the duration truncated to 100 ns, for every duration. Converting any time span to a duration keeps its sign and never exceeds the representable range: spans too long for a duration, such as the maximum span, become the longest duration instead of wrapping round.",
 ["inputs"],"every 64-bit duration and time span",
 "The common package has no tests.",
 ["common/time.go"],
 [("conversions","common/time.go TimeSpanFromDuration, ToDuration")],
 ["results of the exported functions against big-integer arithmetic"])
prop("C27","Concurrent use of the public API is free of data races",
 "Using one connection, server, piper, naming client, site node, lease agent or session from any number of goroutines, in the ways the documentation and examples do (sending, requesting, pinging and closing at once, setting the message callback while receiving, reading state while messages arrive), performs no unsynchronised conflicting memory accesses.",
 ["schedules"],"every interleaving of the exported operations of one object",
 "Upstream CI runs the suite with the race detector, but the suite has almost no concurrency, and none at all in four of the packages.",
 [T+"conn.go",T+"server.go",T+"requesttable.go",F+"sitenode.go",F+"sitenode_sender.go",F+"sitenode_parteners.go",F+"sitenode_boot.go",L+"agent.go",N+"naming.go"],
 [("locks, atomics and concurrent maps",T+"requesttable.go, "+F+"sitenode.go, "+L+"agent.go")],
 ["Go race detector reports whose stacks reach the library"])
prop("C28","Ended connections release their goroutines and sockets",
 "When a connection attempt fails in the library, the socket it opened is closed; when a connection that the library reads from ends (closed by either side, failed, unauthorized, or its piper session ended), its socket is closed and no goroutine of the library belonging to it stays behind, whatever was in flight. A node, agent, lease session or client object that is closed closes the connections it dialled.",
 ["schedules","fault_sequences"],"every way and moment for a connection to fail or end, with requests, pings, heartbeats and forwarded messages in flight",
 "No test counts sockets or goroutines.",
 [T+"client.go",T+"server.go",T+"conn.go",T+"piper.go",T+"tls.go",F+"sitenode_sender.go",F+"sitenode.go",L+"agent.go"],
 [("deferred closes",T+"server.go handle, "+T+"piper.go handle, "+T+"conn.go Wait"),("close of dialled connections",F+"sitenode.go Close")],
 ["open in-memory sockets and library goroutines at quiescence"])
prop("C29","GUIDs convert to text and back, and new ones are version 4",
 "Every GUID prints as 36 lower-case characters in the 8-4-4-4-12 form, parses back to itself (in either letter case), and any other text is rejected with an error. A newly generated GUID is never empty, always has the version-4 and RFC 4122 variant bits with all other bits varying, and never repeats.",
 ["inputs","histories"],"every GUID value and every text, and long runs of concurrent generation",
 "No test parses a GUID or looks at the bits of a generated one.",
 [S+"guid.go"],
 [("text forms",S+"guid.go String, GUIDFromString"),("random generation",S+"guid.go NewGuidV4")],
 ["results of the exported functions"])
prop("C30","Cut, mistyped or out-of-range encodings are refused",
 "Unmarshalling any strict prefix of an encoding, into its own type or another version of it, returns an error. So does decoding an encoding in which a non-empty field has another type than the destination's field (booleans, signed and unsigned integers, bytes, floats, strings, GUIDs, node ids, pointers, objects, and arrays of different element types are all told apart), holds a number that does not fit the destination's field (or any), or in which a string's, slice's or map's count exceeds 32 bits or an object's begin or end marker was replaced; integers that fit are accepted from wider and narrower fields of the same signedness, unchanged.",
 ["inputs"],"every type, value, place of the cut and pair of field types",
 "The tests decode only what they encoded; a reader that believes half an encoding passes them all.",
 [S+"unmarshal.go",S+"bytecompress.go",S+"guid.go",F+"nodeid.go"],
 [("type, range and end checks",S+"unmarshal.go value, readObjectBegin, consumeObjectEnd"),("custom types",S+"guid.go Unmarshal, "+F+"nodeid.go Unmarshal")],
 ["error returned by Unmarshal, value delivered when it returns none"])
prop("C31","Servers, pipers and nodes serve until they are stopped",
 "A server or piper serves every connection its listener accepts, also after temporary accept errors, until it is closed or its listener fails for good; then Serve returns an error, a closed server's or node's listeners are closed, and connections accepted before go on until they end. A site node's Serve returns an error as soon as its transport server or its lease agent stops or the node is closed. Closing before serving, twice or from several goroutines at once is harmless. A server's message callback gets each message of each connection exactly once, with a connection on which answers, at once or later, reach exactly the sender; a callback that takes long holds up no other message, and a callback set later gets the messages that arrive from then on.",
 ["histories","fault_sequences"],"every sequence of connections, accept errors, callback changes and ways to stop",
 "The tests start one server for one client and never stop it.",
 [T+"server.go",T+"piper.go",F+"sitenode.go",L+"agent.go"],
 [("accept loops",T+"server.go Serve, "+T+"piper.go Serve, "+F+"sitenode.go Serve"),("closing",T+"server.go Close, "+F+"sitenode.go Close")],
 ["return of Serve","callbacks and answers per connection","state of the listeners"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
