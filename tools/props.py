import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","One request/reply exchange at a time on a client connection",
  "Every frame a client writes to its connection, and the reply it reads for that frame, form one uninterrupted exchange: no other goroutine using the same client (including the background keepalive) can write to or read from the connection between them. Preparing the frame's header, writing all of it and reading the whole reply all happen while the client is exclusively held. No client socket is read or written outside such an exchange.",
  ["schedules","inputs"],"All interleavings of any number of goroutines calling any client operation, plus keepalive.",
  "Unit tests are single-threaded and have no PLC; an interleaving that swaps two replies needs a scheduler-dependent window.",
  ["sendreceive.go","connect.go","disconnect.go"],
  [("send_recv_data holds client.mutex over write+read","sendreceive.go"),("client.mutex","client.go")],
  [("Client.conn","the TCP connection to the device","client.go")])

p("C02","Connect and disconnect always leave a definite connection state",
  "Whatever fails while connecting or disconnecting, the operation leaves the client either connected or disconnected, never stuck in a transitional state, so a later connect attempt is possible. A client is marked connected only when session registration and a connection open both succeeded, and an operation that failed never leaves it marked connected.",
  ["fault_sequences","histories"],"Every failure point inside Connect/Disconnect, every sequence of connect/disconnect calls.",
  "Tests have no device; each failure point needs a scripted peer failing exactly there.",
  ["connect.go","disconnect.go","client.go"],
  [("startConnect/startDisconnect transitions and deferred final status","connect.go, disconnect.go")],
  [("Client.connStatus","disconnected/connecting/connected/disconnecting","client.go")])

p("C03","Every dialled socket is closed on failure and on disconnect",
  "If connecting fails after the TCP connection was established, that TCP connection is closed before the failure is returned. A disconnect that starts from the connected state always closes the TCP connection, whichever step of the goodbye sequence fails.",
  ["fault_sequences"],"Every failure point after dialling, every failure point in the disconnect sequence.",
  "Needs a fault at each step; a leaked descriptor is invisible to an ordinary assertion.",
  ["connect.go","disconnect.go"],[("conn.Close on all exits","connect.go, disconnect.go")])

p("C04","Every client socket wait is bounded by a deadline",
  "Every read from and every write to the client's socket happens with a deadline that was set during the same exchange, whatever timeout is configured, so an unresponsive device can never block an operation (and the client's lock) forever. Dialling is likewise bounded by a timeout.",
  ["configurations","fault_sequences"],"All timeout configurations including zero, all points where the peer stops responding.",
  "A missing deadline shows only as a hang when the peer goes silent at that exact point.",
  ["sendreceive.go","connect.go"],[("SetWriteDeadline/SetReadDeadline before I/O","sendreceive.go"),("DialTimeout","connect.go")])

p("C05","A transport failure is reported and takes the client offline",
  "If writing a request or reading its reply fails, the operation that issued it returns an error and the client is disconnected before that error is returned. A successful return from an exchange means the whole request was written and the whole reply was read.",
  ["fault_sequences"],"Every I/O failure point in an exchange, for every operation.",
  "Needs injected socket faults at each I/O call.",
  ["sendreceive.go"],[("forced Disconnect on send/receive error","sendreceive.go")])

p("C06","An operation succeeds only if the device said it succeeded",
  "A client read, write, browse, attribute or generic-message operation returns success only if the status in the device's reply was examined and was success, or partial-transfer in the places that continue a partial transfer. A reply carrying any other status makes the operation return an error, and a caller is never handed data or an acknowledgement from a failed service.",
  ["inputs","histories"],"All status codes, in all replies of all operations, including each sub-reply of a batched request.",
  "There is no device in the unit tests; no reply with an error status is ever fed to most operations.",
  ["connect.go","read.go","write.go","udt_write.go","getattr.go","listalltags.go","listsubtags.go","listmembers.go","listallprograms.go","listidentity.go","listservices.go","partialread.go"],
  [("status comparison before use of reply data","each operation")])

p("C07","Each connected request carries its own sequence number",
  "Every connected request frame carries a sequence count freshly drawn, atomically, from the client's counter for that frame, and no drawn number is put in two frames. Concurrent callers therefore never send two connected requests with the same count in a row, which the device would treat as a retransmission and not execute.",
  ["schedules","inputs"],"All operations, all interleavings, all requests of a multi-frame operation.",
  "Requires observing the frames of every operation including multi-frame and concurrent ones.",
  ["client.go","read.go","write.go","udt_write.go","getattr.go","listalltags.go","listmembers.go","listsubtags.go"],
  [("Client.Sequencer / atomic counter","client.go"),("SequenceCounter fields of connected messages","all request builders")])

p("C08","Multi-frame operations make progress or end",
  "Every operation that needs several frames (fragmented read, tag browsing, splitting a long tag list) either makes strict progress with each frame it sends or ends: it never re-issues the request it just sent because the device returned nothing new. An item that can never fit in a frame is reported instead of being retried forever.",
  ["inputs","histories"],"All reply sequences including empty partial replies, all tag lists and connection sizes.",
  "Needs a peer that answers 'more data' with no data, or a tag bigger than the connection.",
  ["read.go","listalltags.go","listsubtags.go","partialread.go"],
  [("offset/instance advance","readFragmented, ListAllTags, ListSubTags"),("split index","readList")])

p("C09","A client that is not connected returns an error, never crashes",
  "Calling any client operation before Connect, after Disconnect or after a failed Connect returns an error or connects automatically when auto-connect is enabled; it never dereferences a connection that does not exist. No operation sends a request without having established that a connection exists.",
  ["histories","configurations"],"All operations in all client states with AutoConnect on and off.",
  "Tests exercise few operations without a device; the crash needs that operation in that state.",
  ["connect.go","sendreceive.go","read.go","write.go","udt_write.go","getattr.go","listalltags.go"],
  [("checkConnection","connect.go"),("guard in the exchange routine","sendreceive.go")])

p("C10","Locks are released on every path and cannot deadlock",
  "Every lock taken inside the library is released on every path out of the function that took it, including error returns, and no goroutine waits for a lock it already holds. Locks are always acquired in one global order, so no set of concurrent calls can deadlock.",
  ["schedules","fault_sequences"],"All paths through all functions, all interleavings.",
  "A leaked lock only blocks the next caller after one specific error path; lock-order inversions need a precise interleaving.",
  ["client.go","connect.go","disconnect.go","sendreceive.go","ioi.go","server_connections.go","server_io.go","server_router.go","datatable.go"],
  [("mutex Lock/Unlock pairing","all"),])

p("C11","State shared between goroutines is accessed only under its lock",
  "The state a client or server shares between goroutines (connection status, name cache, header sequence, keepalive state, server connection table, routing table, tag and I/O provider data) is read and written only while holding the lock that protects it or through atomic operations. Data handed to a caller from under such a lock is not a live view of the protected storage.",
  ["schedules"],"All interleavings of API calls, keepalive goroutine and server connection goroutines.",
  "The race detector only sees schedules that a test executes, and the tests run neither concurrent clients nor the server loops.",
  ["client.go","connect.go","ioi.go","server_connections.go","server_router.go","server_io.go","server_iochannel.go"],
  [("client.mutex, ioi_cache_lock, serverConnectionManager.Lock, provider mutexes","as named")])

p("C12","Keepalive runs once, stops on disconnect, and cancelling is safe",
  "At most one keepalive loop runs per client, and disconnecting or cancelling makes it stop. Cancelling or disconnecting any number of times, in any order, with or without a running keepalive, never panics by closing an already closed or never created signal channel.",
  ["histories","schedules"],"All sequences and interleavings of KeepAlive, KeepAliveCancel, Connect, Disconnect.",
  "No test starts keepalive; the failure needs a second cancel or an unlucky order.",
  ["connect.go","disconnect.go","client.go"],
  [("cancel channel and running flag","connect.go, disconnect.go")],
  [("Client.cancel_keepalive","stop signal","client.go")])

p("C13","No reply from a device can crash the client",
  "Whatever bytes arrive in a reply of any length, every client operation returns (data or an error): it never panics on an index, slice bound, length or type assertion driven by reply contents. Counts, lengths and offsets taken from a reply are checked against the data actually received before they are used.",
  ["inputs"],"All byte strings as replies to all operations.",
  "Tests feed well-formed replies to a few decoders only.",
  ["items.go","connect.go","read.go","write.go","udt_write.go","getattr.go","listalltags.go","listmembers.go","listsubtags.go","listallprograms.go","listidentity.go","listservices.go","types.go","pack.go"],
  [("length checks before index/slice","decoders")])

p("C14","No request can crash the server",
  "Whatever bytes a TCP or UDP peer sends, the server answers with data, answers with an error status, or closes that session: no index, slice bound, size computation, type assertion or timer set-up driven by request contents can panic. Sizes computed from request bytes cannot wrap around or become negative before they are used.",
  ["inputs"],"All byte strings as requests, in any session state.",
  "Tests send a handful of well-formed requests.",
  ["server.go","server_connected.go","server_unconnected.go","server_connections.go","server_router.go","server_io.go","server_iochannel.go","ioi.go","items.go","types.go","cip_definitions.go"],
  [("length checks before index/slice","request parsers")])

p("C15","No tag name, path or argument text can crash the client",
  "Tag names, route paths and other caller-supplied strings, slices, structures and collections of any content, including empty or malformed ones, produce a result or an error and never a panic.",
  ["inputs"],"All strings for tag names and paths, empty slices and maps, nil entries.",
  "Tests use a few dozen mostly valid names and paths.",
  ["ioi.go","path.go","read.go","write.go","udt_write.go","partialread.go","taggroup.go","datatable.go"],
  [("bounds checks in the name and path parsers","ioi.go, path.go")])

p("C16","Path segment encoders, decoders and sizes agree",
  "For every logical and symbolic path segment, the number of bytes emitted, the advertised segment length and the format selector byte agree with each other over the whole value range, and a decoder accepts exactly the format selectors the encoders emit. A value too large for a format is encoded in the next larger format, never truncated.",
  ["inputs"],"All 32-bit segment values, all segment kinds.",
  "Tests sample a few small values; the boundaries at 255/256 and 65535/65536 and the wide formats are not all covered.",
  ["cip_definitions.go","ioi.go","path.go"],
  [("Bytes/Len/Read per segment type","cip_definitions.go"),("marshalIOIPart","ioi.go"),("getTagFromPath","ioi.go")])

p("C17","All type-code tables agree with each other",
  "For every elementary type code, the size used for framing, the value decoded from the wire, the Go type mapped to that code, the value substituted for bit access and the displayed name all describe the same type. Every code that one table supports as an elementary value is supported by the others.",
  ["inputs","programs"],"All type codes, all tables.",
  "Tests cover a few codes in a few tables, never the cross product.",
  ["types.go","items.go","getattr.go","listmembers.go","server_router.go"],
  [("Size, readValue, GoVarToCIPType, getBit, String","types.go")])

p("C18","Built-in structured types pack and unpack the same layout",
  "For each built-in structured type (timer, counter, control, string and kin) encoding and decoding use the same field order, the same width for each field and the same bit for each flag, with no two flags sharing a bit and none lost. Its advertised type handle and abbreviation are one value everywhere in the library.",
  ["inputs"],"All values of all built-in structured types.",
  "Tests check particular bit patterns for particular types.",
  ["lgxtypes","pack.go","types.go"],
  [("Pack/Unpack pairs","lgxtypes"),("TypeAbbr","lgxtypes")])

p("C19","A string's length field never exceeds the bytes sent with it",
  "Whenever the library encodes a string in the controller's fixed-capacity string format, the length it writes never exceeds the number of character bytes it writes, for strings of any length, in requests and in server replies alike. Over-long strings are cut or rejected, never sent with an inconsistent length.",
  ["inputs"],"Strings of every length through every encoder.",
  "Tests use short strings.",
  ["items.go","pack.go","write.go","server_connected.go","udt_write.go","lgxtypes"],
  [("string encoders","items.go, pack.go, server_connected.go")])

p("C20","Length and count fields never silently wrap",
  "A length, count or size that the library writes into a narrower wire field is known to fit that field, or the operation fails with an error before anything is sent. No request or reply frame is ever emitted whose length or count field disagrees with its contents because a conversion wrapped around.",
  ["inputs"],"All sizes of names, paths, tag lists, payloads.",
  "Tests stay far below 255 and 65535.",
  ["items.go","ioi.go","sendreceive.go","path.go","read.go","write.go","udt_write.go","connect.go","disconnect.go","server.go","server_connected.go","server_unconnected.go","getattr.go"],
  [("narrowing conversions of lengths","frame builders")])

p("C21","Every server request is answered exactly once or closes the session",
  "For each complete request frame a session delivers, the server sends exactly one reply or ends the session; no handler path sends two replies, and no path silently drops a request and keeps the session open. The whole frame is consumed before the next is read, so an unknown or rejected request cannot desynchronise the session.",
  ["inputs","histories"],"All commands, services and item combinations, well formed or not.",
  "Tests send a few supported services.",
  ["server.go","server_connected.go","server_unconnected.go"],
  [("dispatch and handlers","server.go, server_connected.go, server_unconnected.go")])

p("C22","Server replies echo what identifies the request",
  "Every reply the server sends to a request carries that request's command, its service code with the response bit, its sequence count for connected requests, and its session and sender context. Error replies carry them just as success replies do.",
  ["inputs"],"All services and all error paths.",
  "Tests check a few success replies.",
  ["server.go","server_connected.go","server_unconnected.go"],
  [("reply builders","server_connected.go, server_unconnected.go, server.go")])

p("C23","The server acknowledges a write only after the provider accepted it",
  "A server reports success for a write only after the tag or attribute provider's write ran and returned no error, and reports read data only after the provider's read returned no error. A provider error always yields a non-success reply, including for each request inside a batched message.",
  ["inputs","fault_sequences"],"All write/read services, all provider error outcomes.",
  "Tests use a provider that never fails.",
  ["server_connected.go","server_unconnected.go"],
  [("provider call before success reply","server_connected.go, server_unconnected.go")])

p("C24","The server's connection table matches the open connections",
  "A connection is in the server's table from a successful open until its close request or the end of the session that created it, after which it can no longer be found or keep producing I/O. Failed opens leave nothing behind, and opening, finding and closing are atomic with respect to each other.",
  ["histories","schedules"],"All sequences of opens, closes, session ends; all interleavings.",
  "Tests never close a connection or end a session.",
  ["server.go","server_connections.go"],
  [("serverConnectionManager","server_connections.go")])

p("C25","Listener and session failures end the serving loop",
  "When the listening socket or a session's socket fails for good, the loop that serves it returns instead of spinning, and the resources it owned are released. Failing to start one listener releases the other.",
  ["fault_sequences"],"All accept/read/listen failures.",
  "Tests do not close listeners or inject errors.",
  ["server.go"],[("serveTCP/serveUDP/serve loops","server.go")])

p("C26","A tag name that cannot be parsed is rejected, never approximated",
  "A request is only ever built from a tag name that was parsed completely; a name with a malformed index or bit part yields an error rather than a request for some other element. Only successfully built encodings are remembered for reuse, and a remembered encoding is never modified.",
  ["inputs","histories"],"All tag-name strings, all orders of use.",
  "Tests cover some valid names only.",
  ["ioi.go"],[("parse_tag_name, newIOI, cache","ioi.go")])

p("C27","A successful read has filled its destination",
  "A read that returns no error has stored the device's value into every destination the caller supplied; an unsupported destination or an unconvertible value yields an error instead of a silently untouched destination.",
  ["inputs"],"All destination types and all reply types.",
  "Tests exercise few destination kinds and no mismatches.",
  ["read.go","taggroup.go","taggroup_readmap.go","datatable.go","partialread.go"],
  [("type switches in Read/ReadMulti","read.go")])

p("C28","No failure is swallowed",
  "When any internal step of building, sending, receiving or decoding a message fails, the failure reaches the caller of the public operation as an error (or, on the server, an error reply or a closed session). No step's error is discarded, overwritten before it is examined, or replaced by success.",
  ["fault_sequences","inputs"],"All error-returning steps on all paths.",
  "Each dropped error needs that step to fail.",
  ["all non-test Go files"],[("error returns","all")])

p("C29","A data table is used only in the state that allows it",
  "A data-table buffer's network operations fail with an error unless it has been created on the controller, each tag is considered in the table only after the controller acknowledged adding it, and closing it releases the controller object at most once. A read of the table never assigns one tag's bytes to another tag.",
  ["histories","fault_sequences"],"All sequences of add, remove, sync, read, close with failures anywhere.",
  "Tests cover pure helpers without a device.",
  ["datatable.go"],[("created / synched state","datatable.go")])

p("C30","Batched results go to the tag that asked for them",
  "In any multi-tag read or write, each returned value or status is associated with the tag whose request produced it, across splitting into several frames, fragmentation, duplicates and partial failures. Replies with fewer or more results than requests are reported as errors.",
  ["inputs","histories"],"All tag lists, all splits, all reply counts.",
  "Tests use small mocked lists.",
  ["read.go","partialread.go","taggroup.go","taggroup_readmap.go","udt_write.go"],
  [("index alignment between requests and replies","readList, ReadList, ReadMulti, ReadMap")])

p("C31","Lookup tables describe the codes they are keyed by",
  "In the library's tables of fault, status, service, vendor and device descriptions, every entry is filed under the code it describes, and no two predicates over the same status word test the same flag under different names.",
  ["inputs"],"All table entries and all flag predicates.",
  "Tests sample a few entries.",
  ["canned","errors.go","services.go","vendors.go","device_type.go"],
  [("table literals and predicates","canned")])

p("C32","Wire integers are little-endian except where the protocol says otherwise",
  "Every multi-byte integer of the protocol that the library writes or reads is little-endian, in every request, reply and data value, with the socket-address block of the identity reply as the only big-endian part. Everything that is encoded has a fixed, platform-independent size.",
  ["inputs","programs"],"All encode and decode sites.",
  "Values below 256 or symmetric values hide a swapped order; tests do not reach every site.",
  ["items.go","pack.go","types.go","sendreceive.go","read.go","server.go","listidentity.go","server_listidentity.go","datatable.go","lgxtypes"],
  [("binary.Read/Write byte order","all codec sites")])

p("C33","Open, use and close all name the same connection",
  "The identifiers a client sends to close a connection (serial number, vendor, originator serial) are the ones it opened it with, connected requests carry the connection id the device returned for it, and every frame carries the session handle the device assigned. On the server side, replies carry the ids of the connection the request named and closing removes exactly the connection whose identifiers were given.",
  ["histories","inputs"],"All connection parameters, all reconnect histories.",
  "Tests never open and close connections against a checking peer.",
  ["connect.go","disconnect.go","sendreceive.go","read.go","write.go","server.go","server_connections.go"],
  [("ConnectionSerialNumber/VendorId/SerialNumber/OTNetworkConnectionID/SessionHandle","connect.go, disconnect.go")])

p("C34","Claimed lengths cannot make the library allocate without bound",
  "Memory allocated because of a length or count in received data is bounded by the size of the frame it arrived in, by a 16-bit field, or by an explicit cap, so a short malicious message cannot demand gigabytes.",
  ["inputs"],"All received lengths and counts.",
  "Only an adversarial length shows the problem.",
  ["items.go","listmembers.go","read.go","server.go","server_connected.go","sendreceive.go"],
  [("make() sizes derived from wire data","decoders")])

p("C35","Any well-formed export file can be loaded without crashing",
  "Loading a controller export file and extracting tags, types and comments from it returns a result or an error for every well-formed XML document; optional elements that are absent never cause a crash.",
  ["inputs"],"All XML documents accepted by the decoder.",
  "Tests load a few sample exports in which the optional parts are present.",
  ["l5x"],[("nil checks on optional elements","l5x")])

p("C36","Values survive a pack/unpack round trip",
  "For every value of a supported Go type, decoding what the library encoded gives back an equal value, with alignment and bit packing as the controller lays it out.",
  ["inputs","programs"],"All struct types and all their values.",
  "Tests sample some structs.",
  ["pack.go","types.go"],[("Pack/Unpack","pack.go")])

p("C37","I/O connections produce data at the requested interval",
  "An open I/O connection sends its input data at the requested packet interval with increasing sequence counts until it is closed or times out, and output data from the peer reaches the provider in order.",
  ["schedules","fault_sequences"],"All intervals, all loss patterns.",
  "Real-time behaviour under load.",
  ["server.go","server_io.go"],[("ioConnection ticker","server.go")])

p("C38","Batched requests fill but never exceed the negotiated connection size",
  "The frames built for a multi-tag read or write never exceed the connection size negotiated with the device in either direction.",
  ["inputs","configurations"],"All tag lists, tag types and connection sizes.",
  "Sizes depend on run-time type sizes of replies.",
  ["partialread.go","read.go"],[("countIOIsThatFit","partialread.go")])

for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
