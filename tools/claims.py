CLAIMS={
"C01":("interprocedural lockset + typestate on the client connection (path-sensitive dataflow over SSA)","Every socket read/write site on every abstract path from every entry point; trusts the call resolution and that all callers use one client object per connection."),
"C02":("typestate of the connection status on every path of Connect/Disconnect (path-sensitive dataflow over SSA)","All abstract paths of the connect and disconnect entry points with every callee able to fail; loops are abstracted by state merging."),
"C03":("resource typestate: dialled socket must be closed on failing paths (path-sensitive dataflow over SSA)","All abstract paths of connect/disconnect; a close is a call to the connection's Close."),
"C04":("typestate: deadline set on the connection before each socket wait, in the same exchange","Every read/write of the client socket on every abstract path; that the deadline value is in the future is not decided."),
"C05":("typestate: transport error implies disconnect then error return, on every path of every client entry point","All abstract paths from every exported client operation; an error is tracked as a value, its text is not."),
"C06":("typestate: reply status examined before any success return (path-sensitive dataflow over SSA)","All abstract paths of every client operation that exchanges; a status test is recognised as a comparison of the decoded status field."),
"C07":("typestate + dataflow: sequence counts drawn atomically and used in at most one frame","All sites that build connected frames on all abstract paths."),
"C09":("typestate/nilness: every exchange dominated by evidence of a connection, on every path of every client entry point","All abstract paths from every exported client operation."),
"C10":("lock-pairing typestate, re-entry check and lock-order graph over SSA with call summaries","All library mutexes on all abstract paths from all entry points; lock identity is by type and field."),
"C12":("typestate of the keepalive claim, its cancel channel and the client lock (path-sensitive dataflow over SSA)","All abstract paths of every function touching the signal channel or flag; a claim is recognised as a flag set after being seen clear in one hold, an atomic compare-and-swap, or a channel published after being seen nil."),
"C11":("guarded-by lockset, ownership and escape analysis against a confirmed field/lock table, and dependence of changes on reads of an earlier hold (SSA)","All accesses in the library to the fields of the table and what they hold, all changes of objects found in shared tables, all results of entry points; fields outside the table are not decided."),
}
CLAIMS.update({
"C13":("proof obligations for every panicking instruction (index, slice, assertion, nil, reflect) discharged by linear-arithmetic dataflow over SSA with call contexts","Every instruction of client-driven code that can panic on received data; assumes no 64-bit overflow of lengths and counters, memory and stack suffice, and user-supplied configuration objects are usable."),
"C14":("proof obligations for every panicking instruction reachable from the server loops, discharged by linear-arithmetic dataflow over SSA with call contexts","Every instruction of server-driven code that can panic; assumes no 64-bit overflow of lengths, registered providers and configuration that are usable."),
"C15":("proof obligations for every panicking instruction of client-driven code that depends on arguments, discharged by linear-arithmetic dataflow over SSA with call contexts","Every instruction of client-driven code that can panic on argument contents; the Go types given to the generic pack and unpack helpers are the caller's choice and not decided."),
"C35":("proof obligations for every panicking instruction of the export loader, discharged by linear-arithmetic and nilness dataflow over SSA","Every instruction of the l5x package that can panic; nil optional elements, indices, map writes and recursion guards; the XML decoder itself is trusted."),
})
CLAIMS.update({
"C21":("typestate of a server session between two header reads (path-sensitive dataflow over SSA, reply frames counted)","All abstract paths of a session, by command and service; a frame counts as sent when the sending function returned no error."),
"C22":("dataflow of request identifiers into reply headers on every path of a session (path-sensitive dataflow over SSA)","Command, service, sequence, session and context of every frame a session sends; the payload is not decided."),
"C23":("typestate: provider call completed without error before a success reply (path-sensitive dataflow over SSA)","All abstract paths of the session, by service; batched entries are tracked per iteration."),
"C24":("typestate of connection-table entries plus syntactic proof of each removal (path-sensitive dataflow over SSA)","All additions, removals, session ends and I/O loops; atomicity of the table operations is C11's lockset."),
"C25":("typestate of listeners and serving loops (path-sensitive dataflow over SSA)","All listener waits, session reads and serving entry points; whether an error is temporary is the error's own classification."),
"C33":("value-origin dataflow of connection and session identifiers, client and server (path-sensitive dataflow over SSA and origin tracing)","All opens, closes, connected requests and headers of the client, all connected replies, table entries, opens and closes of the server."),
})
CLAIMS.update({
"C32":("dataflow of byte orders and static types into every encode/decode site, and pattern analysis of hand-assembled integers (SSA)","Every encoding/binary call and byte-order method of the library, every hand-assembled integer with constant or affine positions; types that only exist at run time (reflection, the caller's own type arguments) are not decided."),
})
CLAIMS.update({
"C28":("dataflow of every error result from its call to the function's exits, path by path (SSA)","Every call with an error result in the library and its built-in types; the paths are abstract (branches on the error itself are followed, others both ways). Best-effort steps that are tolerated are listed in DESIGN.md."),
})
CLAIMS.update({
"C31":("constant propagation of every code through the lookup functions (abstract interpretation of SSA) against the published tables","All 8-bit service and status codes, every listed vendor, device and fault code plus every key present in the source tables, every status-word predicate, and the published value of named codes; wording is compared by similarity."),
"C17":("constant propagation of every elementary type code through the type tables (abstract interpretation of SSA)","The fifteen elementary codes through size, decoding, Go type mapping, bit access, placeholders and display name; time and string codes are not elementary values and only checked for size and name clashes."),
})
NA={
"C26":"whether a text names a tag is decided by a regular expression and hand-written scanning over arbitrary text: that every malformed name is refused, and none approximated, quantifies over all strings and the language the scanner accepts. Panics on names are decided under C15, the encoding of parsed names under C16, dropped errors under C28.",
"C27":"a must-fill analysis through reflection, type switches over generic destinations and loops bounded by runtime lengths was drafted and could not be made both precise on the current tree and robust; no check is claimed. Dropped failures are decided under C28, statuses under C06.",
"C36":"equality of decode(encode(v)) with v is a relation between two computations over runtime values reached through reflection for arbitrary caller types; no sound static argument in reach. The layout of fixed types is decided under C18, type codes under C17, byte order and widths under C32.",
"C37":"quantifies over real time and scheduling (when a timer fires); no static argument bounds it.",
"C38":"optimality of an arithmetic size estimate over runtime name and element lengths and the negotiated connection size; what is decidable of it (positions, adjoining splits, counts that do not wrap, batches that end) is under C08, C20 and C30.",
}
CLAIMS.update({
"C16":("abstract interpretation of every segment encoder, length and decoder on an arbitrary value refined by intervals; one turn of each path loop evaluated symbolically (SSA)","Every logical, symbolic and port segment type, the path builder, Serialize, the tag-name encoder and decoder, and every type with Bytes and Len; user-assembled raw paths are not decided."),
})
CLAIMS.update({
"C18":("abstract interpretation of Pack, Unpack and TypeAbbr of each built-in type, one flag and one control-word bit at a time, against the published layout (SSA)","Every built-in structured type and every place its handle is emitted or compared."),
"C19":("abstract interpretation of every string encoder on a string of arbitrary length (SSA)","The encoders of Serialize, CIPItem.Serialize (one string, a list) and every string type that encodes itself; strings above 2 GiB are not considered."),
})
CLAIMS.update({
"C20":("linear-arithmetic dataflow over SSA with call contexts: every narrowing of a length, count or size that may be sent is proved to fit","Every conversion of a quantity to 8 or 16 bits and all narrow arithmetic on one, sizes packed with flags, lengths written in front of texts, and the error paths of the steps that refuse what doesn't fit. Quantities are recognised by where they come from (len, Len, Size, counting loops) or their names; in-memory lengths are assumed below 2^31."),
})
CLAIMS.update({
"C34":("taint of received integers into allocation sizes and loop counts, each bounded by linear-arithmetic dataflow over SSA with call contexts","Every slice, map, channel, buffer growth, repetition and reflective allocation and every storing loop of the library whose size is received; bounds are 2^20 elements or a small multiple of data already in memory. What accumulates over several frames is bounded by what the peer sent."),
})
CLAIMS.update({
"C08":("loop and recursion measures proved by linear-arithmetic dataflow over SSA with call contexts, and dataflow from what moves on into the next request","Every loop with an exchange in it and every cycle of calls on the client's side; a loop that waits for an event each turn (keepalive) and the teardown of a broken connection are not continuations."),
})
CLAIMS.update({
"C29":("path-sensitive typestate of what the controller acknowledged, and dataflow over the loops that walk the tags","Every operation of a data table buffer and what it calls; one buffer at a time, not used concurrently (documented). What the controller itself does with its table (numbering, order of values) is taken from the comments. Loops that hand the reply to code the rule does not know are not judged by the slots rule."),
})
CLAIMS.update({
"C30":("dataflow of list positions through the loops over a batch, list lengths and part boundaries proved by linear arithmetic over SSA","Every function that builds or answers a multi-service request, and every caller that passes lists to one or takes results from one (ReadList, ReadMulti, ReadMap, WriteMap, the server's multi-service handler), and the follow-up loop of fragmented reads. That a device puts its results in the order of the table of starts is its own part of the protocol; the data table buffer is C29."),
})
