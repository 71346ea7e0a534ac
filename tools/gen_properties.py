#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept in one place so that ids and wording stay in step)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "A written message parses back into the same message",
  "Any client or server message that can be built without unsafe code, once written by any of the writers (plain, buffered send, asynchronous send, stream encoder), is a single line that parses back into an equal message: same tags with the same values, same source (an empty host is a listed finding), same kind, same arguments. All writers emit the same bytes, with exactly one trailing CRLF where they promise one and after whatever was already in the caller's buffer. The written line never contains a NUL, CR or LF of its own, and a writer reports success exactly when its sink took the whole message. Where its bytes are text and none are secret, a message displays as what is written.",
  ["inputs"], "every message the safe API can build: any tag set and tag values, source shape, command or numeric, argument list, borrowed, owned or secret strings",
  "The existing tests write and reparse a dozen fixed messages; the guarantee is about every value of six string types in every position.",
  ["src/ircmsg/codec.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/source.rs", "src/ircmsg/numeric.rs", "src/string/tf/escape.rs"],
  [("write_to / parse", "src/ircmsg/codec.rs"), ("tag value escaping", "src/string/tf/escape.rs"), ("string newtypes restrict each position", "src/string/subtypes.rs")],
  ["ClientCodec/ServerCodec writers", "ClientMsg::parse / ServerMsg::parse"])

p("C02", "Parsing is total, terminates, and is canonical",
  "For every byte string, parsing it as a client message, server message, tag list, source or argument list returns a value or an error in time bounded by its length: it never panics, hangs or reads out of bounds. Whenever a message parses, writing the result and parsing that again yields an equal message. Borrowed and owned inputs give the same outcome, and every string in the result satisfies the rules of its type.",
  ["inputs"], "all byte strings, well-formed or hostile, up to and beyond the protocol's size limits",
  "Network input is adversarial; tests feed about twenty fixed lines.",
  ["src/ircmsg/codec.rs", "src/ircmsg/tags.rs", "src/ircmsg/source.rs", "src/ircmsg/args.rs", "src/string/splitter.rs", "src/util/flatmap.rs"],
  [("splitter-based parser", "src/string/splitter.rs"), ("last-duplicate-wins dedup", "src/util/flatmap.rs")],
  ["ClientMsg::parse, ServerMsg::parse, Tags::parse, Source::parse, Args::parse"])

p("C03", "Parsed fields agree with the IRC message grammar",
  "For every line, the parser accepts it exactly when an independent reading of the IRCv3 grammar does, and yields the same tags (last duplicate wins, values unescaped), source nick/user/host, command (case-folded to upper case) or three-digit numeric, and arguments (trailing argument taken verbatim after its colon). When it rejects, the error names the field at fault. Extra spaces between fields and empty tag list entries change nothing.",
  ["inputs"], "all lines, generated both from the grammar with deviations and from arbitrary bytes",
  "Round trips cannot notice a parser and writer that agree on a wrong meaning; tests pin a handful of lines.",
  ["src/ircmsg/codec.rs", "src/ircmsg/tags.rs", "src/ircmsg/source.rs", "src/ircmsg/args.rs", "src/ircmsg/numeric.rs", "src/string/tf/escape.rs"],
  [("parse", "src/ircmsg/codec.rs"), ("Tags::parse", "src/ircmsg/tags.rs"), ("Source::parse", "src/ircmsg/source.rs"), ("Args::parse", "src/ircmsg/args.rs")],
  ["fields of the parsed message"])

p("C04", "Restricted string types always satisfy their rules",
  "Each restricted string type (NUL-free, line, word, argument, tag key, target, nickname, username, command) can be constructed from bytes exactly when the bytes obey its documented rule, through every safe constructor and conversion, and the error reported is truthful. No sequence of safe operations (conversions, splitting, building, transforming, serialisation) ever yields a value of such a type whose contents break its rule. Usernames made from numbers differ when the numbers do.",
  ["inputs", "histories"], "all byte strings and all sequences of safe string operations, for every type in the hierarchy",
  "The types' guarantees are relied on by unchecked conversions all over the library; unit tests try a few strings per type.",
  ["src/string/subtypes.rs", "src/string/subtypes/macros.rs", "src/string/subtypes/impls.rs", "src/string/builder.rs", "src/string/splitter.rs"],
  [("find_invalid / from_bytes / from_super", "src/string/subtypes/macros.rs"), ("Builder", "src/string/builder.rs"), ("Splitter", "src/string/splitter.rs")],
  ["as_bytes of every produced value", "Ok/Err of every constructor"])

p("C05", "UTF-8 knowledge about a string is never wrong",
  "Whatever sequence of safe operations produced a byte string, if the library treats it as valid UTF-8 then its bytes are valid UTF-8, and if it treats it as invalid they are not. Text accessors return exactly the bytes, or their standard lossy decoding. The same holds for splitters, builders and transformations and for the parts they yield.",
  ["inputs", "histories"], "all byte strings and all sequences of construct, clone, split, save/restore, build, transform, query operations",
  "A stale UTF-8 flag becomes undefined behaviour only after a particular sequence of operations; tests exercise two such sequences.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/builder.rs", "src/string/tf.rs", "src/string/tf/casemap.rs"],
  [("cached validity flag", "src/string/bytes.rs"), ("encoding tracking with save/restore", "src/string/splitter.rs"), ("transformation policies", "src/string.rs")],
  ["to_utf8, is_utf8_lazy, to_utf8_lossy, into_utf8_lossy, check_encoding, check_utf8"])

p("C06", "String operations compute exactly their documented values",
  "Splitting, building, case mapping, trimming, tag escaping and unescaping, base64 encoding, taking ownership, and conversions to and from standard types produce exactly the bytes a straightforward model predicts, for every input and every order of operations; comparisons, ordering and hashing depend on the bytes alone. Unescaping undoes escaping for every value, and an escaped value contains no separator byte.",
  ["inputs", "histories"], "all byte strings and operation sequences on strings, splitters, builders and transformations",
  "The operations have data-dependent fast paths (borrowed result, sole owner, offset slice) that a few examples do not reach.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/builder.rs", "src/string/tf/casemap.rs", "src/string/tf/trim.rs", "src/string/tf/escape.rs", "src/util/ownedslice.rs"],
  [("copy-on-write transforms", "src/string/bytes.rs"), ("buffer reuse in conversion to a vector", "src/util/ownedslice.rs"), ("escape/unescape", "src/string/tf/escape.rs")],
  ["contents after each operation"])

p("C07", "Secret strings never show up in formatted output",
  "A string marked secret, and everything safely derived from it by cloning, converting, splitting, transforming, escaping, base64-encoding or placing it in a message, stays secret and never prints its contents through display or debug formatting, alone or nested in any message or argument list. Passwords set or loaded through the library's options and secret loaders are such strings, and neither their text nor their encoded form shows up in the formatted options, in the messages that carry them or in what the client logs. Non-secret strings stay printable. Appending to a builder and merging a source into one buffer start a new string; explicit extraction of the raw bytes or text gives up the protection.",
  ["inputs", "histories"], "all secret contents and all derivation sequences, for every string type and container",
  "Secrecy has to survive every path that rebuilds a buffer; one test checks one clone.",
  ["src/string/bytes.rs", "src/string/splitter.rs", "src/string/tf/escape.rs", "src/string/base64.rs", "src/owning.rs", "src/string/secretbuf.rs", "src/client/auth/secret.rs", "src/client/register/defaults.rs", "src/client/conn"],
  [("secret flag propagation", "src/string/bytes.rs"), ("placeholder formatting", "src/string/bytes.rs")],
  ["Display and Debug output; is_secret"])

p("C08", "Secret buffers are wiped before their memory is released",
  "Memory that held the contents of an owned secret string, or of a secret buffer, is overwritten before it is returned to the allocator, whatever sequence of growth, clone, conversion, split, encoding and drop led there, and whichever of several sharers is dropped last. Secret buffers contain exactly the bytes pushed into them, in order, and a bounded read never stores more than asked. What the caller extracts or writes into its own buffers is the caller's to wipe.",
  ["inputs", "histories"], "all operation histories over secret buffers and owned secret strings, all drop orders",
  "What a freed block contains is invisible to ordinary assertions, and depends on reallocation points and drop order.",
  ["src/string/secretbuf.rs", "src/string/bytes.rs", "src/util/ownedslice.rs", "src/util/thinarc.rs", "src/string/base64.rs", "src/client/auth/sasl/password.rs"],
  [("wipe on drop and on reallocation", "src/string/secretbuf.rs"), ("last-owner wipe", "src/string/bytes.rs")],
  ["every block passed to the global allocator's dealloc/realloc"])

p("C09", "No safe use of the library causes memory unsafety",
  "No sequence of calls to safe functions, on one thread or several, causes an out-of-bounds access, use after free, double free, leak of uninitialised memory, data race or invalid reference, including when an edit guard is forgotten or a value is dropped halfway through an operation.",
  ["histories", "schedules", "inputs"], "all programs over the safe string, message, tag, name-map, secret-buffer, queue and channel interfaces; thread interleavings of shared strings and channels",
  "The library has its own reference counting, vector, flat map and one-shot channel in unsafe code; ordinary tests do not observe undefined behaviour.",
  ["src/util/flatmap.rs", "src/util/ownedslice.rs", "src/util/thinarc.rs", "src/util/dynsized.rs", "src/string/bytes.rs", "src/string/secretbuf.rs", "src/client/handler/channel/oneshot.rs", "src/client/handler/channel/parker.rs"],
  [("reference counting", "src/util/thinarc.rs"), ("edit guard over a vector with a shortened length", "src/util/flatmap.rs"), ("one-shot slot", "src/client/handler/channel/oneshot.rs")],
  ["AddressSanitizer and Miri reports; process crashes"])

p("C10", "Reading a stream yields every message once, however it is chunked",
  "Reading messages from a byte stream yields exactly the messages of its lines, in order, independent of how the bytes are split into reads, of interruptions and would-block pauses in between, and of whether the blocking, borrowing, asynchronous or codec reader is used. Blank lines are skipped, CR LF and bare LF both end a line, a line over the limit or containing a NUL is an error, and a stream that ends inside a line reports end of stream and keeps the partial line rather than inventing a message.",
  ["inputs", "fault_sequences", "histories"], "all byte streams, all chunkings, all placements of interruptions, would-block results and end of stream",
  "Framing bugs appear at particular chunk boundaries and at the size limit; tests read from one contiguous buffer.",
  ["src/ircmsg/codec.rs"],
  [("read_msg/read_buf loops", "src/ircmsg/codec.rs"), ("stream decoder", "src/ircmsg/codec.rs")],
  ["read_owning_from, read_borrowing_from, their tokio versions, Decoder::decode"])

p("C11", "Tag lists and name maps behave as ordered maps under editing",
  "A tag list or name map behaves, through any sequence of parse, insert, insert-or-update, insert-if-absent, remove, lookup, clear, length and iteration calls, inside and outside of an edit guard, exactly like a map ordered by key. Lookups inside a guard see earlier edits made through it, replaced and removed values are returned, and equality between two collections depends only on their contents. Abandoning a guard without running its destructor never corrupts the collection.",
  ["histories", "inputs"], "all operation sequences, key sets and guard lifetimes, including forgotten guards",
  "The edit guard keeps a sorted prefix and an unsorted tail; wrong lookups need particular insert/remove orders that the tests do not contain.",
  ["src/util/flatmap.rs", "src/ircmsg/tags.rs", "src/names/types.rs", "src/client/state.rs"],
  [("sorted prefix plus unsorted tail", "src/util/flatmap.rs")],
  ["Tags, TagsEditGuard, NameMap, NameMapEditGuard methods"])

p("C12", "Argument lists follow their list model and size accounting is exact",
  "Through any sequence of edits an argument list equals the list its model predicts, with at most one multi-word argument and only in last place; adding after a multi-word last argument replaces and returns it. Reported lengths, remaining-argument and remaining-byte counts match the bytes the message occupies when written, assuming the last argument carries a colon, and a message whose remaining-byte count is not negative fits in 512 bytes with its newline and source.",
  ["histories", "inputs"], "all edit sequences and argument contents; all messages with and without source",
  "Tests edit one list; off-by-one accounting only shows on particular shapes.",
  ["src/ircmsg/args.rs", "src/ircmsg/codec.rs", "src/ircmsg/source.rs", "src/ircmsg/client.rs", "src/ircmsg/server.rs"],
  [("word list plus optional long argument", "src/ircmsg/args.rs"), ("bytes_left", "src/ircmsg/codec.rs")],
  ["Args and ArgsEditGuard methods; len_bytes; bytes_left; Source::len"])

p("C13", "The outgoing queue is first-in first-out and obeys the rate limit",
  "Messages leave the queue exactly once each, in the order they were queued, after the configured adjusters have been applied in order and may have modified or dropped them; every adjuster that asked to see a server message sees every queued message, labels and edits are returned as documented. However pushes, pops, clock positions and configuration changes interleave, the number of messages released in any time window never exceeds the configured burst plus what the sustained rate allows, and a message that may be sent is not withheld beyond the delay the queue reports. Delays too long to represent never cause a panic.",
  ["histories", "configurations"], "all interleavings of push, pop, edit, limit changes, adjuster changes and clock readings",
  "A rate bound is a statement about every window of every history; the test sends a few messages.",
  ["src/client/queue.rs"],
  [("virtual timepoint advanced per message", "src/client/queue.rs"), ("adjuster chain", "src/client/queue.rs")],
  ["Queue::pop results and reported delay against an injected clock"])

p("C14", "Every handler sees every message, and its results reach its owner",
  "Each message the client processes is shown to every live handler exactly once and in order; a handler that finishes is removed and reported exactly once, a handler that yields is reported, and all others stay. Values a handler yields arrive at the channel returned when it was added, in order and without loss, what handlers queue is sent in order, what was queued before a message came is adjusted by it before the handlers see it, and identifiers of live handlers are never confused with one another. Resetting the client leaves it as if newly created.",
  ["histories", "configurations"], "all schedules of adding, cancelling, yielding and finishing handlers across message sequences",
  "Handler bookkeeping reuses slots; mix-ups need particular orders of finishing and adding.",
  ["src/client/handler.rs", "src/client/logic.rs", "src/client/handlers.rs", "src/client.rs", "src/client/sink.rs", "src/client/handler/channel.rs"],
  [("handler table with slot reuse", "src/client/handler.rs"), ("run loop", "src/client/logic.rs")],
  ["Client::add, run, last_run_results, channel receivers, bytes written to the connection"])

p("C15", "Connection registration drives any server conversation correctly",
  "Against every server conversation, registration sends a well-formed opening, requests only capabilities that were both wanted and offered, ends capability negotiation exactly once when the server opened it (unless welcomed first), retries nicknames when told they are unusable, answers pings, and finishes successfully exactly when the server welcomes it and ends or omits its message of the day. On success the result reports the nickname the server's welcome or login reply named, and the capabilities, account, ISUPPORT tokens and sources the server actually granted; if authentication is required and does not succeed, or the server rejects registration, the outcome is an error rather than a success.",
  ["histories", "configurations", "fault_sequences"], "all server reply sequences (orders, omissions, rejections, multi-line lists, unknown messages) and all registration configurations",
  "Tests replay three fixed transcripts; the handler is a state machine over arbitrary server behaviour.",
  ["src/client/register.rs", "src/client/register/handler.rs", "src/client/register/defaults.rs", "src/client/cap.rs", "src/client/auth/handler.rs"],
  [("registration state machine", "src/client/register/handler.rs")],
  ["messages sent, handler result, client state after saving"])

p("C16", "SASL exchanges and base64 chunking are exact",
  "For every credential, the authentication conversation sends the mechanism name and then the mechanism's payload as base64 split into 400-byte pieces with the terminating piece or plus sign required by the specification, and the pieces decode back to the payload. For every server reply sequence, mechanisms are tried in order, unsupported and rejected ones are skipped, and success or failure is reported only when the server said so. Encoder and decoder invert each other for every payload and every chunk size that cannot be confused with the plus sign.",
  ["inputs", "histories", "configurations"], "all credentials and payload lengths including multiples of the chunk size; all server reply sequences; all chunk sizes",
  "The chunk boundary cases and reply orders are unbounded; one test covers one payload.",
  ["src/string/base64.rs", "src/client/auth/handler.rs", "src/client/auth/sasl/password.rs", "src/client/auth/sasl/external.rs", "src/client/auth/secret.rs"],
  [("ChunkEncoder/ChunkDecoder", "src/string/base64.rs"), ("auth handler", "src/client/auth/handler.rs")],
  ["AUTHENTICATE messages sent, handler outcome, decoder output"])

p("C17", "One-shot and parking channels deliver exactly once and never deadlock",
  "A value sent on a one-shot channel is received at most once, is received exactly once if the receiver waits for it, and is destroyed exactly once otherwise; a receiver whose sender disappears is told so instead of waiting forever. This holds for every interleaving of send, receive, try-receive and drop on different threads and for synchronous and asynchronous receivers. A parked thread is woken by every wake-up issued after it started waiting, be it a value sent or the end of the last sender, and not before there was one; an earlier wake-up that nothing waited for lets one parking return at once.",
  ["schedules", "histories"], "all interleavings of operations and drops across threads and async wakers",
  "Races have narrow windows; tests run one interleaving each.",
  ["src/client/handler/channel.rs", "src/client/handler/channel/oneshot.rs", "src/client/handler/channel/parker.rs"],
  [("atomic slot with two reference holders", "src/client/handler/channel/oneshot.rs")],
  ["received values, destructor counts, completion"])

p("C18", "Nickname generation offers every candidate once, in order, and ends",
  "A nickname generator yields the configured nicknames in order, then what its fallback produces; each candidate is a valid nickname, and suffixes use the configured alphabets. The sequential strategy goes through the values of the first suffix, then of the first two, and so on, in order, without repeating a combination, and then ends; the random one appends one value of each suffix, chosen anew for every candidate. Rejection of a nickname leads to a new candidate or to a definite end, and a generator whose base nickname the server calls invalid ends rather than building on it, as does a generator that repeats a rejected nickname without end.",
  ["configurations", "inputs"], "all nickname lists, suffix descriptions and strategies",
  "The suffix space is combinatorial; tests check one or two patterns.",
  ["src/client/nick.rs", "src/client/nick/suffix.rs", "src/client/register/defaults.rs"],
  [("NickGen chain", "src/client/nick.rs"), ("SuffixType/SuffixStrategy", "src/client/nick/suffix.rs")],
  ["sequence of nicknames yielded"])

p("C19", "Mode sets and server-advertised values are read exactly",
  "Mode sets behave as sets of mode letters under every operation; mode type lists, status prefixes and numeric limits advertised by a server are read as their specification says, classify every letter into exactly one type, and malformed input is reported as an error or ignored but never misread or fatal. Each printed form parses back to an equal value. Status prefixes are single ASCII bytes; from the first other byte on there are none.",
  ["inputs", "histories"], "all byte strings as advertised values, all set operation sequences",
  "Bit-set and list parsing errors show only on particular letters or overlaps.",
  ["src/state/mode.rs", "src/names/isupport.rs"],
  [("64-bit mode sets", "src/state/mode.rs"), ("token value parsers", "src/names/isupport.rs")],
  ["ModeSet, ModeTypes, StatusModes, ISUPPORT values"])

p("C20", "Capability requests and replies are partitioned and read without loss",
  "For every set of capabilities, the generated requests together name each capability exactly once, each request fits the protocol's message size given its assumptions, and requests and replies survive being written and parsed. Capability list replies, including multi-line ones, are read into exactly the names and values the server listed.",
  ["inputs", "configurations"], "all capability sets (sizes, name lengths, values) and reply shapes",
  "Loss or duplication happens at message-size boundaries that small tests never reach.",
  ["src/client/cap.rs", "src/names/cap.rs"],
  [("request splitting", "src/client/cap.rs"), ("reply parsing", "src/client/cap.rs")],
  ["messages produced; parsed replies"])

p("C21", "CTCP messages and typed message views are read and written exactly",
  "A text is read as a CTCP message exactly when it begins with the CTCP delimiter and names a command; command and body are then separated as specified, and otherwise the body is the whole text. Writing a CTCP message and reading it back gives the same message whenever its parts contain no delimiter, and the reported length is the written length. Typed views of messages expose exactly the target and text of the underlying message or report an error, and message kinds are classed as error, not error or unknown as documented and compare, sort and hash as the text they are written with; the library's names for commands, capabilities and tokens stand for exactly those.",
  ["inputs"], "all texts, commands and bodies; all argument shapes of targeted messages",
  "Delimiters can occur anywhere; there are no tests of this part beyond a couple of strings.",
  ["src/ircmsg/ctcp.rs", "src/ircmsg/targeted.rs", "src/names/cmd.rs"],
  [("MaybeCtcp::parse / into_line", "src/ircmsg/ctcp.rs"), ("typed views", "src/names/cmd.rs")],
  ["MaybeCtcp fields, into_line, len, parse_as"])

p("C22", "Automatic replies answer exactly what they should",
  "The ping handler answers every server PING with one PONG carrying the same argument and sends nothing otherwise; version and similar automatic CTCP replies go only to the sender of a matching query, as a NOTICE with the configured text, and never in answer to another reply. A client's own ping reports the answer to it and nothing else. The handler that tracks the client's own nickname, username and host ends up with the source the server's messages imply.",
  ["inputs", "histories"], "all message sequences seen by the standard handlers",
  "An automatic reply loop or a missed ping needs particular message shapes; tests send one ping.",
  ["src/client/handlers.rs", "src/client/handlers/ping.rs", "src/client/handlers/autoreply.rs", "src/client/handlers/track.rs"],
  [("AutoPong", "src/client/handlers/ping.rs"), ("auto replies", "src/client/handlers/autoreply.rs"), ("tracking", "src/client/handlers/track.rs")],
  ["messages queued per input message; shared client state"])

p("C23", "Serialised values deserialise to equal values and reject invalid ones",
  "Every string type, message, argument list, tag list, source, numeric, nickname setting and server address that can be serialised deserialises to an equal value from the same self-describing format, whether text (JSON) or binary (CBOR; strings that are not UTF-8 are a listed finding there). Deserialising arbitrary data into a restricted type fails unless the data obeys the type's rule, and registration settings read from a document contain exactly what it says, with passwords marked secret; a secret is what its source delivers, and an error when the source fails.",
  ["inputs"], "all values of every serialisable type, UTF-8 or not where the format allows bytes; arbitrary documents for deserialisation",
  "Two tests serialise two values; restricted types must hold for every document.",
  ["src/string/serde.rs", "src/string/subtypes/macros.rs", "src/ircmsg/args.rs", "src/ircmsg/tags.rs", "src/ircmsg/numeric.rs", "src/ircmsg/source.rs", "src/client/register.rs", "src/client/auth/secret.rs"],
  [("serde implementations", "src/string/serde.rs")],
  ["serde_json and an in-memory binary data format"])

p("C24", "The client's own source length is tracked conservatively",
  "The length the client assumes for its own source, used for deciding how much text fits into a message, equals the length of its known source (allowing for a tilde the server may have left out of the username) and, while parts are unknown, is what the limits the server advertised allow, or 85 when it advertised nothing; it follows every nickname or host change the server announces and returns to its initial value on reset. Whether a username was vouched for, and how long it is with a tilde, follow from whether it starts with one.",
  ["histories", "inputs"], "all sequences of registration results, nickname/host changes, ISUPPORT contents and resets",
  "The estimate depends on the combination of partial knowledge and message order.",
  ["src/client/logic.rs", "src/client/handlers/track.rs", "src/client/state.rs", "src/client/register/handler.rs"],
  [("source length calculation", "src/client/logic.rs")],
  ["ClientState source length and ClientSource"])

p("C25", "Connection timeouts and I/O failures surface promptly and lose nothing",
  "For every placement of I/O errors, timeouts, short reads and short writes, running the client returns the error or timeout the caller configured, never loses or duplicates a queued message that was not yet handed to the connection, never reports a message that was not completely received, and resumes correctly when the caller runs it again after a timeout or end of stream. Abandoning the asynchronous client's run while it waits for the server or for the rate limit loses nothing either: a later run goes on from there. The streams opened for an address pass reads, writes, time limits and the shutting down of either half on to their socket, and a connection put together from two halves gives each its own time limit. What was handed to a write that failed is not sent again, and a flush that stalls is under the write limit like the write before it. Time limits are at least one second, and the wait for the next queued message takes precedence over the read limit. The blocking and asynchronous clients behave alike on the same script. A server address without a port stands for port 6697 with TLS and 6667 without; two addresses are equal, and hash alike, exactly when host, use of TLS and that port agree.",
  ["fault_sequences", "histories", "configurations"], "all placements of faults, partial transfers and timeouts in a session, for both client flavours",
  "Faults are injected nowhere in the tests.",
  ["src/client.rs", "src/client/conn.rs", "src/client/conn/sync.rs", "src/client/conn/tokio.rs", "src/client/conn/time.rs", "src/client/logic.rs"],
  [("flush/read loop", "src/client/conn/sync.rs"), ("time limits", "src/client/conn/time.rs")],
  ["bytes observed by a scripted connection; results of run"])

p("C26", "TLS connections trust what they were told to, and nothing goes out unencrypted",
  "With TLS asked for, a connection is made exactly when the configured trust accepts the server's certificate for the address and date (the given roots, the system's where asked for, anything with verification off) and the server proves it holds that certificate's key in a way its TLS version allows; the client presents exactly the configured certificate chain, or none. A certificate file that cannot be read or lacks a needed part is an error, never a weaker setting, and no message is ever sent in the clear; without TLS, TLS settings are not even asked for. Messages, time limits and results over TLS are as over a plain connection, for the blocking and the asynchronous client.",
  ["inputs", "configurations", "fault_sequences"], "all combinations of trust settings, certificate files, server certificates and keys, protocol versions, client flavours and conversations",
  "No test connects to anything; the result depends on the combination of settings with what the server presents.",
  ["src/client/tls.rs", "src/client/conn.rs", "src/client/conn/sync.rs", "src/client/conn/tokio.rs"],
  [("TlsConfigOptions::build", "src/client/tls.rs"), ("connect / connect_tokio", "src/client/conn/sync.rs")],
  ["result of connect and run; handshake, certificates and bytes seen by a server in the same process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
