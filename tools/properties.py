prop("C01", "A request is accepted completely or not at all",
     "A POST of spans is answered with success only after the whole body was decoded without an error and every span of it was handed over, once, unchanged and in order, to the processing pipeline; the request waits until the pipeline takes them. A body that can not be decoded is answered with a client error and hands over nothing. Every request gets exactly one of the two answers.",
     ["inputs", "schedules"], "every request body and header of the three ingest endpoints, every state of the pipeline",
     "The tests decode a few fixed bodies; no test drives the HTTP handlers, an unusual ordering of hand-over and response, or a pipeline that is busy.",
     ["main.go", "handlers.go"], [("handleSpans", "handlers.go"), ("ingest endpoints", "main.go MainWithRouting")],
     "gated value-flow of the request handlers")
prop("C02", "Each ingest endpoint is served, decodes its format and accepts gzip",
     "The server routes every ingest path to the decoder of its format, and serves the debugging endpoint and the routes of the embedding program on the same router. A body that is marked as gzip compressed is decompressed before it is decoded, with the marker removed; a body that is not a gzip stream is rejected with a client error and never reaches a decoder; other bodies are passed on as they are.",
     ["inputs", "configurations"], "every request, with and without content encoding, and every embedding program",
     "No test starts the router or sends a compressed body.",
     ["main.go", "handlers.go"], [("handleGzipRequestBody", "handlers.go"), ("routing", "main.go MainWithRouting")],
     "gated value-flow of routing set-up and middleware")
prop("C10", "The three JSON formats are mapped to spans field by field as documented",
     "For Zipkin v1, Zipkin v2 and Jaeger documents every member that the format defines reaches the field, timing, tag or service of the resulting span that it means, members may come in any order, unknown members are skipped, and nothing else appears in the span. Times are converted from microseconds to nanoseconds, core annotations or the span kind become client and server timings, and a span without a duration gets one millisecond. Every decoded span becomes exactly one span, in order.",
     ["inputs"], "every JSON document of the three formats",
     "The tests compare two or three small documents; each optional member and each combination would need its own.",
     ["codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go", "codec/hyperjson/bind.go"],
     [("decoder tables", "codec/json-v1.go, codec/json-v2.go"), ("ToSpan", "codec/json-v1.go, json-v2.go, jaeger.go"), ("MakeStructDecoder, MakeSliceDecoder, MakeArrayDecoder", "codec/hyperjson/bind.go")],
     "decoder-table extraction and gated value-flow of the conversions")
prop("C03", "Nothing malformed is taken for valid: every failure is reported",
     "Whenever any part of a body or message can not be read or understood, the decoder of the body or message stops and reports an error; it never goes on with the rest, never returns what it has so far as a success, and never treats an unreadable value as missing. This holds for every step of decoding, at every nesting depth.",
     ["inputs", "faults"], "every document and message, cut off or damaged at any place, and every failure of the underlying connection",
     "The tests decode well-formed documents only.",
     ["codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go", "codec/binary.go", "codec/hyperjson", "proxy/id.go"],
     [("decoders", "codec"), ("Parser", "codec/hyperjson/parser.go"), ("ParseId", "proxy/id.go")],
     "error-flow analysis of every call")
prop("C06", "Text of a span never shares memory with recycled buffers",
     "Text that is taken from a request or message is copied before the buffer it was read into is used again. No span and no cached text refers to memory of the read buffer or of an object that goes back to a pool, and neither is used any more after the buffer was refilled or the object was given back.",
     ["inputs", "histories", "schedules"], "every sequence and interleaving of requests and messages",
     "Corruption shows only when a buffer is reused by a later request while the span is still alive.",
     ["codec", "codec/hyperjson", "cache/cache.go"],
     [("bufferPool, poolSpansV1", "codec/json.go, codec/json-v1.go"), ("StringForByteSliceCopy", "cache/cache.go"), ("Token", "codec/hyperjson/token.go")],
     "interprocedural memory-sharing (taint) and lifetime analysis")
prop("C07", "A request never shows data of an earlier request",
     "The spans of a request are determined by its own body: decoding starts with no spans, and everything that is recycled from an earlier request is cleared before it is decoded into, including list elements beyond the current end of a list. A member that is missing in the document is empty in the span.",
     ["inputs", "histories"], "every sequence of requests",
     "The tests decode one document per format; leftovers need a second request that omits what the first one had.",
     ["codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"],
     [("spanV1ValueDecoder", "codec/json-v1.go"), ("ParseJsonV1", "codec/json-v1.go"), ("spanV2ValueDecoder", "codec/json-v2.go")],
     "abstract memory of decoder targets, compared with zero values")
prop("C18", "Every valid span is filed under its trace, once, and merged with its twin",
     "Every span that reaches the correction stage and has a trace id and a span id is filed in the trace of its trace id, which is created if it is not known yet; only spans without one of the ids and spans of blacklisted traces are dropped. A trace holds one span per span id: the first span with an id is stored unchanged and counted, a later one is merged into the stored one. Each arrival renews the time of the last update of its trace, and nothing of another trace is changed.",
     ["inputs", "histories", "schedules"], "every sequence of spans and ticks",
     "The tests add a handful of spans to one trace; lost or doubled spans need particular ids and orders.",
     ["correct.go"], [("ErrorCorrectSpans", "correct.go"), ("tree.AddSpan", "correct.go"), ("newTree", "correct.go")],
     "gated value-flow of the intake and of the insertion")
prop("C19", "A trace is sent complete and exactly once, or is given up and counted",
     "A trace is examined when it was not updated for the buffering time, when it was started more than five times that long ago, or when it has more than 8192 spans, and not before; it leaves the buffer at that moment. Of those, a trace that is too large or too old is blacklisted and not sent, a trace without a single root is given up, and every other one is sent to the output once, with all of its spans, after its times were corrected. Each outcome is counted by its own metric.",
     ["inputs", "histories", "schedules"], "every set of buffered traces and every tick",
     "No test runs the tick; doubled, lost or incomplete traces need particular sets of traces.",
     ["correct.go"], [("finishTraces", "correct.go"), ("ErrorCorrectSpans", "correct.go")],
     "gated value-flow of the tick")
prop("C20", "Buffered spans and the blacklist stay bounded",
     "The more spans are buffered, the shorter is the time for which they are kept, and traces are given up, largest first, when there are more buffered spans than the limit, until the limit is respected. The number of spans of each trace is known exactly and traces that are about to be dropped do not count. The blacklist is brought below 1024 entries with every tick, every entry is a trace that was given up because it was too large or too old.",
     ["inputs", "histories"], "every set of buffered traces",
     "Needs more than a million spans or thousands of traces.",
     ["correct.go"], [("discardSuspiciousTraces", "correct.go"), ("finishTraces", "correct.go"), ("bufferConfigs", "correct.go")],
     "gated value-flow of the tick and of the choice of victims")
prop("C22", "Clock skew is corrected down the tree, for every span once",
     "A span with all four client and server times starts when its client sent the request and lasts as long as the client waited; other spans keep their start and duration. Every span is shifted by the sum of the skews of its ancestors, the skew being the distance between the centres of the client's and the server's interval, and a child whose time lies before 2020 takes the corrected time of its parent. The children of a span are the spans that name it as their parent and are not their own parent, the roots are the spans that are their own parent or whose parent is not in the trace; each child is corrected once, after its parent.",
     ["inputs"], "every tree of spans and every combination of timings",
     "The one test of timings fails on this tree; others cover one small tree.",
     ["correct.go"], [("correctTreeTimings", "correct.go"), ("tree.ChildrenOf", "correct.go"), ("tree.Roots", "correct.go")],
     "gated value-flow, final values compared with the specification")
prop("C23", "A missing root is replaced by a fake root that covers the trace",
     "If a finished trace has several roots and all of them name the same parent, a span of the name and service fake-root is added to it, with the id of the missing parent, the trace id of the roots, starting with the earliest of the roots and ending with the latest end of one; no other trace gets one. It is a root itself, and the roots are looked for again afterwards.",
     ["inputs"], "every finished trace",
     "No test drives a trace without a root; the interval depends on the order of the roots.",
     ["correct.go"], [("createFakeRoot", "correct.go"), ("allTheSameParent", "correct.go")],
     "gated value-flow, loop summaries compared with minimum and maximum")
prop("C21", "Two halves of a span are merged without losing or mixing data",
     "When a span with a known id arrives again, the stored one keeps its ids, start and duration, and takes the parent of the new one if it has none. If the new one has a server time, its name, service and tags win over the stored ones where it has any, otherwise the stored ones win and the new ones fill the gaps; tags of both are kept. Each of the four times is kept from the span that has it, client times of a client are preferred over those of a server, and every merge is counted.",
     ["inputs", "histories"], "every pair of spans",
     "The tests merge three pairs of spans; each field has its own rule and its own gaps.",
     ["correct.go", "proxy/span.go"], [("mergeSpansInPlace", "correct.go"), ("tree.AddSpan", "correct.go")],
     "gated value-flow, final field values and map-copy order compared with the specification")
prop("C17", "The stages are connected, with and without Kafka",
     "Without Kafka brokers every span that the server accepts goes directly to the correction stage; with brokers it goes to the Kafka sender, and every span that is consumed from the same topic goes to the correction stage, waiting until it is taken. There is exactly one correction stage, each stage has its own input that no one else takes from, and every stage runs before the server starts and as long as it runs. The recent spans that the administration interface shows are those that the correction stage produced, and the Datadog output talks to the agent at the host and port that were given. If the topic, the sender or the consumer can not be set up, the program ends instead of running without them.",
     ["configurations", "schedules"], "every configuration of the process",
     "No test starts the process; each configuration needs its own broker and agent.",
     ["main.go"], [("MainWithRouting", "main.go"), ("channels", "main.go")],
     "gated value-flow of the start-up code, per configuration")
prop("C24", "Every finished trace is converted and sent to all outputs",
     "Each finished trace is converted span by span, in order, by the converter of the embedding program; a span is left out exactly if the converter fails or its result has no span id or no trace id. The converted spans of a trace are sent together, once, unchanged, to every output, in the order of arrival, and wait until the output takes them. One bad span or trace never stops the forwarding.",
     ["inputs", "schedules"], "every trace and every converter",
     "No test runs the forwarding.",
     ["main.go"], [("forwardSpansToChannels", "main.go"), ("outputs", "main.go")],
     "gated value-flow of the forwarding loop")
prop("C25", "The Datadog output never holds up the proxy and loses no batch silently",
     "The output collects spans by trace and hands them over as one batch when there are 1000 of them, or with the two-second tick unless a batch was handed over less than 1.8 seconds ago; it never waits for the agent: a batch that can not be taken at once is dropped as a whole. After every hand-over it goes on with a new, empty batch, and the handed over one is not touched any more. Every batch is submitted to the agent once, in one call, with all of its traces, each complete, and a failing submission stops nothing. A dropped batch and a failed submission are reported in the log.",
     ["inputs", "schedules", "faults"], "every sequence of traces, ticks and answers of the agent",
     "No test runs the output; a busy or failing agent and the timing of ticks are needed.",
     ["datadog/converter.go"], [("Sink", "datadog/converter.go"), ("submitTraces", "datadog/converter.go")],
     "gated value-flow of the output loop and the submitting goroutine")
prop("C26", "Every span becomes one Datadog span with the documented fields",
     "Every received span appears exactly once in the batch, in the list of its trace. Its Datadog form has the ids of the span, its service as service and name, its name as resource with a placeholder for an empty one, its start in nanoseconds, its duration but at least one microsecond, its tags as they are, and it is an error exactly if it has an error tag that is neither \"false\" nor \"0\". Each span has memory of its own; neither the received spans nor their tags are changed.",
     ["inputs", "histories"], "every span and every sequence of traces",
     "No test converts a span; shared memory shows only after thousands of spans.",
     ["datadog/converter.go", "proxy/timestamp.go", "proxy/id.go"], [("Sink", "datadog/converter.go")],
     "gated value-flow, field by field, and ownership of the memory of the spans")
prop("C28", "The recent spans are the last ones, from the oldest to the latest",
     "The buffer of recent spans always holds the spans that were received last, as many as its capacity, each as it was received. Reading it lists exactly these, from the oldest to the latest, and changes nothing; places that were never used are left out.",
     ["inputs", "histories"], "every sequence of traces, of any length",
     "No test fills the buffer; the order shows only after it wrapped around.",
     ["buffer.go"], [("SpansBuffer.ReadFrom", "buffer.go"), ("SpansBuffer.ToSlice", "buffer.go"), ("NewSpansBuffer", "buffer.go")],
     "gated value-flow, inductive ring invariant",
     state=[("position", "place of the next span, below the capacity", "buffer.go SpansBuffer"), ("spans", "ring of the last spans", "buffer.go SpansBuffer")])
prop("C12", "A span survives its binary form unchanged",
     "Decoding the binary form of a span yields a span with the same ids, parent, name, service, timestamp, duration, four times and tags, for every value that each of them can have, negative and absent ones included. Nothing else is in the form, no field takes part of another one, and encoding does not change the span.",
     ["inputs"], "every span",
     "The tests encode one span; each length, sign and size of a number takes its own path.",
     ["codec/binary.go"], [("BinaryEncode", "codec/binary.go"), ("BinaryDecode", "codec/binary.go")],
     "gated value-flow of writer against reader, bit provenance of the integer coding")
prop("C13", "Damaged binary spans are refused with an error, without harm",
     "Decoding any bytes terminates, never panics and reserves no more memory than a small multiple of the bytes that are there. When a part is missing or a length is impossible the result is an error and no span; no part of a span of an earlier message shows up.",
     ["inputs", "faults"], "every sequence of bytes",
     "The tests decode only what they encoded; each truncation and each forged length matters.",
     ["codec/binary.go"], [("BinaryDecode", "codec/binary.go")],
     "gated value-flow: error returns, progress of loops, bounds and reserve sizes")
prop("C14", "Kafka messages are keyed by trace and share no memory",
     "Every span becomes one message for the configured topic: its key consists of the eight bytes of the trace id and of nothing else, so that all spans of a trace reach the same partition and consumer, and its value is the binary form of exactly this span. The bytes of a message are never written again and belong to no other message, whatever the sizes of the spans and however many messages are in flight.",
     ["inputs", "histories", "schedules"], "every sequence of spans of any size",
     "Shared memory needs spans of particular sizes, thousands of messages, or several senders at a time.",
     ["balance/encoder.go", "main.go"], [("makeProducerMessage", "balance/encoder.go"), ("encoder", "balance/encoder.go")],
     "gated value-flow, ownership and disjointness of memory regions",
     state=[("buf", "memory for the next messages", "balance/encoder.go encoder"), ("slices", "places for the next keys and values", "balance/encoder.go encoder")])
prop("C15", "The Kafka sender sends every span, in order, and never jams",
     "Every span that arrives at the sender is sent to the producer as one message of its own, in the order of arrival; the sender waits until the producer takes it and ends only with its input. The errors of the producer are taken, logged and survived for as long as it runs, and no notifications are asked for that nobody takes.",
     ["inputs", "schedules", "faults"], "every sequence of spans and every failure of the brokers",
     "No test starts a producer; the jam needs failing brokers.",
     ["balance/sender.go", "main.go"], [("NewSender", "balance/sender.go"), ("Sender.Send", "balance/sender.go")],
     "gated value-flow of the sender and of the consumer of producer errors")
prop("C16", "The Kafka consumer survives bad messages and failing sessions",
     "Every message of every claimed partition is decoded as a whole; its span is handed over once, in order, and only then the message is marked as consumed. A message that can not be decoded is skipped and stops nothing, a session that ends or fails is followed by the next one until the consumer is stopped, and stopping waits for the last session. Partitions that are consumed side by side share no variables.",
     ["inputs", "schedules", "faults"], "every sequence of messages, sessions and failures",
     "No test consumes; bad messages, rebalancing and failing brokers are needed.",
     ["balance/receiver.go"], [("Consume", "balance/receiver.go"), ("ConsumeClaim", "balance/receiver.go")],
     "gated value-flow of the session loop, the claim loop and the stop function")
prop("C27", "Goroutines never race and never hold each other up for ever",
     "Every variable that several goroutines use and at least one changes is used under one mutex or atomically, and memory that is handed to a goroutine is not changed by others. Every mutex is released on every path, is never taken twice by one goroutine, and nothing waits for others while one is held. Handlers of concurrent requests share no variables that they change, and what a protected object hands out is a copy.",
     ["schedules"], "every interleaving of the goroutines of the proxy",
     "Tests run single goroutines; a race needs an unlucky moment.",
     ["cache/cache.go", "buffer.go", "handlers.go", "correct.go", "balance", "datadog/converter.go", "main.go"],
     [("lookupCache", "cache/cache.go"), ("SpansBuffer", "buffer.go"), ("handleSpans", "handlers.go")],
     "lockset and escape analysis over the call graph",
     state=[("binaryCache", "the string cache that all goroutines use", "cache/cache.go"), ("spans", "ring of the last spans", "buffer.go SpansBuffer")])
prop("C29", "The string cache returns equal texts, bounded and in order of use",
     "Interning a text returns exactly that text, never another one and never empty unless it was empty, and counts exactly one hit if it was cached and one miss otherwise. Afterwards it is the entry used last; the others keep their order of use, and only the entries used longest ago are dropped, just while the texts with a fixed cost for each entry reach the limit. The count and size shown are those of the entries that are held, and the hit rate is the share of hits since it was last read, a number even without lookups.",
     ["inputs", "histories", "schedules"], "every content of the cache of any size and every text, with any work of others between two locked sections",
     "The tests insert a handful of entries; broken links or counters show only after particular orders of use and eviction.",
     ["cache/lru.go", "cache/cache.go"], [("lookupCache", "cache/cache.go"), ("Set", "cache/lru.go"), ("RegisterCacheMetrics", "cache/cache.go")],
     "shape analysis of the list, the map and the counters",
     state=[("usage", "entries in the order of their last use", "cache/lru.go lruCache"), ("values", "entry of each text", "cache/lru.go lruCache"), ("size", "bytes of all texts", "cache/lru.go lruCache")])
prop("C08", "JSON tokens are recognised exactly and mean what they say",
     "The kind of the next JSON value follows from its first character; white space and separators before it are skipped, and any character that starts no value is refused. Brackets and braces are taken only where they stand, true, false and null only when written in full, a number is the longest run of number characters, and a string ends at the first quote that is not escaped. A string stands for its characters, with every escape sequence replaced by the character it means, including four-digit escapes and surrogate pairs; an incomplete or unreadable escape sequence is refused. After a token the parser stands right behind its last character, and skipping a value moves over the same characters as reading it.",
     ["inputs"], "every sequence of bytes, at every position",
     "The tests parse a few tokens with one or two escape sequences; the rules range over all bytes, states of the scanners and lengths.",
     ["codec/hyperjson/parser.go", "codec/hyperjson/string.go", "codec/hyperjson/parser_skip.go"],
     [("Parser.ReadString, ReadNumber, ReadLiteral, Skip, NextType, Consume*", "codec/hyperjson/parser.go, parser_skip.go"), ("decodeStringInPlace", "codec/hyperjson/string.go")],
     "transition relations of the tokenizer's loops, read off the value-flow summaries and compared with reference automata")
prop("C09", "Ids keep their 64 bits in every text form",
     "The text and the JSON of an id are its sixteen lower case hexadecimal digits, the most significant first, for every one of the 2^64 ids. Parsing takes up to sixteen digits of either case and nothing else, gives exactly the number that they show, and refuses other bytes and longer texts without changing anything. Times written as JSON and read back keep their nanoseconds.",
     ["inputs"], "every id, every time, and every text",
     "The tests try a few ids; a lost bit or one wrong byte value of 256 shows only for others.",
     ["proxy/id.go", "proxy/timestamp.go"], [("ParseId", "proxy/id.go"), ("Id.String", "proxy/id.go"), ("Id.MarshalJSON", "proxy/id.go")],
     "bit provenance of digits, case distinction over all byte values of one parser step")
prop("C04", "The JSON parser sees exactly the bytes of the input, each once",
     "However the reader cuts the input into pieces, and together with which piece it reports the end, the parser looks at received bytes only, and its unread bytes are always the next bytes of the input: none is lost, repeated or overwritten when the buffer is moved, grows or is refilled. A token may be longer than the buffer. No input makes the parser leave the bounds of a slice or panic.",
     ["inputs", "schedules", "faults"], "every input, every partition of it into reads, every buffer size and every sequence of parser calls",
     "The tests read from memory with short tokens; what counts is where the reads happen to split the tokens.",
     ["codec/hyperjson"], [("Parser.bufferMore", "codec/hyperjson/parser.go"), ("Parser.require", "codec/hyperjson/parser.go"), ("decodeStringInPlace", "codec/hyperjson/string.go"), ("NewWithBytes", "codec/hyperjson/parser.go")],
     "abstract interpretation with linear relations (Fourier-Motzkin) and inferred loop invariants",
     state=[("tail, head", "first unread byte and end of the received bytes in the buffer", "codec/hyperjson/parser.go Parser"), ("eof", "the reader reported the end", "codec/hyperjson/parser.go Parser")])
prop("C05", "Parsing any JSON input ends, with bounded memory and depth",
     "Every loop of the parser and of the decoders gets closer to its end with every round: it consumes input, receives more of it, or counts towards a bound. Nesting of any depth needs only a bounded number of nested calls, buffers grow only in proportion to a token that really is there, a successful decoder consumed something, and a failed read is reported instead of being repeated.",
     ["inputs", "faults"], "every input and every behaviour of a reader that delivers something or fails eventually",
     "An endless loop or a stack overflow needs one particular input out of all of them, like a token longer than the buffer.",
     ["codec/hyperjson", "codec/json.go", "codec/json-v1.go", "codec/json-v2.go"], [("Parser.skip", "codec/hyperjson/parser_skip.go"), ("Parser.bufferMore", "codec/hyperjson/parser.go"), ("MakeSliceDecoder", "codec/hyperjson/bind.go")],
     "ranking arguments by abstract interpretation with linear relations, recursion depth over the call graph")
