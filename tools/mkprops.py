#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Kafka wire format round-trips every span",
 "Encoding any span with the binary wire format and decoding the bytes yields the same span: id, trace, parent, name, service, timestamp, duration, all four timings and every tag (an absent and an empty tag map are equivalent). Decoding consumes exactly the bytes that encoding produced, so several spans written one after another decode one after another.",
 ["inputs"], "all spans: every 64-bit value of each numeric field, all strings and tag maps",
 "The tests encode one fixed span and 10000 random spans of one shape; they never reach negative values, extreme widths, empty or very long strings, or unusual tag counts by choice.",
 ["codec/binary.go"], [("zig-zag varint writer/reader", "codec/binary.go:writeLong,readLong"), ("length-prefixed strings and blocked map", "codec/binary.go:writeString,readString,writeMapString,readMapString")],
 observe=["codec.BinaryEncode", "codec.BinaryDecode"])

prop("C02", "Decoding untrusted wire bytes is safe and detects truncation",
 "Decoding an arbitrary byte sequence as a wire-format span always terminates with a span or an error: it never panics, never reads beyond the given bytes, and never allocates memory out of proportion to the number of bytes given. Any proper prefix of a valid encoding is rejected with an error.",
 ["inputs"], "all byte sequences, including hostile length and block-count fields, and every cut point of a valid encoding",
 "No test decodes malformed or truncated bytes.",
 ["codec/binary.go"], [("error propagation from every read", "codec/binary.go:BinaryDecode"), ("string length check", "codec/binary.go:readString"), ("block count handling", "codec/binary.go:readMapString")],
 observe=["codec.BinaryDecode"])

prop("C03", "Kafka messages carry the right key, value and topic and stay intact",
 "For each span sent, the producer receives exactly one message, in order, on the configured topic, whose key is the 8-byte little-endian trace id (so all spans of a trace go to one partition) and whose value decodes to that span. Building later messages never alters the key or value bytes of a message built earlier, whatever the span sizes.",
 ["inputs", "histories"], "all sequences of spans of arbitrary sizes sent through one sender",
 "The test checks values only, for 10000 small random spans; keys, topic, oversized spans and buffer-boundary sequences are never examined.",
 ["balance/encoder.go", "balance/sender.go"], [("carving key and value out of a shared buffer", "balance/encoder.go:encoder.Encode"), ("pool of encoders", "balance/encoder.go:makeProducerMessage"), ("send loop", "balance/sender.go:Sender.Send")],
 state=[("encoder.buf", "remaining scratch memory that later messages are carved from", "balance/encoder.go"), ("encoder.slices", "remaining slice headers", "balance/encoder.go")],
 observe=["sarama.AsyncProducer.Input"])

prop("C04", "Kafka consumption hands every decodable message over once, in order",
 "For any sequence of messages in a claim, the span of every decodable message is handed to the callback exactly once and in order, and a message is marked as consumed only after its span was handed over, which then happens for each of them. A message that does not decode is skipped without a callback and does not stop, reorder or lose the messages after it.",
 ["inputs", "histories"], "all sequences of valid and malformed messages",
 "There is no test of the consumer.",
 ["balance/receiver.go"], [("claim loop", "balance/receiver.go:ConsumeClaim"), ("decode of a message", "balance/receiver.go:decodeKafkaMessage")],
 observe=["SpanCallback", "ConsumerGroupSession.MarkMessage"])

prop("C05", "Consumer keeps rejoining and its stop function really stops it",
 "Until it is stopped, the consumer starts a new group session whenever one ends, whether it ended normally or with an error. The stop function cancels the running session and returns only after the consumer has finished, so no session is started and no span is handed over after it returned.",
 ["schedules", "fault_sequences"], "all sequences of session results and every point at which stop is called",
 "There is no test of the consumer, let alone of its shutdown interleavings.",
 ["balance/receiver.go"], [("session loop with context", "balance/receiver.go:Consume"), ("finished channel", "balance/receiver.go:Consume")],
 observe=["sarama.ConsumerGroup.Consume", "SpanCallback"])

prop("C06", "String interning never changes a string",
 "Interning a string or byte slice returns a string with exactly the bytes that were passed in, whatever was interned before and whatever was evicted. A string obtained from the copying variant never changes afterwards, even when the caller overwrites the byte slice it was made from, and later lookups are not affected by such overwriting either.",
 ["inputs", "histories"], "all histories of interning calls on arbitrary byte contents with arbitrary reuse of the caller's buffers",
 "The cache tests never look at the interning functions and never compare contents after a buffer was reused.",
 ["cache/cache.go", "cache/lru.go"], [("copy on insert", "cache/cache.go:lookupCache"), ("lookup by content", "cache/lru.go:lruCache.Get")],
 state=[("binaryCache", "process-wide string cache", "cache/cache.go")],
 observe=["cache.String", "cache.StringForByteSliceCopy", "cache.StringForByteSliceNoCopy"])

prop("C07", "LRU cache is bounded, consistent and evicts least recently used first",
 "After any history of sets and gets the reported count equals the number of retained entries and the reported size is their total cost, an insertion leaves at most one entry's cost above the configured maximum, and it terminates. Entries are evicted strictly in least-recently-used order and only when the size has reached the maximum, so exactly the most recently used entries are found and every other lookup misses.",
 ["histories", "inputs"], "all sequences of set and get over arbitrary keys and sizes, for caches with a positive maximum size",
 "The tests use one access pattern (set-only, random keys) and check a coarse bound and the count.",
 ["cache/lru.go"], [("recency list", "cache/lru.go:linkedList.PushHead,DropTail"), ("size accounting", "cache/lru.go:ensureCacheSize,Set")],
 state=[("size,count", "accounting of retained entries", "cache/lru.go"), ("usage", "doubly linked recency list", "cache/lru.go")],
 observe=["lruCache.Get", "lruCache.Size", "lruCache.Count"])

prop("C08", "JSON parsing of arbitrary bodies never panics, hangs or overflows",
 "Parsing any request body as zipkin v1 or v2 JSON terminates with spans or an error; it never panics, never loops forever and never exhausts the stack, however malformed, truncated, long-tokened or deeply nested the body is and however the reader delivers it. A reader error other than end of input is reported as an error.",
 ["inputs", "fault_sequences"], "all byte sequences, all ways a reader can split them, and a reader error at every point",
 "Tests parse only well-formed documents of a few hundred bytes from readers that deliver everything at once.",
 ["codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/string.go", "codec/hyperjson/bind.go", "codec/json-v1.go", "codec/json-v2.go"], [("buffer refill", "codec/hyperjson/parser.go:bufferMore,require"), ("tokenizer loops", "codec/hyperjson/parser.go:readString,readNumber,skipWhitespace"), ("recursive skip", "codec/hyperjson/parser_skip.go")],
 state=[("Parser.tail/head/buffer", "window of unread input", "codec/hyperjson/parser.go")],
 observe=["codec.ParseJsonV1", "codec.ParseJsonV2", "hyperjson.Parser"])

prop("C09", "Parse result does not depend on how the input arrives",
 "The tokens, spans and accept/reject decision produced from a JSON document depend only on its bytes: not on how the reader splits them into chunks (including chunks delivered together with end of input and empty reads), and not on the size of the parser's buffer, even when tokens are cut at chunk or buffer boundaries or are longer than the buffer.",
 ["inputs", "fault_sequences"], "all documents, all chunkings and all buffer sizes",
 "Tests use readers that deliver everything in one read into a large buffer.",
 ["codec/hyperjson/parser.go"], [("compaction and refill", "codec/hyperjson/parser.go:bufferMore"), ("resumption of partial tokens", "codec/hyperjson/parser.go:readString,readNumber,readN,require")],
 observe=["hyperjson.Parser", "codec.ParseJsonV2"])

prop("C10", "JSON strings decode exactly as the JSON standard defines",
 "Every valid JSON string token decodes to the text it denotes: unescaped bytes are kept verbatim, the escapes \\\" \\\\ \\/ \\b \\f \\n \\r \\t denote their characters, \\uXXXX denotes that code point in UTF-8 and a surrogate pair of such escapes denotes one supplementary character. A malformed \\u escape or an unterminated string is an error.",
 ["inputs"], "all string tokens",
 "Tests use three fixed strings with an escaped quote, a backslash and two three-byte code points.",
 ["codec/hyperjson/string.go", "codec/hyperjson/parser.go"], [("in-place unescaping", "codec/hyperjson/string.go:decodeStringInPlace,decodeUnicodeChar"), ("end-of-string detection", "codec/hyperjson/parser.go:readString")],
 observe=["Parser.ReadString"])

prop("C11", "Unknown JSON members are skipped exactly",
 "Adding members that the span schema does not know, with any valid JSON value (strings with escapes, numbers in any valid notation, literals, nested arrays and objects), anywhere in a span, endpoint or annotation leaves the parsed spans unchanged. Skipping a value consumes exactly that value.",
 ["inputs"], "all valid JSON values in all positions",
 "Tests skip one number, one object and one array of small integers.",
 ["codec/hyperjson/parser_skip.go", "codec/hyperjson/bind.go", "codec/hyperjson/parser.go"], [("skip", "codec/hyperjson/parser_skip.go"), ("struct decoder", "codec/hyperjson/bind.go:MakeStructDecoder")],
 observe=["codec.ParseJsonV1", "codec.ParseJsonV2", "Parser.Skip"])

prop("C12", "Zipkin v2 spans are mapped faithfully",
 "For a well-formed v2 document, one span comes out per element, in order, with the given ids (absent or null ids are zero), name, local service name and tags plus protocolVersion=\"json v2\"; timestamp and duration are the given microseconds in nanoseconds, and a missing or zero duration becomes 1 ms. Kind CLIENT (any letter case) sets exactly client send/receive to start and start+duration, SERVER sets exactly server receive/send likewise, any other or missing kind sets no timings.",
 ["inputs"], "all well-formed v2 documents whose times fit in 64-bit nanoseconds",
 "The test maps one CLIENT span with all members present.",
 ["codec/json-v2.go", "codec/hyperjson/bind.go"], [("field table", "codec/json-v2.go:spanV2ValueDecoder"), ("conversion", "codec/json-v2.go:spanV2.ToSpan")],
 observe=["codec.ParseJsonV2"])

prop("C13", "Zipkin v1 spans are mapped faithfully",
 "For a well-formed v1 document (at most four annotations per span), one span comes out per element, in order, with the given ids and name; each cs/cr/sr/ss annotation with a non-zero timestamp sets its timing, binary annotations become tags (literals in their JSON spelling) plus protocolVersion=\"json v1\", and the service is the first non-empty endpoint service name among timestamped annotations, then binary annotations. Start and duration come from cs and cr if both are present, else from sr and ss if both are present, else from the span's own timestamp and duration; a zero duration becomes 1 ms.",
 ["inputs"], "all well-formed v1 documents with up to four annotations whose times fit in 64-bit nanoseconds",
 "The test maps one span with cs and cr and one endpoint name.",
 ["codec/json-v1.go", "codec/json.go", "codec/hyperjson/bind.go"], [("field tables", "codec/json-v1.go:spanV1ValueDecoder"), ("conversion", "codec/json-v1.go:spanV1.ToSpan,fillInTimestamp")],
 observe=["codec.ParseJsonV1"])

prop("C14", "Jaeger spans are mapped faithfully",
 "For a well-formed Jaeger document every span of every data object comes out once, in order, with its ids, operation name, the service name of its process, its string tags (component renamed to lc; internal.span.format and span.kind removed; non-string tags ignored) plus protocolVersion=\"jaeger\", and its times in nanoseconds with a zero duration becoming 1 ms. The parent is the span of its CHILD_OF reference, or the span itself if it has none; span.kind client or server (any letter case) sets exactly the client or server timings.",
 ["inputs"], "all well-formed Jaeger documents whose times fit in 64-bit nanoseconds",
 "The test maps one client span with one reference.",
 ["codec/jaeger.go"], [("conversion", "codec/jaeger.go:jaegerSpan.ToSpan"), ("iteration", "codec/jaeger.go:ParseJaeger")],
 observe=["codec.ParseJaeger"])

prop("C15", "A request's spans depend only on that request",
 "The spans parsed from a request body are the same whatever bodies, valid or malformed, were parsed before it, even though parser buffers and span slices are recycled. Spans already returned from an earlier request never change when later requests are parsed.",
 ["histories", "inputs"], "all sequences of request bodies",
 "Each test parses a single document.",
 ["codec/json-v1.go", "codec/json-v2.go", "codec/json.go", "codec/binary.go", "cache/cache.go"], [("reset of recycled spans", "codec/json-v1.go:spanV1ValueDecoder"), ("copying strings out of pooled buffers", "cache/cache.go:lookupCache")],
 state=[("poolSpansV1, bufferPool", "recycled decode memory", "codec/json-v1.go, codec/json.go")],
 observe=["codec.ParseJsonV1", "codec.ParseJsonV2", "codec.BinaryDecode"])

prop("C16", "Span ids convert to and from hex without loss",
 "Formatting any 64-bit id gives 16 lower-case hex digits that parse back to the same id, also through its JSON form. Parsing accepts exactly strings of at most 16 hex digits of either case, gives their numeric value, and rejects everything else with an error; JSON decoding additionally requires surrounding quotes and leaves the target unchanged on error.",
 ["inputs"], "all 64-bit ids and all byte strings",
 "No test covers ids directly.",
 ["proxy/id.go"], [("hex codec", "proxy/id.go:ParseId,Id.String,MarshalJSON,UnmarshalJSON")],
 observe=["proxy.ParseId", "proxy.Id"])

prop("C17", "HTTP ingestion is all-or-nothing and acknowledged truthfully",
 "A POST to a span endpoint is answered 202 exactly when the JSON document in its body parsed, and then every parsed span, in order, has been put on the span channel exactly once; otherwise it is answered 400 and no span of it is put on the channel. The v1 endpoint accepts only JSON content types, and a gzip-encoded body is treated exactly like its decompressed content, a corrupt gzip header being answered 400.",
 ["inputs", "fault_sequences"], "all requests to the three endpoints and all body read failures",
 "There is no test of the HTTP handlers.",
 ["handlers.go"], [("handlers", "handlers.go:handleSpans,parseSpansWithJSON"), ("gzip wrapper", "handlers.go:handleGzipRequestBody")],
 observe=["http.ResponseWriter", "spans channel"])

prop("C18", "Client and server halves merge the same way in either order",
 "When a client half and a server half of one span arrive, the merged span has the timings of both, the server's service and name if non-empty (else the client's), and the union of the tags with the server's value on conflicts - whichever arrived first; an unknown parent id is filled in from the other half. No valid timing reported in any part of a span is lost by merging.",
 ["inputs", "histories"], "all pairs of halves, in both arrival orders",
 "Tests merge three fixed pairs, one key each.",
 ["correct.go"], [("merge", "correct.go:mergeSpansInPlace"), ("lookup on arrival", "correct.go:tree.AddSpan")],
 observe=["tree.AddSpan", "mergeSpansInPlace"])

prop("C19", "Trace assembly neither loses, duplicates nor mixes spans",
 "Each trace that is emitted contains, for its trace id, exactly one span per distinct span id received since that trace was started, and no span of another trace; the only span not received that it may contain is one synthetic root. Spans with a zero id or zero trace id are ignored, and each buffered trace is emitted at most once.",
 ["inputs", "histories", "schedules"], "all interleavings of spans of several traces with the periodic checks",
 "The tests add two spans to one tree by hand; the assembly loop is never run.",
 ["correct.go"], [("per-trace trees", "correct.go:ErrorCorrectSpans"), ("sorted span slice", "correct.go:SpanSlice.Append,GetSpanRef"), ("emission", "correct.go:finishTraces")],
 state=[("traces", "buffered traces by id", "correct.go:ErrorCorrectSpans")],
 observe=["ErrorCorrectSpans output channel"])

prop("C20", "Quiet traces with one root are released, active ones are held back",
 "A trace is released at the first periodic check at which it has been quiet for the buffer time (8 s; 6, 4 or 2 s from 40000, 60000 or 80000 buffered spans on) and never while it received a span more recently than that. A quiet trace is emitted if it has exactly one topmost span (own parent, or parent not in the trace), or if it has several that all name the same non-zero missing parent, in which case one synthetic root with that id, spanning their time range, is added; otherwise it is dropped. (Several topmost spans that all lack a parent id are left open.)",
 ["histories", "inputs", "schedules"], "all arrival times, check times and parent structures",
 "The assembly loop and root selection beyond a two-span chain are not tested.",
 ["correct.go", "proxy/span.go"], [("deadline check", "correct.go:finishTraces"), ("root selection", "correct.go:tree.Roots,allTheSameParent"), ("synthetic root", "correct.go:createFakeRoot")],
 observe=["ErrorCorrectSpans output channel"])

prop("C21", "Clock-skew correction aligns server side with client side",
 "For a span with all four timings the released start is the client send time shifted by the offset inherited from its ancestors and its duration is client receive minus client send; its descendants' starts are shifted by the inherited offset plus the difference of the client and server midpoints, so relative times on one machine are preserved. Spans outside such a subtree keep their times, and a non-root span whose corrected start lies before 2020 takes its parent's corrected start.",
 ["inputs"], "all traces with one root and all realistic clock values",
 "The only timing test fails on the pinned commit because it uses times before 2020.",
 ["correct.go"], [("recursive correction", "correct.go:correctTreeTimings")],
 observe=["ErrorCorrectSpans output channel", "correctTreeTimings"])

prop("C22", "Oversized and overaged traces are discarded, blacklisted and bounded",
 "A trace found at a periodic check with more than 8192 distinct spans, or started longer ago than five times the buffer time, is never emitted, and spans arriving for it afterwards are ignored while it is remembered; at most 1023 such ids are remembered after a check, and none is forgotten while there are fewer. When too many spans are buffered in total, whole traces are discarded, largest first, until fewer than the limit remain, and no smaller trace is discarded when dropping a larger one sufficed.",
 ["histories", "inputs"], "all sizes, ages and numbers of buffered traces",
 "None of the limits is tested.",
 ["correct.go"], [("limit checks", "correct.go:finishTraces"), ("blacklist", "correct.go:ErrorCorrectSpans,finishTraces"), ("load shedding", "correct.go:discardSuspiciousTraces")],
 state=[("nodeCount", "distinct spans of a trace", "correct.go:tree"), ("blacklistedTraces", "ids of discarded traces", "correct.go")],
 observe=["ErrorCorrectSpans output channel"])

prop("C23", "Every sink gets every trace, converted, without invalid spans",
 "Each emitted trace is passed to every sink, in the same order, as the sequence of its converted spans in their original order, leaving out exactly those spans whose conversion failed or has a zero id or zero trace id. All sinks get equal content.",
 ["inputs", "histories"], "all traces, converters and numbers of sinks",
 "There is no test of the fan-out.",
 ["main.go"], [("fan-out", "main.go:forwardSpansToChannels")],
 observe=["sink channels"])

prop("C24", "Datadog batches carry every span once, correctly converted and grouped",
 "While the sender keeps up and its channel stays open, every span handed to the Datadog sink is sent exactly once, in a batch flushed when at least 1000 spans are pending or by the periodic flush, in the group of its trace id. Each sent span keeps ids, service (also as its name), tags and start; its resource is its name or \"(resource empty)\", its duration is at least 1 microsecond, and it is flagged as error exactly when it has a tag \"error\" other than \"false\" or \"0\".",
 ["inputs", "histories", "schedules"], "all sequences of traces and flush points",
 "The datadog package has no tests.",
 ["datadog/converter.go"], [("conversion and batching", "datadog/converter.go:Sink"), ("submission", "datadog/converter.go:submitTraces")],
 observe=["tracer.Transport.SendTraces"])

prop("C25", "The recent-spans buffer shows the latest spans in arrival order",
 "Reading the buffer of recent spans gives the most recently received spans, at most as many as its capacity, each once, in the order they were received (spans with zero id are not shown). Reading is safe at any moment while traces are arriving and always shows a state between whole traces.",
 ["histories", "schedules"], "all sequences of traces, all capacities and all interleavings with readers",
 "The buffer has no tests.",
 ["buffer.go", "main.go"], [("ring buffer under a lock", "buffer.go:SpansBuffer.ReadFrom,ToSlice")],
 state=[("spans, position", "ring and next slot", "buffer.go")],
 observe=["SpansBuffer.ToSlice"])

prop("C26", "JSON integers are read exactly or rejected",
 "An unsigned integer member (timestamp, duration) written as decimal digits is read as exactly the number it denotes; if it is negative, not an integer literal, or does not fit into 64 bits, the document is rejected instead of a different number being used.",
 ["inputs"], "all number literals of up to 21 characters",
 "Tests use a handful of in-range numbers.",
 ["codec/hyperjson/bind.go", "codec/hyperjson/parser.go"], [("decimal accumulation", "codec/hyperjson/bind.go:Uint64ValueDecoder"), ("number token", "codec/hyperjson/parser.go:readNumber")],
 observe=["codec.ParseJsonV1", "codec.ParseJsonV2", "hyperjson.Uint64ValueDecoder"])

prop("C27", "Shared state is free of data races",
 "Concurrent use of the parts that are shared between goroutines - string interning, message encoding, JSON parsing and binary decoding with recycled buffers, the recent-spans buffer and the fan-out of traces to sinks - has no data race and gives every goroutine the result it would get alone.",
 ["schedules"], "all interleavings of two concurrent callers at synchronization points",
 "Tests are single-threaded.",
 ["cache/cache.go", "balance/encoder.go", "codec/json.go", "codec/json-v1.go", "buffer.go", "main.go"], [("cache lock", "cache/cache.go:binaryCacheLock"), ("pools", "codec/json.go:bufferPool"), ("buffer lock", "buffer.go")],
 observe=["cache.String", "codec.ParseJsonV1", "SpansBuffer.ToSlice"])

prop("C28", "Timestamps survive JSON output and input",
 "Writing any timestamp as JSON and reading it back gives the same nanosecond value, whatever the local time zone (offsets of whole minutes, less than a day), and its millisecond and microsecond views are its value divided by the unit.",
 ["inputs"], "all 64-bit nanosecond values",
 "The proxy package has no tests.",
 ["proxy/timestamp.go"], [("time conversion", "proxy/timestamp.go")],
 observe=["proxy.Timestamp"])

prop("C29", "Pipeline stages end when their input ends",
 "When its input channel is closed, each stage of the pipeline - Kafka sender, trace assembly, fan-out to the sinks, recent-spans buffer and Datadog sink - still passes on what was waiting in its input (sender, fan-out, buffer) or what it had already flushed into its queue (sink), and then returns; it does not panic, block forever, close its output, pass anything on later or leave a goroutine of its own running. Whether spans still pending in trace assembly or in an unfilled batch of the sink are passed on is left open.",
 ["schedules", "histories"], "all interleavings at channel operations, all small histories before the close",
 "No test closes an input.",
 ["balance/sender.go", "main.go", "buffer.go", "correct.go", "datadog/converter.go"], [("range over the input", "balance/sender.go:Sender.Send, main.go:forwardSpansToChannels, buffer.go:ReadFrom"), ("closed input", "correct.go:ErrorCorrectSpans, datadog/converter.go:Sink"), ("submit goroutine", "datadog/converter.go:submitTraces")],
 observe=["sarama.AsyncProducer.Input", "datadog.Sink", "ErrorCorrectSpans", "SpansBuffer.ToSlice"])

prop("C30", "A slow or failing Datadog agent never blocks the pipeline",
 "Whatever the Datadog agent does - errors, late answers or no answer - the sink accepts every trace without waiting for it. While one batch is being sent, up to eight more batches wait in order; only batches flushed beyond that are discarded, each as a whole, and an error of the agent affects only the batch it answered. Once the agent answers again, everything that waits and everything received from then on is sent, each span once and complete.",
 ["fault_sequences", "histories", "inputs"], "all sequences of answers, errors and stalls of the agent around the limit of waiting batches",
 "The tests never start the sink.",
 ["datadog/converter.go"], [("bounded queue with discard", "datadog/converter.go:Sink"), ("send loop", "datadog/converter.go:submitTraces")],
 state=[("groupedSpansChannel", "queue of flushed batches", "datadog/converter.go")],
 observe=["tracer.Transport.SendTraces", "datadog.Sink"])

prop("C31", "A span posted over HTTP reaches Datadog",
 "In a proxy started without Kafka brokers, every span posted to the Zipkin v1, Zipkin v2 or Jaeger endpoint comes out at the configured Datadog agent exactly once, with the ids, name, service, tags and times it was posted with (as changed by the span converter), the client and server halves of a span merged into one whichever formats they came in, and the spans of a trace in one group, at most 4.1 s after the trace has been quiet for 8 s. Malformed requests and spans the converter refuses contribute nothing, and the recent-spans buffer shows the same spans; requests, compressed or not, pass through the routing the proxy was started with.",
 ["inputs", "histories"], "all combinations of formats, orders, distances in time and interleaved malformed requests; arbitrary digits of the posted times",
 "The tests exercise one function at a time; nothing is tested from request to agent.",
 ["main.go", "handlers.go", "correct.go", "buffer.go", "datadog/converter.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go"], [("wiring", "main.go:MainWithRouting"), ("endpoints", "handlers.go:handleSpans"), ("assembly", "correct.go:ErrorCorrectSpans"), ("fan-out", "main.go:forwardSpansToChannels"), ("sink", "datadog/converter.go:Sink")],
 observe=["tracer.Transport.SendTraces", "SpansBuffer.ToSlice"])

prop("C32", "Balancing over Kafka keeps traces whole",
 "With several proxies started on one Kafka topic and consumer group, every span posted to any of them comes out exactly once, at the Datadog agent of one of them, as posted and converted, within the same time as without Kafka; all spans of a trace, and the client and server halves of a span, come out together at the proxy that consumes the trace's partition, whichever proxies they were posted to. A consumer session that ends and is started again from the last marked message in between changes nothing. The topic, consumer group, brokers and agent are the configured ones, and the topic is made sure to exist before it is consumed.",
 ["inputs", "histories", "configurations"], "all assignments of posts to proxies, of keys to partitions and of partitions to proxies for two proxies and two partitions; all formats and orders; arbitrary last digits of the times",
 "No test has more than one proxy, a broker or a consumer.",
 ["main.go", "balance/sender.go", "balance/encoder.go", "balance/receiver.go", "codec/binary.go", "correct.go"], [("wiring", "main.go:MainWithRouting"), ("key of a message", "balance/encoder.go:Encode"), ("rejoin", "balance/receiver.go:Consume")],
 observe=["tracer.Transport.SendTraces", "sarama.AsyncProducer.Input", "sarama.ConsumerGroup.Consume"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
