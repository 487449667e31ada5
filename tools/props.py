BASE_NOTE = "Seeded sampling, not proof. Every goroutine switch, timer, clock reading and random number is decided by the simulator; preemption at statement granularity (data races below that are not modelled). Trusted: the simulator, the harness's reference model, and the Go standard library. "

prop("C01", "Accepted FTDC samples read back exactly, through every collector and reader",
 "Every sample an FTDC collector accepts (base, batch, dynamic, streaming, streaming dynamic, document writer) comes back exactly once, in order, with the same field paths, types and values for booleans, 32/64-bit integers, doubles, datetimes, timestamps, nested documents and arrays, through the structured, flattened, matrix and chunk readers, however the stream is fragmented or delayed and however the reader's goroutines are scheduled; fields that are not metrics are left out. Reading an intact stream ends without error. The metadata set on the collector is reported by the readers, the sample counts reported are those accepted, a base collector refuses what exceeds its size without disturbing what it holds, resolving twice gives the same data, and Reset empties it for samples of any schema; input that is no document is refused with an error and changes nothing.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "all sample sequences of one schema (any nesting, any values), chunk sizes, collector/reader pairs, fragmentations and delays of the stream, and interleavings of the reader's goroutines",
 "The unit tests read a handful of generated documents from in-memory buffers on whatever schedule the machine gives, and compare mostly counts and printed forms.",
 ["x/ftdc/collector_better.go", "x/ftdc/collector_batch.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/writer.go", "x/ftdc/read.go", "x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go", "x/ftdc/bson_extract.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_restore.go", "x/ftdc/bson_matrix.go", "x/ftdc/util.go"],
 [("delta + run-length encoding and its inverse", "x/ftdc/collector_better.go getPayload; x/ftdc/read.go readChunks"), ("two-goroutine reading pipeline", "x/ftdc/iterator_chunk.go ReadChunks")],
 BASE_NOTE + "Oracle: values the generator recorded, rendered independently of the code under test.")

prop("C02", "Streaming collectors keep every accepted sample across failed writes",
 "With a streaming or streaming dynamic collector (compressed or uncompressed) or the document writer, whatever sequence of write errors and short writes the destination produces, an Add that fails has not taken its sample, an Add that succeeds has, and a failed flush keeps what was collected so a later flush writes it. A collector writes of its own accord only when a chunk is full or the schema changes. The successful writes, concatenated, decode to exactly the accepted samples, each once and in order, once a final flush succeeds.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of Add/Flush/Close with all placements of write errors and short writes at chunk boundaries and schema changes",
 "Tests use writers that never fail, or one that always does; the interleaving of failed flushes with later Adds is never exercised.",
 ["x/ftdc/collector_streaming.go", "x/ftdc/collector_uncompressed.go", "x/ftdc/writer.go"],
 [("reset only after a complete write", "x/ftdc/collector_streaming.go FlushCollector"), ("flush before add", "x/ftdc/collector_streaming.go Add")],
 BASE_NOTE + "Oracle: list of accepted samples against the decoded successful writes. A write is taken as having reached the destination only if the writer reported full success.")

prop("C03", "A truncated or failing FTDC stream yields an exact prefix and an error",
 "Reading an FTDC stream that is cut at any byte or whose reader fails at any point yields exactly the samples of the chunks that arrived completely, in order, and nothing else. Once iteration has ended, Close reports an error unless the stream ended at a document boundary, in which case it reports none; this is so on every schedule and for every reader.",
 ["crash_points", "fault_sequences", "schedules"],
 "all cut points and read-error points of all streams, all fragmentations, all interleavings of the reader's goroutines",
 "No test truncates a stream, and whether Close sees the error depends on how the pipeline's goroutines interleave.",
 ["x/ftdc/read.go", "x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go", "document.go"],
 [("errors pushed before the channel the consumer waits on closes", "x/ftdc/iterator_chunk.go ReadChunks"), ("document framing", "document.go ReadFrom")],
 BASE_NOTE + "Oracle: chunk boundaries recorded when the stream was written.")

prop("C04", "Damaged FTDC bytes are reported, never a crash, hang or runaway allocation",
 "Whatever bytes an FTDC stream contains (flipped, overwritten, duplicated, deleted or reordered ranges, inside or outside the compressed payload), the readers terminate, do not panic, do not allocate memory out of proportion to the input and the samples it encodes, release their goroutines, and yield unaltered every chunk that precedes the first damaged byte. A chunk whose compressed payload has flipped bits is reported or read unaltered, never delivered altered. A chunk that declares another number of metrics than its reference document has is reported.",
 ["inputs", "fault_sequences", "schedules"],
 "all storage corruptions of all streams, all fragmentations and schedules",
 "No test reads damaged data; a panic in a reader goroutine ends the whole process.",
 ["x/ftdc/read.go", "x/ftdc/iterator_chunk.go", "x/ftdc/bson_metric.go", "document.go"],
 [("validation of sizes, types and counts before use", "x/ftdc/read.go readChunks")],
 BASE_NOTE + "Memory is judged against 48 MiB + 512 bytes per byte of input; generated inputs encode at most about 2000 samples in a run of zeros.")

prop("C05", "Abandoned FTDC iterations stop cleanly and leak nothing",
 "A consumer may stop iterating a reader after any number of items, at any point of the stream and on any schedule: the items seen are the exact prefix, stopping and closing do not wait for the source, Close then reports no error for an intact stream, and every goroutine the iteration started ends once the pending read of the source returns.",
 ["schedules", "histories"],
 "all stopping points of all readers on all schedules, including sources that are slow, blocked or fail after the stop",
 "Leaks and spurious errors depend on where the pipeline's goroutines are when the consumer stops.",
 ["x/ftdc/iterator_chunk.go", "x/ftdc/iterator.go", "x/ftdc/read.go"],
 [("cancellation of the reading goroutines", "x/ftdc/iterator_chunk.go ReadChunks")],
 BASE_NOTE)

prop("C06", "The buffered collector delivers every accepted sample once, in order",
 "A sample whose Add on a buffered collector returned nil reaches the underlying collector exactly once, each producer's samples in the order it added them, even when the context is cancelled at any instant; an Add that returned an error delivered nothing. Cancelling never panics or blocks a producer for ever, the background goroutine ends after cancellation, and a failure of the underlying collector is reported by Resolve. Once the context has ended, Resolve gives all accepted samples.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of producers, the background goroutine and cancellation, all buffer sizes",
 "Tests cancel at one point on one schedule; the windows between cancellation, closing the pipe and draining are a few instructions wide.",
 ["x/ftdc/collector_buffered.go"],
 [("hand-over through a channel and drain after cancellation", "x/ftdc/collector_buffered.go")],
 BASE_NOTE + "Delivery is judged once the background goroutine has ended.")

prop("C07", "Synchronized FTDC collectors are linearizable",
 "Concurrent Add, Info, Resolve, Reset and SetMetadata calls on a synchronized collector behave as if executed one at a time in an order consistent with real time: no sample is lost or duplicated, no result mixes two states, each resolved payload decodes to the samples of one instant.",
 ["schedules", "histories"],
 "all interleavings of concurrent callers over any wrapped collector",
 "Tests run a few goroutines and check totals; lost updates need preemption inside a critical section.",
 ["x/ftdc/collector_sync.go"],
 [("a mutex around every method", "x/ftdc/collector_sync.go")],
 BASE_NOTE + "Histories of at most 24 operations are checked against a sequential model.")

prop("C08", "Schema changes never misfile, drop or merge samples",
 "Dynamic and streaming dynamic collectors (compressed, uncompressed BSON and uncompressed JSON) accept samples of any sequence of schemas and read back each sample under its own field names and types, in order, keeping format and metadata across schema changes; a new chunk begins exactly when the schema changes or the chunk is full. Collectors that fix the schema refuse a sample whose metrics differ in number or type, and are otherwise undisturbed by the refusal.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of schemas (including returning to an earlier schema, fields renamed, retyped, regrouped), chunk sizes and collector kinds",
 "Tests alternate one or two obvious schemas and count chunks.",
 ["x/ftdc/collector_dynamic.go", "x/ftdc/bson_hash.go", "x/ftdc/collector_streaming.go", "x/ftdc/collector_uncompressed.go", "x/ftdc/collector_better.go"],
 [("schema fingerprint", "x/ftdc/bson_hash.go"), ("flush on change", "x/ftdc/collector_streaming.go Add")],
 BASE_NOTE)

prop("C09", "Time-gated collectors record at most once per interval and lose nothing else",
 "A sampling collector passes on a sample exactly when at least the minimum interval has elapsed since the last one passed on (the first always), and drops the others without error; an interval event collector sums all events and records the running total at most once per interval. This holds for all spacings of calls, stalls and clock rates.",
 ["histories", "schedules", "configurations"],
 "all call spacings, intervals and stalls of the caller between reading the clock and recording",
 "Tests sleep for a few milliseconds of real time and accept ranges.",
 ["x/ftdc/collector_sample.go", "x/ftdc/events/collector.go"],
 [("comparison with the time of the last collection", "x/ftdc/collector_sample.go Add")],
 BASE_NOTE + "The model brackets each clock reading between call and return times.")

prop("C10", "Event recorders persist exactly the points their contract describes",
 "For every sequence of recorder calls, the raw, single, grouped, histogram, grouped histogram and single histogram recorders hand the collector exactly the points their documentation describes (one per iteration, per test, or per elapsed interval), with counters, timers, gauges, ids and timestamps as recorded up to then. EndTest persists what is left of a test that has begun, reports every collector error since the last EndTest and then forgets it; Reset discards without persisting; gauges survive both.",
 ["histories", "fault_sequences", "schedules"],
 "all call sequences with collector failures at any point and any passage of time between calls",
 "Tests check a few fixed call sequences against a mock collector that never fails.",
 ["x/ftdc/events/recorder_performance_raw.go", "x/ftdc/events/recorder_performance_single.go", "x/ftdc/events/recorder_performance_grouped.go", "x/ftdc/events/recorder_histogram.go", "x/ftdc/events/recorder_histogram_grouped.go", "x/ftdc/events/recorder_histogram_single.go", "x/ftdc/events/performance.go", "x/ftdc/events/histogram.go"],
 [("accumulate and persist", "x/ftdc/events/recorder_*.go")],
 BASE_NOTE + "Oracle: a reference model per recorder kind.")

prop("C11", "Interval recorders conserve counts and never deadlock",
 "However concurrent recorder calls interleave with the background ticker, EndTest, Reset and cancellation of the context, the interval recorders lose and double-count nothing: the counters, timers and iterations of all points persisted up to and including an EndTest add up to what was recorded, and collector errors are reported by EndTest. No call blocks for ever, the background goroutine ends after EndTest, Reset or cancellation, and a recorder can be used again for the next test.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of caller goroutines, ticks, EndTest, Reset and cancellation",
 "The dangerous windows (a tick that fires while EndTest holds the lock) are a few instructions wide and tests never hit them.",
 ["x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram_interval.go"],
 [("a lock shared by callers and the ticker goroutine", "x/ftdc/events/recorder_performance_interval.go worker")],
 BASE_NOTE)

prop("C12", "Synchronized recorders serialise every call",
 "Calls made concurrently on a synchronized recorder reach the wrapped recorder one at a time, each exactly once with its argument, and give the result of some sequential order of the calls. The standard-library benchmark shim forwards every call to the recorder it wraps, and keeps the benchmark's timer running within iterations only.",
 ["schedules", "histories"],
 "all interleavings of concurrent callers over every wrapped recorder kind",
 "Tests call it from one goroutine.",
 ["x/ftdc/events/recorder_wrapper_sync.go"],
 [("a mutex around every forwarded call", "x/ftdc/events/recorder_wrapper_sync.go")],
 BASE_NOTE)

prop("C13", "Cumulative event collectors sum every event exactly once",
 "The basic, n-th sampling, random sampling and interval event collectors, plain or synchronized and called concurrently, fold every event into the running totals exactly once (counters and timers added; gauges, timestamp and id from the latest), persist it when their policy says so, never change or retain the caller's event, and pass on the error of the underlying collector; the passthrough collector persists each event unchanged.",
 ["histories", "schedules", "fault_sequences"],
 "all event sequences, reuse of the event by the caller, failures of the underlying collector, and concurrent callers through the synchronized wrapper",
 "Tests add a few fresh events in sequence.",
 ["x/ftdc/events/collector.go", "x/ftdc/events/performance.go"],
 [("accumulate and persist", "x/ftdc/events/collector.go AddEvent")],
 BASE_NOTE)

prop("C14", "Runtime metric collection leaves complete, consecutive FTDC files",
 "Collecting runtime metrics writes one sample per collection interval, numbered consecutively from zero, into files numbered consecutively from zero: read in order they hold every sample collected before the context ended, each exactly once, with every custom collector's document under its name and the fields of every sample in the same order, samples are at least one interval apart, and the call returns soon after cancellation. A parallel collector that panics or a file operation that fails ends the call with an error, without losing what earlier files hold; a crash of the process at any instant loses at most what was collected since the last completed flush.",
 ["schedules", "fault_sequences", "crash_points", "configurations"],
 "all intervals, rotation times, cancellation instants, parallel collector schedules and failures of file operations",
 "The tests that exist run for a few real milliseconds and only look at whether files exist.",
 ["x/ftdc/metrics/metrics.go", "x/ftdc/metrics/runtime.go"],
 [("collect and rotate loop", "x/ftdc/metrics/metrics.go CollectRuntime")],
 BASE_NOTE + "System and process probes (gopsutil) are switched off or stubbed; files live on a simulated file system.")

prop("C15", "JSON stream collection converts every document, or reports why not",
 "Collecting a JSON stream from a reader or a file ends with exactly the documents of the input, in order and each once, across the numbered output files, when it returns without error; malformed input (over-long lines included), read errors and failed writes end it with an error. In follow mode every line that is appended to the file is collected and reaches the output within about a flush interval. It returns soon after cancellation, with an exact prefix of the documents in its complete files, and leaves no goroutine behind.",
 ["schedules", "fault_sequences", "inputs", "crash_points"],
 "all inputs, fragmentations, flush times, cancellation instants, read and write failures",
 "Tests convert small intact inputs and do not look at what was lost.",
 ["x/ftdc/metrics/json.go"],
 [("source goroutine, flush timer and collector", "x/ftdc/metrics/json.go CollectJSONStream")],
 BASE_NOTE)

prop("C23", "System, process and Go runtime metrics are recorded as they were measured",
 "Every number the metrics package records about the machine, a process or the Go runtime is the one that was measured, under its own name and device; a measurement that fails is reported in the record's errors, once, and costs nothing else. All processes, or a process and its descendants, are each recorded exactly once however many goroutines look at them and whichever vanish meanwhile. A collection of metrics goes on while disks appear, disappear or cannot be measured, and its files hold each measurement it made, of each device, until it is told to stop. Counts since the last collection add up to the totals.",
 ["schedules", "fault_sequences", "histories"],
 "all measured values, failing measurements, appearing and vanishing devices and processes, and interleavings of the goroutines that measure",
 "Tests look once at the machine they run on, and check that there is something.",
 ["x/ftdc/metrics/system_info.go", "x/ftdc/metrics/process_info.go", "x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/metrics.go"],
 [("system and process records", "x/ftdc/metrics/system_info.go MakeSystemInfo; process_info.go populate, CollectAllProcesses"), ("collection loop", "x/ftdc/metrics/metrics.go CollectRuntime")],
 BASE_NOTE + "gopsutil is replaced by a stand-in that measures a scripted machine.")

prop("C16", "Wire messages survive any fragmentation, delay and pipelining",
 "Every message of every opcode, encoded as the MongoDB wire protocol describes, arrives as the same message, in order (header, flags, scope, model and serialized form; a query of a command namespace arrives as that command), however the transport fragments, delays or coalesces reads and writes; a read takes exactly one message off the stream, a failed write is reported, and a cancelled or expired context ends a blocked send or receive promptly with the context's error.",
 ["inputs", "schedules", "fault_sequences"],
 "all message sequences, fragmentations, short writes, delays and cancellation instants",
 "Tests serialise one message into one buffer read in one piece.",
 ["x/mrpc/mongowire/sock.go", "x/mrpc/mongowire/header.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go"],
 [("length-prefixed framing", "x/mrpc/mongowire/sock.go ReadMessage/SendMessage")],
 BASE_NOTE)

prop("C17", "Malformed wire input is an error, never a crash or a made-up message",
 "Whatever bytes arrive on a wire connection (truncated at any byte, damaged, oversized or negative lengths), reading a message ends with a message or an error: it does not panic, hang or allocate out of proportion to what was received, and a connection that ends or fails in the middle of a message gives an error (the transport's own, and io.EOF only between messages), not a message. What precedes the damage is read unaltered, and a message that is accepted can be inspected, and sent on as the same message.",
 ["inputs", "crash_points", "fault_sequences"],
 "all truncation points, corruptions and transport errors of all messages",
 "Tests feed a few hand-made malformed headers.",
 ["x/mrpc/mongowire/sock.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_reply.go", "x/mrpc/mongowire/wire_kill_cursors.go", "x/mrpc/mongowire/wire_update.go", "x/mrpc/mongowire/wire_query.go", "reader.go"],
 [("bounds checks before each field", "x/mrpc/mongowire/wire_*.go")],
 BASE_NOTE)

prop("C18", "A wire service answers every request, isolates clients and stops on cancel",
 "A running service hands every request on every connection to the handler registered for its scope exactly once (falling back to the handler without a context), with replies reaching the client that asked, whatever other clients do: send garbage, stall, disconnect, or make a handler panic. A client that has stopped sending still gets the responses to what it sent. Unknown operations, bad input and panics are reported to the error handlers and cost only their own connection, which is closed; a failing accept is reported and retried at a measured pace; Run reports that it cannot listen, does not return by itself, and on cancellation returns promptly, without error, and frees its listener, connections and goroutines. Handlers may be registered while the service runs; a scope that is invalid or taken is refused. The shell helpers turn errors and results into the responses, and messages into the commands and errors, that the MongoDB shell uses.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of clients, handlers, registrations, connection failures, accept failures and cancellation",
 "No test runs a service.",
 ["x/mrpc/service.go", "x/mrpc/registry.go", "x/mrpc/shell/service.go", "x/mrpc/mongowire/sock.go"],
 [("accept loop and per-connection dispatch", "x/mrpc/service.go Run, dispatchRequest"), ("operation registry", "x/mrpc/registry.go")],
 BASE_NOTE + "The network is simulated in memory behind net.Listen.")

prop("C19", "BSON documents stream losslessly through any reader and writer",
 "Documents written one after another to a stream are read back as the same documents, one per read and without touching the bytes of the next, whatever the fragmentation; a stream that ends between documents gives io.EOF, one cut inside a document's body or failing gives another error, and write errors and short writes are reported with the byte count. Concurrent readers and writers of different streams never see each other's bytes. Every value read off a stream, through the document, the reader or a lookup, is the one its bytes encode, and every value built with a constructor is written as the BSON specification says; an accessor of another type refuses. A document with a null byte in a key is refused, not written as other bytes.",
 ["inputs", "schedules", "fault_sequences", "crash_points"],
 "all documents, fragmentations, cut points, write failures and interleavings of concurrent users of the shared buffer pool",
 "Tests read from intact in-memory buffers in one goroutine; buffer reuse shows only under concurrency.",
 ["document.go", "reader.go", "global.go"],
 [("length-prefixed framing and pooled buffers", "document.go ReadFrom, WriteTo; reader.go NewFromIOReader")],
 BASE_NOTE)

prop("C20", "Damaged BSON is rejected or read, never a crash or runaway allocation",
 "Whatever bytes are read as a BSON document (stored bytes flipped, overwritten, cut or spliced at any point, delivered in any fragmentation), reading, validating and walking what was accepted ends with an error, or with a document that has every element of the bytes up to their end (none is silently left out, and what is valid when it is validated is well formed throughout): no panic, no endless loop, no stack overflow on deep nesting, no allocation out of proportion to the bytes received.",
 ["inputs", "crash_points", "fault_sequences"],
 "all corruptions and truncations of all documents",
 "Tests feed a fixed list of malformed byte strings.",
 ["document.go", "reader.go", "value.go", "element.go", "iterator.go"],
 [("length and type validation", "reader.go Validate; value.go Validate")],
 BASE_NOTE)

prop("C24", "JSON streams carry documents unchanged, and damage is an error",
 "Documents of every BSON type written as JSON are valid JSON, in extended form where JSON has no such type, and read back with the same keys, order and values (an integer may change its width), one by one off a stream however it is fragmented. A JSON text is read as the document, array or value it describes; a read or write failure, a text that is cut, and bytes that are no JSON give an error. A JSON document that is built, of values of every kind, or copied and added to, is written and converted as what it was built of; nil values in it are errors at most. Nothing that is read, malformed extended JSON and deep nesting included, causes a panic, an endless loop, a stack overflow or an allocation out of proportion.",
 ["inputs", "crash_points", "fault_sequences"],
 "all documents, all ways to write them down, all fragmentations, cuts, damages and failures of the stream",
 "Tests convert a fixed list of intact documents, without strings that need escapes, fractions, binary data or milliseconds.",
 ["x_json_marshal.go", "x_json_unmarshal.go", "jsonx/marhsal.go", "jsonx/unmarshal.go", "jsonx/internal/gjson.go"],
 [("conversion of extended JSON", "x_json_unmarshal.go convertJSONElements"), ("syntax check", "jsonx/internal/gjson.go validpayload")],
 BASE_NOTE + "Oracle: encoding/json of the standard library and a table of the extended JSON forms. Not specified, and only held to do no harm: objects that begin like extended JSON but are none, strings that are no valid UTF-8, numbers beyond float64, decimals of more than 34 digits or with an exponent beyond the range.")

prop("C25", "An edited document is what the edits make it, in every view",
 "After any history of edits - Append, AppendOmitEmpty, Set, Delete, Extend, Reset, SetValue, changes through Elements, decoding over it from bytes or a stream that may fail, and edits of nested documents, arrays and scopes through their mutable views - a document is the ordered list of elements that the edits describe, and everything that shows it agrees at once: length, iteration, lookup, Search, Map (the first element of each key), ExportMap, Sorted, readers of nested values, the encoded bytes and what is written to a stream. Elements are equal when key, type and encoding are, values when type and encoding are, however either came about. SetValue keeps the key; AppendOmitEmpty leaves out only empty values; an independent copy of an element, a map given earlier, and the bytes a document was decoded from are not changed by later edits or by encoding, also when goroutines edit documents decoded from the same bytes. A DocumentMap with an element under a key that is not its own is invalid. Linked-list documents (x/blist) follow the same rules (Set of a missing key aside).",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "all sequences of edits and reads, interleavings of goroutines that edit documents of the same source, and failures of streams between them",
 "Tests apply one edit to a fresh document and look at one view of it.",
 ["document.go", "unmarshal.go", "x_document.go", "x_element.go", "array.go", "value.go", "element.go", "x/blist/blist.go"],
 [("cached map and its invalidation", "unmarshal.go refreshCache; document.go"), ("encoding of nested values", "element.go writeByteSlice; array.go")],
 BASE_NOTE + "Oracle: an ordered list of elements, encoded by the harness. Not specified: what a failed decoding leaves (its views must agree all the same), whether undefined values are empty, Sorted among elements of one key.")

prop("C26", "Go values become the BSON they denote, and documents the Go values they hold",
 "Every Go value of a supported kind (booleans, all integers, floats, strings, times, durations, timestamps, maps, slices, elements, values, arrays, documents, readers, JSON documents, marshalers, nested in each other) converts with EC, VC and DC, and the constructors that report errors, to the element, value or document that denotes it, which can be encoded and read back. What cannot be converted (unknown types, integers beyond 64 bits signed, invalid readers, nil documents, JSON that is no BSON, marshalers that fail) becomes null, an empty document, or an error that passes on the marshaler's: it never crashes the process, and no invalid bytes are encoded. Unmarshalling a document gives unmarshalers its bytes or elements and passes on their error, and fills maps with the values it holds, keeping what it does not overwrite; object ids survive their text forms. Encoding an element into a buffer writes exactly its bytes, or reports that the buffer is too small, and touches nothing else. Custom event points and HDR histograms keep their contents through BSON, and what needs a registered marshaler or unmarshaler reports an error where there is none or it fails.",
 ["inputs", "fault_sequences", "schedules"],
 "all nestings of values, failures and broken output of marshalers at any depth, orders of maps, sizes of buffers, interleavings of conversions",
 "Tests convert one flat value of most types, with marshalers that work.",
 ["constructor.go", "x_constructor.go", "x_utils.go", "x_marshaler.go", "document.go", "unmarshal.go", "elements/elements.go", "types/objectid.go", "x/ftdc/events/custom.go", "x/ftdc/hdrhist/snapshot.go", "x/ftdc/util/driver_shim.go", "x/ftdc/iterator.go"],
 [("conversion of interfaces", "constructor.go EC.Interface, ECE.Interface"), ("construction from maps, slices and marshalers", "x_constructor.go"), ("unmarshalling", "document.go Unmarshal"), ("registered marshalers", "x/ftdc/util/driver_shim.go; x/ftdc/iterator.go ReadSeries; x/ftdc/hdrhist/snapshot.go")],
 BASE_NOTE + "Oracle: a model of what each value denotes, built together with it. Integers may have either width. Not specified: nil elements, whether arrays given as marshalers become arrays or documents (a test pins documents), keys with null bytes, whether errors of members nested deeper than one level are reported, types that are not supported today.")

prop("C21", "CSV export and import keep every row and report every failure",
 "Exporting chunks as CSV writes one header of field paths and one row per sample in order, and fails rather than mixing schemas (a schema change is a change in the number of fields); dumping to files starts a new numbered file with its own header at each schema change, so the files together hold every sample once. Converting CSV to FTDC keeps every row's integer fields and leaves out what is no integer, fails on a change in the number of fields, and every read, parse, write and close failure is reported, after the rows read before it have been converted. No file is left open.",
 ["inputs", "fault_sequences", "schedules"],
 "all chunk sequences, write failures and short writes at any byte, file-creation and close failures, fragmented and failing inputs",
 "Tests write to writers that do not fail.",
 ["x/ftdc/csv.go"],
 [("csv writer flush and error checks", "x/ftdc/csv.go")],
 BASE_NOTE)

prop("C22", "Object ids never collide, however many goroutines create them",
 "Object ids created by one process are pairwise distinct, carry the second they were created in, and are ordered by creation within a goroutine as long as the counter does not wrap, on every interleaving of concurrent creators.",
 ["schedules", "histories"],
 "all interleavings of concurrent creators and any position of the counter",
 "A test creates a few ids in one goroutine.",
 ["types/objectid.go"],
 [("atomic counter", "types/objectid.go")],
 BASE_NOTE)

PURE = "a pure, sequential function of its arguments: no schedule, clock, I/O or fault for a simulation to decide"
na("N01", "BSON values round-trip through their encoded form",
 "Every value a document can hold is read back from its encoding with the same type and contents.",
 "value space", ["value.go", "constructor.go", "x_constructor.go", "elements"], PURE + " (the stream side is decided by C19 and C20)")
na("N02", "JSON and extended JSON conversion preserve documents",
 "Converting a document to JSON and back gives an equivalent document.",
 "value space", ["jsonx", "x_json_marshal.go", "x_json_unmarshal.go"], PURE + " (documents off and onto JSON streams are decided by C24)")
na("N04", "Decimal128 parsing and formatting are inverse",
 "Every Decimal128 formats to text that parses back to the same number.",
 "value space", ["types"], PURE)
