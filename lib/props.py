PROPS = {
 "C01": dict(
    units=["context_stack.rs"], harness="otelcheck",
    bounded="attach/detach histories through Context::attach and guard drops on the real thread-local stack",
    assumptions=["the thread-local RefCell (that it is not borrowed when pop_id's result is dropped) is covered by the bounded stand-in; the proof shows that pop_id hands the detached context out"],
 ),
 "C02": dict(
    units=["baggage.rs"], harness="otelcheck",
    bounded="insert/remove/rebuild/clear histories of the real Baggage against a map model",
    assumptions=["Key hashes and compares by its text (vstd's obeys_key_model assumed for Key)",
                 "no single key, value or metadata is longer than usize::MAX/8 bytes",
                 "String building, {:02X}, str::trim and the order of HashMap iteration (each entry once) as specified in the unit; Value's text as proved in common.rs, Context's typed entries as proved in context_values.rs"],
 ),
 "C03": dict(
    units=["baggage_prop.rs"], harness="otelcheck",
    bounded="inject followed by extract, and extraction of header texts, through the real propagator",
    assumptions=["percent_encoding encodes and decodes as its documentation says (enc/dec in the unit)",
                 "str::split, split_once, trim, Vec<String>::join, Chain/Once/collect::<String> as specified in the unit; what Context::with_baggage builds from the members is proved in baggage.rs",
                 "surrounding whitespace of values is not preserved, by design (the injector trims it)"],
 ),
 "C04": dict(
    units=["context_values.rs", "context_stack.rs", "future_ext.rs"], harness="otelcheck",
    bounded="random derivation programs over a pool of contexts, including the current_* forms, baggage, and futures carrying a context",
    assumptions=["TypeId hashing (vstd's obeys_key_model assumed for TypeId)", "Any::downcast_ref returns the value stored under its own TypeId"],
 ),
 "C05": dict(
    units=["context_values.rs", "span_identity.rs", "logger.rs"], harness="otelcheck",
    bounded="programs nesting suppressed and ordinary scopes, starting spans in every way the API offers, emitting logs, crossing threads",
    assumptions=["the tracing-based appenders and internal logs are outside the proof"],
 ),
 "C06": dict(
    units=["span_identity.rs"], harness="otelcheck",
    bounded="every combination of parent kind, flags, builder ids, sampler decision and sampler trace state on the real tracer; generated ids distinct",
    assumptions=["the sampler and the id generator are arbitrary (contracts leave them unconstrained)"],
 ),
 "C07": dict(
    units=["span_limits.rs"], harness="otelcheck",
    bounded="random limits, builder contents and later additions on real spans, directly and through the context's span reference",
    assumptions=["fewer than 2^32 items are dropped per span"],
 ),
 "C08": dict(
    units=["span_lifecycle.rs"], harness="otelcheck",
    bounded="random histories of operations on one span (incl. end, drop, provider shutdown, use after end) with 0-3 processors; threads sharing one span",
    assumptions=["which description is kept when an error status is set twice is left open",
                 "Span::drop calls ensure_ended_and_exported(None): lifted as written; that Rust runs drop exactly once is the language's guarantee"],
 ),
 "C09": dict(
    units=["logger.rs", "growable_array.rs"], harness="otelcheck",
    bounded="records built by random setters and 0..40 attributes, emitted through 0-4 processors of which some modify the record",
    assumptions=["the Into conversions in front of the setters", "std's Chain yields the first iterator and then the second"],
 ),
 "C10": dict(
    units=["tracestate.rs"], harness="otelcheck",
    bounded="insert/delete histories, single keys and values at the edges of the grammar, and header texts, on the real TraceState",
    assumptions=["str::split, split_once, trim_matches, join, format! and VecDeque::retain as specified in the unit",
                 "between the two levels of the W3C grammar (e.g. a longer system id) acceptance is left open",
                 "the ToString/Into conversions in front of from_key_value, insert and delete"],
 ),
 "C11": dict(
    units=["traceparent.rs", "tracestate.rs"], harness="otelcheck",
    bounded="span contexts over all flag bytes injected and extracted, and mutated header texts, through the real propagator",
    assumptions=["from_str_radix, split_terminator, trim and format! as specified in the unit", "reading of the tracestate itself is C10's",
                 "flags other than sampled are not propagated, by design of the propagator"],
 ),
 "C13": dict(
    units=["sampler.rs"], kani=[dict(file="ratio.rs", timeout=240)], harness="otelcheck",
    bounded="ratios and ids around every threshold, parents of every kind under nested samplers, and whole local traces on a real provider",
    assumptions=["delegate samplers are arbitrary functions of what they are asked", "the Jaeger remote sampler's decision is outside this property"],
 ),
 "C12": dict(
    units=["b3.rs", "traceparent.rs"], harness="otelexport",
    bounded="span contexts over all flag bytes and encodings injected and read back, and generated/mutated B3 and Jaeger headers, on the real propagators",
    assumptions=["from_str_radix, split_terminator, to_lowercase and format! as specified in the unit", "the Jaeger baggage-prefix entries and URL decoding are executed only",
                 "TraceId and SpanId are printed with 32 and 16 digits (proved in traceparent.rs)"],
 ),
 "C16": dict(
    units=["value_map.rs", "aggregators.rs", "collections.rs", "pipeline.rs"], harness="otelcheck",
    bounded="programs of counters and up-down counters collected by one or two readers of every temporality, and threads that record while a reader collects, on the real provider",
    assumptions=["lock sections and single atomic operations are atomic steps (std); the interleaving between them is executed, not proved", "integer sums wrap around as the atomic add does; f64 addition is opaque",
                 "HashMap, Arc::as_ptr, sort_unstable_by and dedup_by as specified in value_map.rs"],
 ),
 "C17": dict(
    units=["value_map.rs", "aggregators.rs"], harness="otelcheck",
    bounded="programs with permuted, repeated and empty attribute sets under limits 0..4 and the default, and threads racing to create sets, on the real provider",
    assumptions=["HashMap, sort_unstable_by (a stable or unstable sort of distinct keys gives the same list) and dedup_by as specified in value_map.rs", "which value of a repeated key is kept is left open",
                 "interleavings of lock sections are executed, not proved"],
 ),
 "C18": dict(
    units=["aggregators.rs", "collections.rs", "value_map.rs", "pipeline.rs", "meter.rs"], harness="otelcheck",
    bounded="programs of histograms with random boundaries, arbitrary floats (subnormal, infinite, equal to a boundary) against an independent count, boundaries through builder and view, racing threads",
    assumptions=["f64 comparison is a strict total order on the values used (NaN excluded); f64 addition is opaque", "partition_point as specified in aggregators.rs", "fewer than 2^64 measurements"],
 ),
 "C19": dict(
    units=["expo.rs", "collections.rs", "value_map.rs"], kani=[dict(file="frexp.rs")], harness="otelcheck",
    bounded="lists of measurements with sizes 1..160 and scales -10..20 against buckets computed from the bits of the values; values within 1e-4 of an irrational bucket boundary left out",
    assumptions=["max_size < 2^29 and max_scale in -10..=20 (enforced by Aggregation::validate for the scale)", "fewer than 2^64 measurements",
                 "above scale 0 the bucket of a fraction is given by f64::ln: monotone, halving exact (axioms lnp_*)", "Number operations opaque"],
 ),
 "C20": dict(
    units=["meter.rs", "pipeline.rs"], harness="otelcheck",
    bounded="names and units of every critical length with valid and odd characters, boundaries in any order, for an instrument of each of the 16 kinds on the real provider",
    assumptions=["str::starts_with, str::contains and the char classes as specified in meter.rs", "f64 comparison opaque", "built without experimental_metrics_disable_name_validation"],
 ),
 "C21": dict(
    units=["pipeline.rs", "collections.rs"], harness="otelcheck",
    bounded="lists of up to three views (wildcards, kinds, scopes, renames, aggregations, attribute filters, limits) against an instrument, on the real provider with an independent matcher",
    assumptions=["wildcard matching by the glob crate", "log_conflict only logs", "HashMap as specified in pipeline.rs", "streams of equal identity (name without case, description, unit, kind, number) are one stream, the first"],
 ),
 "C28": dict(
    units=["aggregators.rs", "collections.rs", "value_map.rs", "pipeline.rs"], harness="otelcheck",
    bounded="programs of gauges and observable instruments of every number type, with readers of every temporality, on the real provider",
    assumptions=["lock sections are atomic steps", "value order and subtraction of the number type are opaque"],
 ),
 "C14": dict(
    units=["batch_span.rs", "batch_log.rs"], harness="otelcheck",
    bounded="random programs of emissions, flushes, exporter failures and shutdown on the real processors; overflow with a blocked exporter and recovery; wake-up by size and interval; threads emitting and flushing at once",
    assumptions=["std's bounded channels are FIFO, lossless and never exceed their bound; a message received was sent before (happens-before)",
                 "the worker runs the lifted loop from the initial state `new` builds (empty channel, counter 0)",
                 "fewer than isize::MAX spans or records wait at once", "the simple processors' calls are one after the other (their exporter is behind a mutex)",
                 "the processors with an async runtime (experimental features) are outside"],
 ),
 "C15": dict(
    units=["providers.rs"], harness="otelcheck",
    bounded="random programs of flush, shutdown, clone, drop, new handles and their use on the three real providers with recording processors and readers; threads racing to shut one provider down",
    assumptions=["an AtomicBool's compare_exchange succeeds for one thread", "Arc drops what it holds once, with the last handle",
                 "processors and readers do what is called on them (their own contracts are C14 and the readers' property)"],
 ),
 "C22": dict(
    units=["resource.rs"], harness="otelcheck",
    bounded="random OTEL_RESOURCE_ATTRIBUTES and OTEL_SERVICE_NAME strings with random programs of builder calls and merges, compared with the statement",
    assumptions=["a HashMap is a map, Arc::make_mut changes only this handle's value", "str::split, split_once, trim (the grammar of an entry) are std's", "percent-decoding of OTEL_RESOURCE_ATTRIBUTES is not claimed (none is done)"],
 ),
 "C27": dict(
    units=["common.rs"], harness="otelcheck",
    bounded="random keys and values in every representation and type, -0.0 and NaN among the floats, compared, hashed, shown; random scopes with permuted and changed attributes",
    assumptions=["std's str comparison and hash, derived PartialEq, Eq, Ord and Hash go by content and field by field", "IEEE equality: bits equal or both zero, neither NaN",
                 "sort_unstable_by sorts, and what it makes of a sequence depends on that sequence alone", "the From impls made by macros (bool, i64, f64, StringValue, Vec) are checked by the harness only"],
 ),
 "C32": dict(
    units=["readers.rs"], harness="otelcheck",
    bounded="random programs of recording, collecting, flushing and shutting down on the manual and the periodic reader, with exporters that fail, intervals from the builder and the environment including 0, and the count of exports in a stretch of time",
    assumptions=["Pipeline::produce does what C16-C21 and C28 say", "an mpsc channel delivers each message once and in order, recv_timeout does not return before its time without one",
                 "time does not go backwards and its arithmetic does not overflow", "the exporter answers"],
 ),
 "C23": dict(
    units=["otlp.rs"], harness="otelexport",
    bounded="random batches of spans, log records and aggregated metrics with random resources and scopes through the transform, every field of the result compared with the statement",
    assumptions=["a HashMap is a map and its iteration visits every entry once, in any order", "to_nanos of a SystemTime before the epoch is 0 (SystemTime's arithmetic is std's)", "prost's encoding of the messages is not claimed", "Any downcasts find the type the aggregation was boxed as"],
 ),
 "C29": dict(
    units=["env.rs"], harness="otelexport",
    bounded="random values, valid, invalid, empty and missing, of every variable the SDK and the Zipkin exporter read, against the settings that show in Debug output and in what samplers, limits and readers do",
    assumptions=["std's parsing of integers, floats and sampler names' case folding is std's", "the environment does not change while a builder runs", "jaeger_remote's argument parsing is not claimed"],
 ),
 "C24": dict(
    units=["otlp_config.rs"], harness="otelexport",
    bounded="random environments and builder calls; the captured HTTP request's URI, headers and timeout, the gRPC metadata seen by an interceptor and the listener a gRPC export connects to compared with the statement",
    assumptions=["std::env::var, str::parse::<u64>, trim, split_terminator and split_once do what std says", "Uri, HeaderName and HeaderValue parsing and HeaderMap/MetadataMap are the http and tonic crates'", "tonic's Endpoint keeps the timeout and TLS configuration given to it; the connection itself is tonic's", "no built-in HTTP client (reqwest, hyper) is claimed: the client is the caller's"],
 ),
 "C25": dict(
    units=["otlp_export.rs"], harness="otelexport",
    bounded="random histories of exports answered with random statuses, and shutdowns, through a recording HTTP client; every request's method, URI, headers and decoded body compared with the statement; gRPC through a refusing interceptor",
    assumptions=["prost's and serde_json's encodings are functions of the message", "the HTTP client and the tonic channel send exactly what they are handed, once per call", "a Mutex is a mutex (a poisoned one is an error)", "the group_* transforms are those of C23 (their contracts are proved there)", "a call shut down while an export is in flight is not claimed"],
 ),
 "C26": dict(
    units=["prometheus.rs"], harness="otelprom",
    bounded="random scopes, instruments (all kinds, odd names, units and attributes), resources and exporter settings, scraped from a prometheus Registry and compared with a reference conversion",
    assumptions=["a BTreeMap keyed by String is an ordered map, sort_unstable sorts and join joins", "format! prints what Display prints", "the conversions of u64 and i64 to f64 are functions of the number (rounding is not specified)", "the collector's Mutexes are mutexes; a scrape is one step", "prometheus's Registry calls collect once per gather", "HashMap<InstrumentationScope, _> is a map"],
 ),
 "C30": dict(
    units=["zipkin.rs"], harness="otelexport",
    bounded="random batches of spans exported through a recording HTTP client, the posted JSON compared field by field with the spans, with answers of every status class and failures",
    assumptions=["serde and serde_json write the fields of the model structs under their declared names, skipping the empty ones", "the HTTP client sends the request it is given",
                 "typed-builder's builders set the fields they name", "core::fmt and the id types' Display (C01)", "as_micros and duration_since are exact"],
 ),
 "C31": dict(
    units=["propagation.rs"], harness="otelexport",
    bounded="random programs of setting and reading HashMap and HTTP header carriers, composites of scripted propagators and the global propagator, and the headers every propagator injects",
    assumptions=["std's HashMap and HashSet, str::to_lowercase and trim, OnceLock and Lazy", "the http crate parses a header name case-insensitively, keeps a value as given, and insert replaces",
                 "Context::map_current hands the current context to its closure (C10)"],
 ),
 "C33": dict(
    units=["bridges.rs"], harness="otelbridge",
    bounded="random log records with random typed key-values and events of thirteen tracing shapes with random field values through the real bridges into a recording processor that may refuse a level",
    assumptions=["the log crate visits key-values in order with the method of each value's type; tracing does so for fields", "opentelemetry's LogRecord setters (C20) and AnyValue's From impls (checked by the harness)",
                 "core::fmt, str::strip_prefix, rsplit_once and integer conversions do what they say", "tracing-opentelemetry keeps the span's ids where the bridge looks"],
 ),
 "C34": dict(
    units=["span_handles.rs"], harness="otelcheck",
    bounded="random operations on a recording span directly, behind the global tracer and through the context that holds it; every builder setting and way to start a span; histories of setting the global provider",
    assumptions=["the span, tracer and provider behind the handles are any implementation of their traits", "std's Arc, Mutex, RwLock and OnceLock; a poisoned span lock makes the operations no-ops",
                 "FnOnce callbacks are described by Verus' call_requires/call_ensures"],
 ),
 "C35": dict(
    units=["api_metrics.rs"], harness="otelcheck",
    bounded="random builders, instruments of every kind and measurements on a scripted meter; the no-op meter; histories of setting the global provider, the replaced one dropped while others use the lock",
    assumptions=["the meter provider and instruments behind the handles are any implementation of their traits", "std's Arc, RwLock and OnceLock"],
 ),
 "C36": dict(
    units=["async_runtime.rs", "async_reader.rs"], harness="otelexport",
    bounded="random histories of emitting, flushing, shutting down and failing, slow or stuck exporters on the async-runtime span and log processors and periodic reader, under Tokio's two runtimes",
    assumptions=["an async fn is read as a fn and .await as its return: one task owns each worker's state", "futures' select, oneshot and stream::select and Tokio's channels, timers and spawn",
                 "the runtime's channel is first in, first out and may refuse a message when full or closed"],
 ),
 "C37": dict(
    units=["jaeger_remote.rs"], harness="otelexport",
    bounded="random endpoints, services, bucket sizes and sequences of replies (every kind of strategy, none, malformed, bad statuses, no answer) with questions between them, and rate limiters asked for a while",
    assumptions=["floats are read as real numbers, the clock as seconds", "the ratio's decision is the one of C13", "serde_json, url and http parse as they document; the interval stream of C36",
                 "while the system clock is behind its last reading every trace is sampled (as the code's own test demands)"],
 ),
 "C38": dict(
    units=["http_clients.rs"], harness="otelexport",
    bounded="random requests by each client to a server on the loopback answering with random statuses, headers and bodies, slowly, cut short or not at all; and every status",
    assumptions=["hyper, hyper-util, reqwest and tokio's timeout as documented: what they send, read and abandon", "async fns are read as fns; a time limit is a mark after the events it covers", "Body's polling forwards to http_body_util's Full"],
 ),
 "C39": dict(
    units=["otlp_json.rs"], harness="otelexport",
    bounded="random values, spans, records, metrics and requests written, compared with the form OTLP gives and read back; texts with keys unknown, repeated or mistyped; writers that fail",
    assumptions=["serde and its derives, serde_json, hex and base64 as documented: what they write they read", "nested arrays and maps by induction on their nesting", "serde_json's default parser may read a double off by one unit in the last place; the harness's doubles are ones it reads exactly"],
 ),
 "C40": dict(
    units=["in_memory.rs"], harness="otelexport",
    bounded="random histories of export, read, reset, shutdown, flush and set_resource over three clones of each exporter; four threads exporting at once",
    assumptions=["cloning a record, a data point or a resource yields an equal one (derived)", "Mutex and Arc as documented; no caller panics while it holds the lock", "the order of LogBatch's iterator (C23)"],
 ),
 "C41": dict(
    units=["stdout.rs"], harness="otelexport",
    bounded="random histories of exports, resources, flushes and shutdowns of the three exporters in a child process, its output compared line by line with one written independently; the first exports of eight threads at once",
    assumptions=["println! prints its format with what stands in its places, and standard output can be written", "the text of single values (Debug and Display of keys, values, ids) as documented", "chrono's conversion of times", "the order of LogBatch's iterator (C23)"],
 ),
}
NOT_APPLICABLE = {}
