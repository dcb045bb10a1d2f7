"""Texts of the properties (single source of properties.jsonl and MANIFEST.json; see mkdocs.py)."""
CAT = {}


def P(id, title, statement, over, text, why, files, mech, observe=None):
    CAT[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None))


P("C01", "The current context is the last one attached and still live, in any drop order",
  "On every thread the current context is the most recently attached context whose guard has not been dropped, or an empty context if there is none, no matter in which order guards are dropped. Attaching, dropping or exceeding the stack's capacity on one thread never changes what another thread sees. What a detached context held is dropped as soon as nothing else holds it, and code that this runs (a span ending, a value's Drop) can itself use the current context.",
  ["histories", "schedules"], "every finite sequence of attach and guard drop operations, in every order, at every stack depth up to and past the position limit, on every thread",
  "Tests drop a handful of guards in two or three fixed orders; the stack's slot reuse and popping depends on the whole history.",
  ["opentelemetry/src/context.rs"],
  [("ContextStack::push / pop_id / map_current_cx with its position-numbered slots", "opentelemetry/src/context.rs"), ("ContextGuard::drop, Context::attach", "opentelemetry/src/context.rs")],
  ["Context::current()"])
P("C02", "Baggage behaves as a bounded map: last write wins, removals release space",
  "A baggage returns for every name the value and metadata last successfully inserted and not removed since, and nothing else. An insertion is refused only if the name, value or metadata is invalid or the result would exceed the entry-count or total-length limits, and a refused insertion or a failed lookup changes nothing; clearing yields an empty baggage. Printing a baggage lists every entry with its value percent-encoded.",
  ["histories", "inputs"], "every sequence of insert, insert with metadata, remove, clear, rebuild from an iterator and context set/clear, with every key and value text",
  "Tests exercise single inserts and one limit each; accounting errors only show after particular histories of overwrites and removals.",
  ["opentelemetry/src/baggage.rs"],
  [("Baggage::insert_with_metadata, insertable, remove, kv_content_len tracking", "opentelemetry/src/baggage.rs"), ("BaggageExt::with_baggage / with_cleared_baggage", "opentelemetry/src/baggage.rs")],
  ["Baggage::get, get_with_metadata, iter, len"])
P("C03", "Baggage survives injection into a header and extraction from it",
  "Extracting the header that injecting a baggage produced yields exactly the same names, values (up to surrounding white space) and metadata. Extracting any header text yields the well-formed members it contains and never fails.",
  ["inputs"], "every baggage content (all Unicode values, reserved characters, percent signs, equals signs) and every header text",
  "Round-trip tests use a few fixed strings; the encoding set must be right for every character and every combination of delimiters.",
  ["opentelemetry-sdk/src/propagation/baggage.rs", "opentelemetry/src/baggage.rs"],
  [("BaggagePropagator::inject_context / extract_with_context, FRAGMENT ascii set", "opentelemetry-sdk/src/propagation/baggage.rs")],
  ["the injected header, Baggage of the extracted context"])
P("C04", "Deriving a context changes exactly the one thing asked for and never its source",
  "A context derived from another one (by value, span, remote span context, baggage or suppression, from a given or from the current context) holds exactly what the source held except for the one replaced part. The source and all other contexts stay unchanged, and a future or stream carrying a context runs every poll under it and restores the previous one afterwards.",
  ["histories", "programs"], "every derivation program over any number of contexts, value types and nesting with attached contexts and polled futures",
  "Tests derive one or two contexts and look at one value; a derivation that drops another part shows only in combinations.",
  ["opentelemetry/src/context.rs", "opentelemetry/src/context/future_ext.rs", "opentelemetry/src/trace/context.rs"],
  [("Context::with_value, with_synchronized_span, with_telemetry_suppressed, current_with_*", "opentelemetry/src/context.rs"), ("WithContext::poll", "opentelemetry/src/context/future_ext.rs")],
  ["Context::get, span, is_telemetry_suppressed, baggage"])
P("C05", "Nothing is recorded while telemetry is suppressed, and only then",
  "While the relevant context is suppressed, starting a span by any means yields an invalid, non-recording span that reaches no sampler output and no processor, and an emitted log record reaches no processor and no event is reported enabled. Suppression is inherited by derived contexts and ends exactly with the scope that entered it; outside it telemetry is produced normally.",
  ["histories", "schedules", "programs"], "every nesting of suppressed and ordinary scopes, on any thread, and every way to start a span or emit a log",
  "Tests enter one suppressed scope and look at one signal; inheritance through derived contexts and threads is untested in combination.",
  ["opentelemetry/src/context.rs", "opentelemetry-sdk/src/trace/tracer.rs", "opentelemetry-sdk/src/logs/logger.rs"],
  [("Context::with_telemetry_suppressed, enter_telemetry_suppressed_scope", "opentelemetry/src/context.rs"), ("SdkTracer::build_with_context", "opentelemetry-sdk/src/trace/tracer.rs"), ("SdkLogger::emit, event_enabled", "opentelemetry-sdk/src/logs/logger.rs")],
  ["SpanProcessor::on_end", "LogProcessor::emit"])
P("C06", "A new span joins its parent's trace, or starts one, with the decided sampling",
  "A span started under a valid parent has the parent's trace id and records the parent's span id; otherwise it is a root with a valid requested or newly generated trace id. Its span id is the requested or a newly generated one; it is sampled exactly if decided so, other flag bits and the trace state come from the parent and the decision, it records exactly unless dropped, and it is never marked remote.",
  ["inputs", "configurations"], "every parent context (none, local, remote, invalid), builder, sampler decision, flag byte and trace state",
  "Tests check a few combinations of parent and sampler; the identity must hold for the whole product.",
  ["opentelemetry-sdk/src/trace/tracer.rs", "opentelemetry/src/trace_context.rs", "opentelemetry/src/trace/span_context.rs"],
  [("SdkTracer::build_with_context", "opentelemetry-sdk/src/trace/tracer.rs"), ("TraceFlags::with_sampled / is_sampled", "opentelemetry/src/trace_context.rs")],
  ["Span::span_context, exported SpanData"])
P("C07", "Span limits keep the first items and count exactly what was dropped",
  "A span keeps the first attributes, events and links up to each configured limit, and each event and link keeps its first attributes up to its limit, whether they came from the builder, the sampler or later calls. The dropped counts on the exported span, its events and its links equal the number of items left out.",
  ["inputs", "histories", "configurations"], "every combination of limits (including zero), starting contents and later additions",
  "Tests exceed one limit at a time by one item; the counts depend on where items come from and on all limits together.",
  ["opentelemetry-sdk/src/trace/tracer.rs", "opentelemetry-sdk/src/trace/span.rs"],
  [("SdkTracer::build_recording_span truncation", "opentelemetry-sdk/src/trace/tracer.rs"), ("Span::add_event_with_timestamp, set_attribute, add_link", "opentelemetry-sdk/src/trace/span.rs")],
  ["exported SpanData"])
P("C08", "A span is delivered once to every processor, at its end, with its final state",
  "A recording span is handed exactly once to every processor, in registration order, when it is first ended or dropped, carrying everything recorded before that and nothing recorded later; it is not delivered if the provider was shut down first. Its status only ever rises from unset over error to ok, and its end time is the given one or the time it ended.",
  ["histories", "schedules"], "every sequence of recording operations, status changes, ends, drops and provider shutdown, directly or through a shared context, with any number of processors",
  "Tests end a span once and inspect it; repeated ends, uses after the end, drop after end and shutdown interplay form an unbounded set of histories.",
  ["opentelemetry-sdk/src/trace/span.rs", "opentelemetry/src/trace/span.rs", "opentelemetry/src/trace/context.rs"],
  [("Span::ensure_ended_and_exported (data.take()), Drop for Span, set_status ordering", "opentelemetry-sdk/src/trace/span.rs")],
  ["SpanProcessor::on_start, on_end"])
P("C09", "A log record reaches every processor in order, as set, stamped when missing",
  "Emitting a record hands it once to every processor in registration order, each seeing what was set on the record (all attributes in order, including duplicates) plus what earlier processors changed. A missing trace context is filled from the active span and a missing observed time is stamped; what the caller set is never overwritten, and an event is enabled exactly if some processor wants it.",
  ["inputs", "histories"], "every sequence of setters, every number of attributes on both sides of the inline capacity, every context and any number of processors",
  "Tests use records with few attributes and one or two processors; the attribute container switches representation as it grows.",
  ["opentelemetry-sdk/src/logs/logger.rs", "opentelemetry-sdk/src/logs/record.rs", "opentelemetry-sdk/src/growable_array.rs"],
  [("SdkLogger::emit", "opentelemetry-sdk/src/logs/logger.rs"), ("GrowableArray::push / get / iter", "opentelemetry-sdk/src/growable_array.rs"), ("SdkLogRecord setters", "opentelemetry-sdk/src/logs/record.rs")],
  ["LogProcessor::emit"])
P("C10", "A trace state is an ordered map that survives its header form",
  "Inserting into a trace state puts the entry first and replaces any entry of that key, deleting removes the key entirely, all other entries keep their order, and the source never changes. Keys and values the W3C grammar forbids are refused and valid ones accepted, and reading the header written for a state yields the same entries in the same order; a header is read with optional white space and empty members.",
  ["histories", "inputs"], "every sequence of inserts and deletes with every key and value text, and every header text",
  "Tests use a few keys; the grammar ranges over all byte strings up to its length limits, and list behaviour over all histories.",
  ["opentelemetry/src/trace/span_context.rs"],
  [("TraceState::insert / delete / valid_key / valid_value / from_str / header_delimited", "opentelemetry/src/trace/span_context.rs")],
  ["TraceState::get, header"])
P("C11", "A span context survives the traceparent and tracestate headers unchanged",
  "Injecting a valid span context and extracting the headers again gives the same trace id, span id, sampled flag and trace state, marked remote; an invalid one injects nothing. Extraction accepts exactly well-formed headers (full-length lowercase hex fields, ids not all zero, a version the format allows); anything else leaves the context as it was, and an unreadable tracestate loses only the tracestate.",
  ["inputs"], "every span context (ids, flag byte, trace state) and every pair of header texts",
  "Tests list some valid and invalid headers; short fields, signs, odd flags and unusual ids lie outside them.",
  ["opentelemetry-sdk/src/propagation/trace_context.rs", "opentelemetry/src/trace_context.rs"],
  [("TraceContextPropagator::inject_context / extract_span_context", "opentelemetry-sdk/src/propagation/trace_context.rs"), ("TraceId / SpanId from_hex and Display", "opentelemetry/src/trace_context.rs")],
  ["injected headers, Context::span().span_context()"])
P("C13", "Samplers decide as configured, and the same way for a whole trace",
  "The ratio sampler's decision depends only on the trace id and the ratio: it samples exactly the ids whose random part lies below that fraction of its range, so a higher ratio samples every trace a lower one does, 1 samples all and 0 none. The parent-based sampler follows the parent span's sampled flag if there is a parent and otherwise asks its delegate the same question; no sampler changes the trace state or adds attributes.",
  ["inputs", "configurations"], "every ratio (all doubles), every trace id, every parent and every nesting of samplers",
  "The existing statistical test checks sampling rates within a tolerance; single ids, tiny ratios and monotonicity are beyond it.",
  ["opentelemetry-sdk/src/trace/sampler.rs"],
  [("sample_based_on_probability", "opentelemetry-sdk/src/trace/sampler.rs"), ("ShouldSample for Sampler::should_sample", "opentelemetry-sdk/src/trace/sampler.rs")],
  ["SamplingResult"])
P("C12", "B3 and Jaeger headers keep the identity and the sampling decision",
  "Injecting a valid span context with the B3 propagator sets exactly the headers of the configured encoding (single, multiple, both; unspecified means multiple) with its ids and its debug, sampled, not sampled or deferred decision; the Jaeger propagator sets its one header with ids and flags; invalid contexts inject no identity. Extracting accepts exactly well-formed headers (B3: lower case hex ids of full length, known decision, single header before multiple), gives a remote span context with those ids and that decision, and otherwise leaves the context unchanged; what was injected reads back the same, and every injected header is listed by fields().",
  ["inputs", "configurations"], "every span context, every encoding, every header text",
  "Existing tests use two ids and a dozen headers; combinations of flags, encodings and malformed ids are untested.",
  ["opentelemetry-zipkin/src/propagator/mod.rs", "opentelemetry-jaeger-propagator/src/propagator.rs"],
  [("B3 extract_single_header, extract_multi_header, extract_sampled_state, inject_context, B3Encoding::support", "opentelemetry-zipkin/src/propagator/mod.rs"), ("Jaeger extract_span_context, extract_span_id, extract_trace_flags, inject_context", "opentelemetry-jaeger-propagator/src/propagator.rs")],
  ["injected headers, Context::span().span_context(), fields()"])
P("C16", "Sums account for every measurement exactly once",
  "For every synchronous counter and up-down counter and every set of attributes, what a cumulative reader reports is the sum of all measurements recorded since the start, and what a delta reader reports is the sum of exactly those recorded since its previous collection: no measurement is lost, counted twice or credited to another set, also when threads record during the collection, and each reader of a provider has its own accounts. Delta intervals do not overlap and a cumulative stream keeps its start time; the reported temporality is the one of the reader's preference for that kind of instrument.",
  ["inputs", "histories", "schedules"], "every history of recordings and collections, every attribute set, every reader preference, every interleaving of recording threads with a collection",
  "Existing tests record a handful of sets in one order with one reader; nothing checks interleaved collections or several readers.",
  ["opentelemetry-sdk/src/metrics/internal/sum.rs", "opentelemetry-sdk/src/metrics/internal/mod.rs", "opentelemetry-sdk/src/metrics/internal/aggregate.rs", "opentelemetry-sdk/src/metrics/pipeline.rs"],
  [("Sum::delta, Sum::cumulative, Sum::call, Increment", "opentelemetry-sdk/src/metrics/internal/sum.rs"), ("ValueMap::measure, collect_readonly, collect_and_reset; atomic trackers", "opentelemetry-sdk/src/metrics/internal/mod.rs"), ("AggregateTimeInitiator, AttributeSetFilter", "opentelemetry-sdk/src/metrics/internal/aggregate.rs"), ("Pipeline::produce", "opentelemetry-sdk/src/metrics/pipeline.rs")],
  ["the Sum data points, start and end times a reader collects"])
P("C17", "Attribute sets: order is irrelevant, the cardinality limit holds",
  "Two lists of attributes that are the same set feed one data point, whatever their order; data points of one stream have different sets, and no reported set repeats a key. At most the stream's cardinality limit of non-empty sets is reported per interval, first come first served; every measurement beyond it goes to the single point otel.metric.overflow=true, and none is lost. The empty set is always kept apart and does not count. A delta collection makes all the room available again.",
  ["inputs", "histories", "schedules"], "every list of attributes in every order, every limit, every history, racing first uses of a set",
  "Existing tests use three keys and the default limit; duplicates, small limits and races are untested.",
  ["opentelemetry-sdk/src/metrics/internal/mod.rs"],
  [("ValueMap::measure, is_under_cardinality_limit, sort_and_dedup, stream_overflow_attributes, collect_readonly, collect_and_reset", "opentelemetry-sdk/src/metrics/internal/mod.rs")],
  ["attributes and values of the data points a reader collects"])
P("C18", "Explicit bucket histograms count every value in its bucket",
  "For boundaries b1<..<bn every recorded value v is counted in exactly one of the n+1 buckets, the one with b(i-1) < v <= b(i); the count of a data point is the sum of its bucket counts, its sum, minimum and maximum are those of the recorded values, or absent when not asked for. Boundaries come from the view, else the instrument, else the default list; an instrument whose boundaries are not finite and strictly increasing records nothing. Delta and cumulative collections account for values as for sums.",
  ["inputs", "configurations", "histories"], "every list of boundaries, every value (including those equal to a boundary), every history of collections",
  "Existing tests use a few values between fixed boundaries.",
  ["opentelemetry-sdk/src/metrics/internal/histogram.rs", "opentelemetry-sdk/src/metrics/meter.rs", "opentelemetry-sdk/src/metrics/pipeline.rs"],
  [("Buckets, Histogram::new, call, delta, cumulative", "opentelemetry-sdk/src/metrics/internal/histogram.rs"), ("validate_bucket_boundaries", "opentelemetry-sdk/src/metrics/meter.rs"), ("default_aggregation_selector, aggregate_fn", "opentelemetry-sdk/src/metrics/pipeline.rs")],
  ["the Histogram data points a reader collects"])
P("C19", "Exponential histograms count every value in its bucket at every scale",
  "A finite value v is counted in the bucket with base^i < |v| <= base^(i+1), base = 2^(2^-scale), of its side, or as zero; when a value does not fit into max_size buckets the scale is lowered, never raised, by the least amount that makes all values fit and all earlier counts move to the bucket that contains theirs; at most max_size buckets are reported per side. Count, sum, minimum and maximum are those of the recorded values; NaN, infinities and values that even the coarsest scale cannot hold are not recorded at all.",
  ["inputs", "histories", "configurations"], "every finite double, every order of measurements, every max_size and max_scale",
  "Existing tests compare a dozen lists of values; rescaling from arbitrary states and extreme values is untested.",
  ["opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs"],
  [("ExpoHistogramDataPoint::record, scale_change, get_bin, ExpoBuckets::record, downscale, frexp, ExpoHistogram", "opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs")],
  ["scale, buckets, count, sum, min and max of the data points a reader collects"])
P("C20", "An instrument is either valid and complete or records nothing",
  "An instrument works exactly when its name is 1 to 255 bytes, starts with a letter and has only ASCII letters, digits, '_', '.', '-' and '/', its unit is at most 63 ASCII characters, and its boundaries, if any, are finite and strictly increasing. A valid instrument feeds the streams its name, kind, description, unit, boundaries and limit resolve to, and each callback of an observable one is registered once with every reader; an invalid one (or one whose view is refused) is harmless: recording does nothing, no callback ever runs, nothing is reported.",
  ["inputs", "configurations"], "every name, unit, description, boundary list, limit and callback list, every kind of instrument",
  "Existing tests list two dozen names and units and do not check what refused instruments do.",
  ["opentelemetry-sdk/src/metrics/meter.rs", "opentelemetry/src/metrics/instruments/mod.rs"],
  [("validate_instrument_name, validate_instrument_unit, validate_bucket_boundaries, create_*, InstrumentResolver", "opentelemetry-sdk/src/metrics/meter.rs"), ("InstrumentBuilder, HistogramBuilder, AsyncInstrumentBuilder", "opentelemetry/src/metrics/instruments/mod.rs")],
  ["streams and callback invocations of a collection"])
P("C21", "Views select, rename, filter and aggregate exactly as configured",
  "An instrument feeds one stream per view that matches it (all criteria given: name with * and ?, kind, unit, description, scope), with the name, description, unit, attribute keys, aggregation and cardinality limit the view sets and the instrument's own for everything it leaves out; views of the same identity give one stream; without a match there is exactly the instrument's own stream. A drop view gives none, filtered attributes are merged, an aggregation that cannot apply to the kind is refused, and an instrument made again (names differ only in case) feeds the same stream. No view criterion is accepted that renames several instruments to one name through a wildcard.",
  ["inputs", "configurations"], "every list of views, every instrument of every kind",
  "Existing tests check single views with one criterion.",
  ["opentelemetry-sdk/src/metrics/pipeline.rs", "opentelemetry-sdk/src/metrics/view.rs", "opentelemetry-sdk/src/metrics/instrument.rs", "opentelemetry-sdk/src/metrics/aggregation.rs"],
  [("Inserter::instrument, cached_aggregator, inst_id, aggregate_fn, is_aggregator_compatible, default_aggregation_selector, Resolver::measures", "opentelemetry-sdk/src/metrics/pipeline.rs"), ("new_view", "opentelemetry-sdk/src/metrics/view.rs"), ("Instrument::matches*, InstrumentId::normalize", "opentelemetry-sdk/src/metrics/instrument.rs")],
  ["streams (name, unit, aggregation, points) a reader collects"])
P("C28", "Gauges and observable instruments report the latest value",
  "A gauge reports, per attribute set, the value recorded last (delta: since the previous collection, sets without a new value are left out). Observable instruments run their callbacks once per collection and report what was observed: a cumulative sum reports the observed total, a delta sum the difference to the total of the same set (in whatever attribute order) at the previous collection, or the total itself when the set is new or a monotonic total went down; a set observed several times counts with its last value, and an observable gauge reports only sets observed for this collection.",
  ["inputs", "histories"], "every history of observations and collections, every attribute order, every temporality preference",
  "Existing tests use one set per instrument and fixed increments.",
  ["opentelemetry-sdk/src/metrics/internal/last_value.rs", "opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs", "opentelemetry-sdk/src/metrics/pipeline.rs"],
  [("LastValue::delta, cumulative, Assign", "opentelemetry-sdk/src/metrics/internal/last_value.rs"), ("PrecomputedSum::delta, cumulative", "opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs"), ("Pipeline::produce, aggregate_fn", "opentelemetry-sdk/src/metrics/pipeline.rs")],
  ["data points a reader collects after callbacks observed known values"])
P("C14", "Batch processors export each accepted item once, in order, and all on flush",
  "A batch processor exports what it was handed exactly once, in the order handed in, in non-empty batches of at most the maximum export batch size; only when its queue is full does it drop an item, which it counts, and dropping leaves later batching unchanged. It exports when a full batch waits, at the latest every scheduled delay, on flush and on shutdown; a successful flush or shutdown means that everything handed in before it has been exported, and shutdown then shuts the exporter down, once, after which nothing is exported and further calls report that. The simple processors export each sampled span or record at once, alone.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of any number of emitting, flushing and shutting down threads with the worker, every queue and batch size, every pattern of exporter failures",
  "Tests emit one or two items and flush; lost or stuck items need more than one batch per flush, a full queue, or an emission interleaved with the worker's count.",
  ["opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/logs/simple_log_processor.rs"],
  [("BatchSpanProcessor::on_end, get_spans_and_export, worker loop, force_flush, shutdown", "opentelemetry-sdk/src/trace/span_processor.rs"), ("BatchLogProcessor::emit, get_logs_and_export, worker loop, force_flush, shutdown", "opentelemetry-sdk/src/logs/batch_log_processor.rs"), ("SimpleLogProcessor, SimpleSpanProcessor", "opentelemetry-sdk/src/logs/simple_log_processor.rs")],
  ["SpanExporter::export / LogExporter::export and shutdown of the configured exporter"])
P("C15", "Providers reach every processor and reader once on flush and shutdown",
  "A tracer, logger or meter provider keeps every processor or reader, view and limit it is built with and tells each the merged resource. A flush reaches every one of them, in order, and succeeds if all do. Only the first shutdown, whichever thread or handle it comes from, shuts every one of them down, once, in order, whatever the others answer, and reports whether all succeeded; any later one is refused without a further call. Dropping the last handle without shutdown shuts down; otherwise drop calls nothing. Tracers, loggers and meters obtained after shutdown do nothing. Equal scopes share one meter.",
  ["histories", "schedules", "configurations"], "any number of processors and readers, any answers of theirs, any sequence of flushes, shutdowns, clones and drops, any number of threads racing",
  "Tests use one or two processors and one thread; a processor skipped after an error, a second shutdown on a race, or a limit lost in the builder passes them.",
  ["opentelemetry-sdk/src/trace/provider.rs", "opentelemetry-sdk/src/logs/logger_provider.rs", "opentelemetry-sdk/src/metrics/meter_provider.rs", "opentelemetry-sdk/src/metrics/pipeline.rs"],
  [("SdkTracerProvider, TracerProviderInner, TracerProviderBuilder", "opentelemetry-sdk/src/trace/provider.rs"), ("SdkLoggerProvider, LoggerProviderInner, LoggerProviderBuilder", "opentelemetry-sdk/src/logs/logger_provider.rs"), ("SdkMeterProvider, SdkMeterProviderInner, MeterProviderBuilder", "opentelemetry-sdk/src/metrics/meter_provider.rs"), ("Pipelines::{new, force_flush, shutdown}", "opentelemetry-sdk/src/metrics/pipeline.rs")],
  ["SdkTracerProvider, SdkLoggerProvider, SdkMeterProvider: force_flush, shutdown, drop, tracer / logger / meter"])
P("C22", "Resource merging and detection lose nothing and follow the precedence",
  "Merging two resources keeps every attribute of both, the argument's value where both have a key; its schema URL is the one either has, the common one, or none if they differ. Building a resource applies with_attribute(s), with_service_name and with_detector(s) in the order called, the later one winning. Detectors apply in order, schema URLs by the same rule. The default builder has service.name from OTEL_SERVICE_NAME if set and not empty, else from OTEL_RESOURCE_ATTRIBUTES, else unknown_service; every well-formed key=value entry of OTEL_RESOURCE_ATTRIBUTES, trimmed, the last of a key winning; and the telemetry.sdk attributes. No clone of a resource is changed by building on another.",
  ["inputs", "configurations"], "any resources, any order and number of detectors and builder calls, any value of the two variables",
  "Tests merge two small resources and set one variable; which value wins among environment, detectors and code, and what happens to the schema URL, depends on combinations they do not try.",
  ["opentelemetry-sdk/src/resource/mod.rs", "opentelemetry-sdk/src/resource/env.rs", "opentelemetry-sdk/src/resource/telemetry.rs"],
  [("Resource, ResourceBuilder", "opentelemetry-sdk/src/resource/mod.rs"), ("EnvResourceDetector, SdkProvidedResourceDetector", "opentelemetry-sdk/src/resource/env.rs"), ("TelemetryResourceDetector", "opentelemetry-sdk/src/resource/telemetry.rs")],
  ["Resource::{builder, builder_empty, merge, get, schema_url}", "ResourceBuilder"])
P("C27", "Keys, values and scopes compare by content and hash alike when equal",
  "A key or string is the text it was made of, whichever way it is held: equality, order, hash, display and conversion go by that text alone. Key-values are equal exactly if key, type and value are (floats as numbers, so a NaN equals nothing), and equal key-values give any hasher the same input. Scopes are equal exactly if name, version, schema URL and attributes are, in whatever order attributes of distinct keys were given, and equal scopes hash alike. A scope holds what its builder was given. The text form of a value is the same from as_str, Display and conversion to a string: arrays in brackets with commas, their strings in quotes.",
  ["inputs"], "any text in any representation, any value, any attributes in any order",
  "Tests compare equal literals; hashing breaks only where equality is coarser than identity: -0.0, permuted attributes, another representation.",
  ["opentelemetry/src/common.rs"],
  [("Key, OtelString, StringValue", "opentelemetry/src/common.rs"), ("Value, Array, KeyValue, F64Hashable", "opentelemetry/src/common.rs"), ("InstrumentationScope, InstrumentationScopeBuilder", "opentelemetry/src/common.rs")],
  ["PartialEq, Ord, Hash, Display, From of Key, StringValue, Value, KeyValue and InstrumentationScope"])
P("C32", "Readers export each collection once, on time, and nothing after shutdown",
  "A manual reader gives what its pipeline produces, and refuses when it has none or was shut down. A periodic reader makes exactly one collection for each interval that ends, each flush and the shutdown, exports exactly that collection once (an empty one not at all), with telemetry suppressed meanwhile, and reports success only if collection and export succeeded. It never waits longer than the interval for the next one, and an interval of zero, from the environment or the builder, is ignored. Shutdown exports a last collection, shuts the exporter down once, and nothing is exported afterwards; later calls are refused. A reader keeps the temporality it was configured with.",
  ["histories", "schedules", "configurations"], "any sequence and timing of flushes and shutdown, any interval, any answers of pipeline and exporter",
  "Tests wait for a few intervals and flush once; a flush that resets the clock, an export after shutdown or an interval of 0 is in none of them.",
  ["opentelemetry-sdk/src/metrics/manual_reader.rs", "opentelemetry-sdk/src/metrics/periodic_reader.rs"],
  [("ManualReader, ManualReaderBuilder", "opentelemetry-sdk/src/metrics/manual_reader.rs"), ("PeriodicReader, PeriodicReaderInner, PeriodicReaderBuilder", "opentelemetry-sdk/src/metrics/periodic_reader.rs")],
  ["ManualReader::{collect, shutdown}", "PeriodicReader::{collect, force_flush, shutdown} and its worker thread"])
P("C23", "The OTLP transform keeps every field of every record, grouped by scope",
  "group_spans_by_resource_and_scope, group_logs_by_resource_and_scope and the metrics request conversion put every record of a batch in exactly one group, in order within it; two records share a group exactly if their instrumentation scopes are equal (for logs also their targets). Each group's scope, version, attributes and schema URL are the scope's, its resource and resource schema URL the resource's. Each record keeps its ids, parent, flags, trace state, names, kinds, times in nanoseconds, attributes, events, links, status, severity, body, dropped counts, and for metrics each data point's attributes, times, values, counts, sum, min, max, bounds, buckets, exemplars, monotonicity and temporality. A missing time is 0; an unsigned value above i64::MAX is i64::MAX. A span given to the tracez messages (latency, error, running) keeps its ids, times, attributes, events, links and error status there, as far as they have a place for it. No input makes the conversion panic.",
  ["inputs"], "any batch of spans, log records or metrics, any resource, any scopes, any attribute values",
  "Tests convert a few hand-written records with one or two scopes; a field dropped, swapped or taken from the wrong record shows only for particular combinations of scopes, targets and optional fields.",
  ["opentelemetry-proto/src/transform/trace.rs", "opentelemetry-proto/src/transform/logs.rs", "opentelemetry-proto/src/transform/metrics.rs", "opentelemetry-proto/src/transform/common.rs", "opentelemetry-proto/src/transform/tracez.rs"],
  [("trace transform", "opentelemetry-proto/src/transform/trace.rs"), ("logs transform", "opentelemetry-proto/src/transform/logs.rs"), ("metrics transform", "opentelemetry-proto/src/transform/metrics.rs"), ("common", "opentelemetry-proto/src/transform/common.rs"), ("LogBatch", "opentelemetry-sdk/src/logs/export.rs")],
  ["group_spans_by_resource_and_scope", "group_logs_by_resource_and_scope", "ExportMetricsServiceRequest::from(&ResourceMetrics)"])
P("C29", "Settings come from the builder, then the environment, then the default",
  "Queue size, batch size, delay, timeout and concurrency of the span and log batch processors, the tracer provider's sampler and limits, the periodic readers' interval and timeout and the Zipkin exporter's endpoint and timeout: each is what the builder was last given; where it was given nothing, the value of its environment variable, if that is set and valid; otherwise the documented default. No variable influences another setting, except that the batch size never exceeds the queue size. An invalid value counts as unset and never fails the construction. Sampler names map to the sampler they name, with the ratio argument where there is one; an unknown name to the default.",
  ["configurations"], "any value of every variable, any sequence of builder calls",
  "Tests set a few variables to valid values one at a time; combinations, invalid and extreme values are not covered, and a variable read for the wrong setting shows only when both differ from their defaults.",
  ["opentelemetry-sdk/src/trace/config.rs", "opentelemetry-sdk/src/trace/span_processor.rs", "opentelemetry-sdk/src/logs/batch_log_processor.rs", "opentelemetry-sdk/src/metrics/periodic_reader.rs"],
  [("trace Config::default, SpanLimits", "opentelemetry-sdk/src/trace/config.rs"), ("span BatchConfigBuilder", "opentelemetry-sdk/src/trace/span_processor.rs"), ("log BatchConfigBuilder", "opentelemetry-sdk/src/logs/batch_log_processor.rs"), ("PeriodicReaderBuilder", "opentelemetry-sdk/src/metrics/periodic_reader.rs"), ("async PeriodicReaderBuilder", "opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs"), ("Zipkin env", "opentelemetry-zipkin/src/exporter/env.rs")],
  ["BatchConfigBuilder (traces, logs)", "trace::Config::default, TracerProviderBuilder", "PeriodicReaderBuilder", "zipkin::exporter::env"])
P("C24", "OTLP exporters take each setting from the builder, then the environment",
  "An OTLP exporter's endpoint, timeout and compression come from the builder if given there, else from the signal's environment variable (OTEL_EXPORTER_OTLP_TRACES_*, LOGS_*, METRICS_*), else from the general one (OTEL_EXPORTER_OTLP_*), else the default (http://localhost:4318 with the signal's path, or http://localhost:4317; 10 s; none); a variable whose value is empty counts as not set; for endpoint and timeout a value that does not parse counts as not given (over gRPC the endpoint text is used as it is). Over HTTP the general endpoint gets the signal's path (/v1/traces, /v1/logs, /v1/metrics) appended with exactly one slash between, the signal's own endpoint is used as is; over gRPC every endpoint is used as is. An invalid endpoint given to the HTTP builder or an unknown compression name makes build fail. Headers: those given to the builder (a later call for the same name wins), over them those of the signal's header variable, or of the general one if it is unset; a header list is split at commas, names and values are trimmed, values are percent-decoded when the whole value decodes and kept as they are otherwise, entries without name or value or with an invalid one are skipped. No value of these variables makes building panic.",
  ["configurations"], "any values of the environment variables of all three signals, any builder calls, HTTP and gRPC",
  "Tests set one variable at a time with friendly values; precedence, percent decoding and path joining fail only for particular combinations and malformed text.",
  ["opentelemetry-otlp/src/exporter/http/mod.rs", "opentelemetry-otlp/src/exporter/tonic/mod.rs", "opentelemetry-otlp/src/exporter/mod.rs"],
  [("HTTP builder", "opentelemetry-otlp/src/exporter/http/mod.rs"), ("gRPC builder", "opentelemetry-otlp/src/exporter/tonic/mod.rs"), ("shared settings", "opentelemetry-otlp/src/exporter/mod.rs")],
  ["SpanExporter::builder", "LogExporter::builder", "MetricExporter::builder"])
P("C25", "An OTLP export sends its batch once and reports what the server said",
  "Each export of an OTLP exporter before shutdown makes exactly one request to the configured endpoint (HTTP: one POST with the configured headers and the content type of the protocol; gRPC: one call of the signal's export method) whose message is the transform (C23) of exactly the given batch, under the resource last given to set_resource (none: empty); encoded as JSON if the protocol is HTTP/JSON and as protobuf otherwise. It reports success exactly if the request was answered with a 2xx status (HTTP) or without error (gRPC). After shutdown, exports send nothing and fail (with AlreadyShutdown, over gRPC metrics with an internal failure; except the gRPC log exporter, whose shutdown is documented to do nothing); a second shutdown of a span or HTTP log exporter fails with AlreadyShutdown.",
  ["histories"], "any sequence of exports, set_resource and shutdown calls on span, log and metric exporters over HTTP and gRPC, any batches and answers",
  "Tests export one batch to a mock that always succeeds; statuses other than 200, errors, repeated exports and exports after shutdown are not sampled together with the contents of the request.",
  ["opentelemetry-otlp/src/exporter/http", "opentelemetry-otlp/src/exporter/tonic", "opentelemetry-otlp/src/span.rs", "opentelemetry-otlp/src/logs.rs", "opentelemetry-otlp/src/metric.rs"],
  [("HTTP clients", "opentelemetry-otlp/src/exporter/http/mod.rs"), ("HTTP trace", "opentelemetry-otlp/src/exporter/http/trace.rs"), ("HTTP logs", "opentelemetry-otlp/src/exporter/http/logs.rs"), ("HTTP metrics", "opentelemetry-otlp/src/exporter/http/metrics.rs"), ("tonic trace", "opentelemetry-otlp/src/exporter/tonic/trace.rs"), ("tonic logs", "opentelemetry-otlp/src/exporter/tonic/logs.rs"), ("tonic metrics", "opentelemetry-otlp/src/exporter/tonic/metrics.rs"), ("exporters", "opentelemetry-otlp/src/span.rs")],
  ["SpanExporter::export", "LogExporter::export", "MetricExporter::export", "shutdown", "set_resource"])
P("C26", "A Prometheus scrape reports exactly what the pipeline collected",
  "Each scrape of the Prometheus exporter collects once, cumulatively, and reports every collected sum (monotonic: counter, otherwise gauge), gauge and histogram under the name [namespace_]clean(name)[_unit][_total], where clean turns every character outside [A-Za-z0-9_:] into _ (and puts _ before a leading digit), the unit suffix follows the unit table unless disabled, and _total is the counter suffix unless disabled. Every data point becomes one sample whose labels are its attributes with cleaned keys (every character outside [A-Za-z0-9] becomes _, with _ before a leading digit and for an empty key; values of attributes whose cleaned keys collide are sorted and joined with ;), then otel_scope_name and otel_scope_version unless disabled, then the selected resource attributes; a histogram carries the sum, the count and cumulative bucket counts. All samples of one name have the type and help first reported for it: a metric of another type is dropped, a differing help is replaced. target_info carries the resource's attributes and otel_scope_info a scope's name and version, unless disabled.",
  ["inputs", "histories"], "any scopes, metric names, units, descriptions, attributes, resource and exporter settings; any sequence of scrapes",
  "Tests compare a dozen fixed scrapes with golden files; colliding keys, non-ASCII names, unit tables, several scopes with conflicting metrics and several scrapes are not sampled together.",
  ["opentelemetry-prometheus/src"],
  [("collector", "opentelemetry-prometheus/src/lib.rs"), ("names and labels", "opentelemetry-prometheus/src/utils.rs"), ("settings", "opentelemetry-prometheus/src/config.rs"), ("resource labels", "opentelemetry-prometheus/src/resource_selector.rs")],
  ["Collector::collect", "sanitize_name", "sanitize_prom_kv", "get_unit_suffixes", "validate_metrics", "add_histogram_metric", "add_sum_metric", "add_gauge_metric", "ExporterBuilder::build"])
P("C30", "A Zipkin export posts every recorded span once, with all its fields",
  "Exporting a batch makes one POST of application/json to the configured collector endpoint whose body is one Zipkin span per recorded span, in order. Each has the trace, span and parent ids in hex (no parent id for a root span), the name, the kind (client, server, producer, consumer; none for internal or when the span carries its own span.kind attribute), start time and duration in microseconds (0 when the end is before the start), each event as an annotation, the attributes as tags (the last value of a key; never `error`), the scope name and version, the status code and description, and the configured service address. The export succeeds exactly when the answer's status is 2xx.",
  ["inputs", "configurations"], "any batch of spans, any service address, endpoint and answer",
  "Tests serialise hand-written model values; that every field of any span reaches the wire, and which answers count as success, is in none of them.",
  ["opentelemetry-zipkin/src/exporter/mod.rs", "opentelemetry-zipkin/src/exporter/model/mod.rs", "opentelemetry-zipkin/src/exporter/model/span.rs", "opentelemetry-zipkin/src/exporter/uploader.rs"],
  [("into_zipkin_span, map_from_kvs", "opentelemetry-zipkin/src/exporter/model/mod.rs"), ("ZipkinExporter, ZipkinExporterBuilder", "opentelemetry-zipkin/src/exporter/mod.rs")],
  ["ZipkinExporterBuilder, SpanExporter::export of ZipkinExporter", "opentelemetry_http::HttpClient and ResponseExt"])
P("C31", "Carriers and composite propagators keep every value, in order, for any keys",
  "What is set in a carrier under a name is what is read under that name in any case, other names are untouched, and the keys listed are exactly those held; an HTTP carrier leaves out a name or value HTTP does not allow. A composite propagator injects and extracts with each of its propagators in the order given, every one extracting into what those before it produced, and its fields are each name any of them uses, once. Every header a propagator injects is one of its fields. Without an explicit context the current one is used. The global propagator is the one set last; until one is set nothing is injected and extraction gives back the given context.",
  ["inputs", "histories"], "any keys and values, any list of propagators, any sequence of setting the global one",
  "Tests use one key in two cases and two propagators with disjoint headers; overlapping headers, refused values and the default global propagator are in none of them.",
  ["opentelemetry/src/propagation/mod.rs", "opentelemetry/src/propagation/composite.rs", "opentelemetry/src/propagation/text_map_propagator.rs", "opentelemetry/src/global/propagation.rs", "opentelemetry-http/src/lib.rs"],
  [("Injector and Extractor for HashMap", "opentelemetry/src/propagation/mod.rs"), ("HeaderInjector, HeaderExtractor", "opentelemetry-http/src/lib.rs"), ("TextMapCompositePropagator", "opentelemetry/src/propagation/composite.rs"), ("NoopTextMapPropagator", "opentelemetry/src/trace/noop.rs")],
  ["TextMapCompositePropagator", "set_text_map_propagator, get_text_map_propagator", "TextMapPropagator::fields of every propagator"])
P("C33", "Log and tracing bridges emit one complete record for each enabled event",
  "For each log record or tracing event the logger wants for its severity, target and (tracing) name, a bridge emits exactly one record, and none otherwise. It carries the severity number and text of the level, the message as body, the target, for tracing the event name, and every key-value or field once, in order, with its type: integers that fit 64 bits as integers and others as text, floats, booleans, bytes, strings, everything else as its text, an error as `exception.message`; with serde, lists and maps keep their structure. With the metadata feature the source location is added and the duplicates log events carry are left out; with the span context feature the record names the span it was made in.",
  ["inputs", "configurations"], "any record or event: level, target, name, message, any number and types of values",
  "Tests emit one or two fixed events; integers out of range, refused levels, repeated keys and each value type are in none of them.",
  ["opentelemetry-appender-log/src/lib.rs", "opentelemetry-appender-tracing/src/layer.rs"],
  [("OpenTelemetryLogBridge, log_attributes, any_value", "opentelemetry-appender-log/src/lib.rs"), ("OpenTelemetryTracingBridge, EventVisitor", "opentelemetry-appender-tracing/src/layer.rs")],
  ["impl log::Log for OpenTelemetryLogBridge", "impl Layer for OpenTelemetryTracingBridge"])
P("C34", "Every handle to a span or tracer acts on the one behind it, fully and once",
  "An operation on a span (event, error, attributes, status, name, link, end), through whatever stands between the user and it - the boxed span of the global tracer, a context's span reference, the provided methods - reaches that span exactly once, in order, with the values given, a time being read only where none was given; its span context and recording state are read back unchanged. A builder hands the tracer exactly what was set on it, and each way to start a span uses the given context, else the current one. in_span gives the closure a context in which the new span is active and ends that span when the closure returns or unwinds. A context without a span acts as a no-op span with an invalid context. The global tracer provider is the one set last and is asked with the scope given; until one is set, spans only carry their parent's context.",
  ["inputs", "histories"], "every operation and value, any number of handles to a span, any parent, any history of setting the global provider",
  "Tests drive concrete spans through a call or two; a forwarding method that drops an argument, reorders or doubles a call shows only for the operation, handle and value concerned.",
  ["opentelemetry/src/trace/span.rs", "opentelemetry/src/trace/context.rs", "opentelemetry/src/trace/tracer.rs", "opentelemetry/src/trace/tracer_provider.rs", "opentelemetry/src/trace/noop.rs", "opentelemetry/src/global/trace.rs"],
  [("SpanRef, TraceContextExt, mark_span_as_active", "opentelemetry/src/trace/context.rs"), ("BoxedSpan, BoxedTracer, GlobalTracerProvider", "opentelemetry/src/global/trace.rs"), ("SpanBuilder, Tracer", "opentelemetry/src/trace/tracer.rs"), ("NoopSpan, NoopTracer", "opentelemetry/src/trace/noop.rs")],
  ["Span trait", "SpanRef", "Tracer::start, start_with_context, span_builder, in_span", "global::tracer, set_tracer_provider"])
P("C35", "Every meter and instrument handle passes on exactly what it was given, once",
  "An instrument built through a meter is asked of the implementation behind it once, as the kind and number type called for, with exactly the name, description, unit, cardinality limit, boundaries and callbacks set, in order. A measurement through any handle or clone of an instrument reaches the implementation once with its value and attributes. Without an SDK everything is a no-op that never fails. The global meter provider is the one set last and is asked with the scope given; replacing it never blocks or is blocked by what the replaced one does when it is dropped.",
  ["inputs", "histories"], "every kind of instrument, name, setting and measurement, any number of handles, any history of setting the global provider",
  "Existing tests of the API crate build one counter; sixteen instrument kinds times their settings and the replacement of a global provider in use are in none of them.",
  ["opentelemetry/src/metrics/meter.rs", "opentelemetry/src/metrics/mod.rs", "opentelemetry/src/metrics/noop.rs", "opentelemetry/src/metrics/instruments/mod.rs", "opentelemetry/src/metrics/instruments/counter.rs", "opentelemetry/src/metrics/instruments/gauge.rs", "opentelemetry/src/metrics/instruments/histogram.rs", "opentelemetry/src/metrics/instruments/up_down_counter.rs", "opentelemetry/src/global/metrics.rs"],
  [("Meter", "opentelemetry/src/metrics/meter.rs"), ("InstrumentBuilder, HistogramBuilder, AsyncInstrumentBuilder", "opentelemetry/src/metrics/instruments/mod.rs"), ("set_meter_provider, meter_provider", "opentelemetry/src/global/metrics.rs"), ("NoopMeterProvider, NoopMeter", "opentelemetry/src/metrics/noop.rs")],
  ["Meter and its builders", "Counter::add, Gauge::record, Histogram::record, UpDownCounter::add", "global::meter, meter_with_scope, set_meter_provider"])
P("C36", "Async-runtime processors and reader export every item once, in order, on time",
  "A batch processor on an async runtime exports each item its channel accepted exactly once, in order, in batches of at most the maximum size, at the latest one scheduled delay after it was accepted, on flush and on shutdown; what the channel refuses is dropped. A flush succeeds only after everything accepted before it was exported, a shutdown only after that and the exporter's shutdown, and nothing is exported afterwards. An export that does not end in its time limit is given up as timed out, and the worker goes on. The periodic reader on such a runtime makes and exports one collection per interval, flush and shutdown and reports its outcome. The concurrent log processor exports each record at once, alone.",
  ["histories", "schedules", "fault_sequences"], "any sequence and timing of items, flushes, ticks and shutdown, any batch size, delay and exporter answer, any runtime",
  "Tests use one or two spans with an in-memory exporter and a single tick; refused messages, slow exporters, partial batches at a flush and items after shutdown are in none of them.",
  ["opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs", "opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs", "opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs", "opentelemetry-sdk/src/runtime.rs", "opentelemetry-sdk/src/logs/concurrent_log_processor.rs"],
  [("BatchSpanProcessorInternal::run, flush, export", "opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs"), ("BatchLogProcessor::new, export_with_timeout", "opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs"), ("PeriodicReaderWorker::run", "opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs"), ("SimpleConcurrentLogProcessor", "opentelemetry-sdk/src/logs/concurrent_log_processor.rs")],
  ["SpanProcessor and LogProcessor of the two batch processors", "MetricReader of the async PeriodicReader", "what the exporter is given"])
P("C37", "The Jaeger remote sampler decides as the strategy last fetched says",
  "Until a strategy was fetched the default sampler is asked, with the same arguments, and answers. From then on the strategy last fetched decides: a ratio by the trace id, per operation the operation's ratio or else the default one, a rate by a bucket that starts full, earns tokens at its rate up to its size, samples exactly while a token is left and keeps its tokens when the rate changes. A reply that failed, has another status than 200, does not parse or holds no strategy changes nothing. One request is made for each update interval, to the endpoint configured (the default one if it is no URL) for the service named, as long as a handle to the sampler is left and no longer. The trace state is the parent's.",
  ["histories", "inputs", "schedules"], "any sequence of replies and questions at any times, any endpoint, service, interval, bucket size and default sampler",
  "The only tests ask a bucket at whole seconds and parse one reply; no test fetches a strategy, changes one or drops the sampler.",
  ["opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs", "opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs", "opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs", "opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs", "opentelemetry-sdk/src/trace/sampler.rs"],
  [("LeakyBucket::check_availability", "opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs"), ("Inner::update, init_strategy, should_sample", "opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs"), ("JaegerRemoteSampler::run_update_task, request_new_strategy; the builder", "opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs")],
  ["Sampler::jaeger_remote and its builder", "ShouldSample of the sampler built", "the requests the HTTP client is given"])
P("C38", "An HTTP client sends the request as given and gives back the whole answer",
  "Each HTTP client (hyper, reqwest, blocking reqwest) sends exactly one request with the method, target, headers and body given; the hyper client's configured authorization replaces that of the request. The answer given back has the status, the headers and the whole body the server sent. A lost connection, a body cut short, a client or server error status (for hyper's any status but a success) and an exchange that takes longer than the configured time limit, body included, are errors; nothing else about an answer is.",
  ["inputs", "faults", "schedules"], "any request, authorization, time limit and answer, whole, slow, cut short or missing",
  "No test of the repository uses these clients against a server.",
  ["opentelemetry-http/src/lib.rs"],
  [("HyperClient::send_bytes, exchange", "opentelemetry-http/src/lib.rs"), ("send_bytes for reqwest::Client and reqwest::blocking::Client", "opentelemetry-http/src/lib.rs"), ("ResponseExt::error_for_status", "opentelemetry-http/src/lib.rs")],
  ["HttpClient::send_bytes and send", "ResponseExt::error_for_status", "the bytes on the wire"])
P("C39", "OTLP messages written as JSON have OTLP's form and read back as they were",
  "Written as JSON, trace and span ids are hexadecimal, the times of spans, events, records and number points and the integers of values are decimal strings, bytes are base64, doubles JSON has no number for are the strings NaN, Infinity and -Infinity, and a value without content is an empty object. What was written reads back equal, for values of any nesting and requests of all three signals. A value is read from its last known key; keys unknown are passed over unless there are only such; a known key with content not of its kind is an error. Writing either completes or reports an error.",
  ["inputs", "faults"], "any message of the three signals; any text; any point at which the writer fails",
  "The tests write and read a fixed set of about a dozen messages, without bytes, empty values, extremes or failing writers.",
  ["opentelemetry-proto/src/proto.rs"],
  [("serialize_to_value, deserialize_from_value and its visitor", "opentelemetry-proto/src/proto.rs"), ("serialize_to_hex_string, deserialize_from_hex_string", "opentelemetry-proto/src/proto.rs"), ("serialize_u64_to_string and the other decimal forms", "opentelemetry-proto/src/proto.rs"), ("which fields use them", "opentelemetry-proto/src/proto/tonic/opentelemetry.proto.trace.v1.rs")],
  ["serde_json over opentelemetry_proto's messages", "the bodies of OTLP's http/json exporter"])
P("C40", "The in-memory exporters report all and only what they were given, in order",
  "At any time every clone of an in-memory exporter reports the same list: the concatenation, in the order of the exports, of all batches exported through any clone since the list was last emptied (by reset, or for spans and log records by shutdown), each record, scope and metric with every data point equal to what was exported; log records come with the resource last given to any clone. Reading changes nothing, nor does a flush or (for metrics) a shutdown; an export does not change what it is given. A batch is kept whole and in one piece however many threads export. The metric exporter's temporality is the one chosen, else cumulative.",
  ["histories", "schedules"], "any sequence or interleaving of exports, reads, resets, shutdowns and set_resource calls on any number of clones",
  "Tests use these exporters on one batch of one or two records, through one handle.",
  ["opentelemetry-sdk/src/trace/in_memory_exporter.rs", "opentelemetry-sdk/src/logs/in_memory_exporter.rs", "opentelemetry-sdk/src/metrics/in_memory_exporter.rs"],
  [("spans", "opentelemetry-sdk/src/trace/in_memory_exporter.rs"), ("log records", "opentelemetry-sdk/src/logs/in_memory_exporter.rs"), ("metrics", "opentelemetry-sdk/src/metrics/in_memory_exporter.rs")],
  ["InMemorySpanExporter", "InMemoryLogExporter", "InMemoryMetricExporter"])
P("C41", "The stdout exporters print every record they are given, completely and in order",
  "Until shutdown each export of a stdout exporter succeeds and prints the heading of its signal; then the resource with its schema URL and all attributes - for metrics that of each export, for spans and log records the one last set, with the first export alone, however many threads export; then every span, record or metric of the batch, numbered from 0, in order: scope with version, schema URL and attributes; for a span its name, ids, flags, parent, kind, times, status, attributes, events and links; for a record its event name, target, ids, times, severity, body and attributes, those it has; for a metric its name, description, unit, type, temporality, times and every data point with its value or its count, sum, extremes and buckets, and its attributes (of an exponential histogram only the type). Nothing is left out, repeated or taken from another record. After shutdown an export prints nothing and fails with AlreadyShutdown.",
  ["inputs", "histories", "schedules"], "any batches of spans, records or metrics, any resource, any sequence of exports, set_resource and shutdown calls",
  "No test looks at what the stdout exporters print.",
  ["opentelemetry-stdout/src/trace/exporter.rs", "opentelemetry-stdout/src/logs/exporter.rs", "opentelemetry-stdout/src/metrics/exporter.rs"],
  [("spans", "opentelemetry-stdout/src/trace/exporter.rs"), ("log records", "opentelemetry-stdout/src/logs/exporter.rs"), ("metrics", "opentelemetry-stdout/src/metrics/exporter.rs")],
  ["opentelemetry_stdout::SpanExporter", "opentelemetry_stdout::LogExporter", "opentelemetry_stdout::MetricExporter"])
