SOUND = """Static: every path of the named code is covered (loops by one abstract iteration, calls inlined), for all inputs
and schedules; trusts the Go compiler, the standard library's documented behaviour and the analysis itself. Not a proof
checked by a kernel."""

prop("C01", "No data races in types that several goroutines use",
  """Collectors, stores, recorders, the HTTP transport, the ID generator and the web app may be used by any number of goroutines at
  once: no two of their operations, including the goroutines they start themselves, access the same memory concurrently
  with one of them writing.""",
  "schedules programs",
  "every pair of exported operations (and internal goroutines) of the shared types, under every interleaving",
  "A test, even under the race detector, observes the schedules that happen to run; the suite exercises few operations concurrently.",
  "collector.go store.go recorder.go id.go reflect.go httptrace/client.go opentracing/recorder.go traceapp/tmpl.go",
  [("lockset", "mutexes of ChunkedCollector, RemoteCollector, CollectorServer, MemoryStore, RecentStore, LimitStore, Recorder, Transport, App and of the package-level ID and field-name caches")],
  "path-sensitive lockset dataflow analysis over SSA, all exported entry points and goroutines",
  SOUND + " Objects handed from goroutine to goroutine by contract (a Recorder's own annotations, HTTP requests) are exempt.")

prop("C02", "Locks are always released, never self-deadlock and are ordered",
  """Every operation that takes one of the library's locks has released it when it returns, on error and panic paths too, never
  acquires a lock that it already holds or releases one that it does not hold, does not wait for another goroutine while it holds one,
  and no two operations acquire the same two locks in opposite orders.""",
  "schedules inputs",
  "every path through every exported operation and internal goroutine",
  "A leaked lock or inverted order on a rare error path only shows when that path runs, and then as a hang of an unrelated call.",
  "collector.go store.go recorder.go id.go reflect.go httptrace/client.go traceapp/tmpl.go",
  [("lock pairing", "every Lock/Unlock pair of the module")],
  "typestate analysis of mutexes over all SSA paths, lock-order graph",
  SOUND)

prop("C03", "Buffered collection never blocks the caller on delivery",
  """Collect on a chunked collector does no delivery itself: it neither calls the underlying collector or a user callback, nor sleeps, nor waits for a channel or another goroutine.
  The lock that it needs is never held by the flusher while the underlying collector or a user callback runs or while anything sleeps or waits,
  so that Collect cannot be delayed by a slow or dead server.""",
  "schedules fault_sequences",
  "every path of Collect, and every critical section of the collector's lock, whatever the underlying collector does",
  "A test can use one slow collector and one interleaving; blocking is a matter of which code runs under which lock on every path.",
  "collector.go",
  [("delivery outside the lock", "ChunkedCollector.Collect, Flush and its background goroutine")],
  "effect analysis: blocking and delivery effects reachable from Collect or under its locks",
  SOUND + " Writing to the configured logger is not regarded as delivery.")

prop("C04", "Buffered annotations are delivered exactly once or the loss is reported",
  """Every annotation that Collect accepts is queued under its span, and each flush takes the whole queue at once and hands each span's
  annotations to the underlying collector exactly once, so that nothing is sent twice and nothing queued concurrently is lost.
  When a flush gives up early or drops the queue it returns an error, any error of the underlying collector makes the flush fail, and failures of background flushes are returned by the next Collect.""",
  "histories schedules fault_sequences",
  "every interleaving of Collect and Flush, every pattern of failures and timeouts of the underlying collector",
  "Tests flush a handful of spans with one failure pattern; the guarantee is about every path of the flush loop.",
  "collector.go",
  [("queue hand-over", "ChunkedCollector.Collect and Flush"), ("error report", "background goroutine and Collect")],
  "path-sensitive dataflow over SSA: ownership hand-over of the queue, per-iteration effects of the flush loop, error flow",
  SOUND)

prop("C05", "The pending queue never exceeds its byte bound",
  """With a non-zero maximum queue size, a chunked collector only queues an annotation set if the bytes accounted for the queue, including
  all keys and values of the new set, stay within the maximum; otherwise it drops the queue and Collect returns the queue-dropped error.
  The account is reset exactly when the queue is emptied.""",
  "histories inputs",
  "every sequence of Collect and Flush calls with any annotations",
  "The bound is an invariant over all histories; tests try one oversized collection.",
  "collector.go",
  [("accounting", "ChunkedCollector.Collect and Flush")],
  "path-sensitive dataflow over SSA with linear facts on the byte counter",
  SOUND + " The byte counter is assumed not to wrap around 2^64.")

prop("C06", "A stopped chunked collector accepts and sends nothing",
  """Stop may be called at any time, before first use and repeatedly, and never panics. Once it has returned, Collect
  fails without queueing, Flush fails without sending, no new background flusher starts, and the running one ends at its next wake-up
  without flushing.""",
  "schedules histories",
  "every order and interleaving of Stop, Collect, Flush and the background goroutine",
  "Only a few orders of calls are tested; a double close or late send depends on the interleaving.",
  "collector.go",
  [("stop flag and channel", "ChunkedCollector.Stop, Collect, Flush and the background goroutine")],
  "typestate analysis of the stop flag and channel over all SSA paths",
  SOUND + " A flush that had taken the queue before Stop was called may still be sending.")

prop("C07", "No storage or delivery error is lost",
  """Every error that a collector, store, queryer, connection or persistence operation returns to appdash is passed on: it is
  returned to the caller, recorded for the caller to retrieve, sent to the log, or answered by a retry whose own error is passed on.
  The errors kept by a recorder that appdash makes for its own use (the HTTP middleware and transport, the send command) are retrieved after its last recording and passed on too.
  No operation reports success on a path where an operation that it depends on has failed.""",
  "fault_sequences inputs",
  "every call of a fallible storage, delivery, marshalling or persistence operation, on every path",
  "Fault injection in tests covers one or two call sites; the rule is about each call on each path.",
  "collector.go store.go multi.go recorder.go opentracing/recorder.go traceapp/app.go cmd/appdash/serve_cmd.go",
  [("error flow", "every call site of Collect, Trace, Traces, Delete, Write, ReadFrom and of the I/O operations")],
  "interprocedural error-flow analysis over all SSA paths",
  SOUND)

prop("C08", "A remote Collect that succeeds has written its packet to a live connection",
  """Collect on a remote collector returns nil only if the connection accepted the packet, which holds exactly the given span ID and annotations. After
  a failed write it opens one new connection, retries exactly once on it and returns that attempt's error, never reusing the failed connection.
  A replaced or closed connection is closed, and Close leaves none behind.""",
  "fault_sequences histories",
  "every pattern of dial and write failures over any sequence of calls",
  "Tests use a server that works; the retry logic is a matter of every failure pattern.",
  "collector.go",
  [("reconnect", "RemoteCollector.Collect and Close")],
  "typestate analysis of the connection over all SSA paths",
  SOUND + " Writes accepted by the connection may still be lost in the network: the protocol has no acknowledgements.")

prop("C09", "A client of the collector server cannot crash it or exhaust its memory",
  """Whatever bytes a client sends, handling its connection neither panics on absent fields of a message nor ends the process, and no message longer than 1 MiB is
  read into memory. A malformed or oversized message ends only that client's connection.""",
  "inputs",
  "every byte sequence a client may send",
  "Tests send well-formed packets from appdash's own client.",
  "collector.go span.go internal/wire/collector.pb.go",
  [("packet handling", "CollectorServer's connection handler"), ("required fields", "internal/wire")],
  "nullness dataflow analysis driven by the wire schema, plus panic/exit reachability",
  SOUND + " Trusts gogo/protobuf to enforce required fields and the length bound.")

prop("C10", "The server hands on each packet once, in order, and frees connections",
  """Every packet that a client's connection delivers is handed to the server's collector exactly once, in the order received, before the next
  one is read. Each accepted connection gets one handler and is closed however that handler ends. Temporary accept errors do not stop the server, permanent ones end it.""",
  "fault_sequences histories schedules",
  "every sequence of packets, read errors, collector errors and accept errors",
  "Tests run one or two well-behaved clients.",
  "collector.go",
  [("accept loop", "CollectorServer.Start"), ("packet loop", "CollectorServer's connection handler")],
  "path-sensitive dataflow over SSA: per-iteration effects of the accept and packet loops, resource typestate of the connection",
  SOUND)

prop("C11", "Spans cross the wire unchanged and both languages agree on the schema",
  """The packet that a remote collector sends carries trace, span and parent ID and all annotations, keys and values, in order, each in its own field, and the server reconstructs
  the same span ID and annotations from it. The Go types, the protocol definition and the Python client agree on the number, type and label of every field.""",
  "inputs programs",
  "every span ID and annotation list, and every field of the schema",
  "Round-trip tests use a few values; swapped or aliased fields that happen to be equal, and the Python client, go unnoticed.",
  "collector.go span.go internal/wire/collector.pb.go internal/wire/collector.proto python/appdash/collector_pb2.py python/appdash/encode.py",
  [("encoding", "SpanID and Annotations to wire types"), ("decoding", "wire types to SpanID and Annotations"), ("schema", "internal/wire, python/appdash")],
  "value-flow analysis over SSA (per-iteration for lists) and schema extraction from Go tags, .proto and Python descriptor",
  SOUND)

prop("C12", "The memory store never shares its spans with its callers",
  """What callers do to the annotation list they passed to Collect afterwards does not change the memory store, and what they do to a trace tree they got from it
  neither changes the store nor races with it: the store keeps and hands out its own copies of spans, child lists and annotation lists.""",
  "histories schedules",
  "every use of the arguments and results of the store's operations after they return",
  "A test can mutate one result and look at one field; the guarantee is about everything reachable from it.",
  "store.go trace.go collector.go",
  [("copy in", "MemoryStore.Collect, ChunkedCollector.Collect"), ("copy out", "MemoryStore.Trace and Traces")],
  "ownership/escape analysis of stored and returned objects over all SSA paths",
  SOUND + " The bytes of annotation values are shared and regarded as immutable.")

prop("C13", "Collecting keeps every trace one acyclic tree of all its spans",
  """However spans arrive, each span that the memory store collects is linked into its trace's tree exactly once, a span collected again only gains annotations, and
  moving spans below a late parent or a new root neither drops nor duplicates any of them. No span ever becomes its own descendant, and collecting never panics.""",
  "histories inputs",
  "every order of arrival and every combination of span and parent IDs",
  "Tests use a few orders of well-formed spans.",
  "store.go trace.go",
  [("tree linking", "MemoryStore.Collect and its helpers")],
  "path-sensitive dataflow over SSA: link/unlink balance per path and per loop iteration, guarded-append rule",
  SOUND)

prop("C14", "Retention: stores forget exactly the traces that they delete, within bounds",
  """Deleting a trace from the memory store removes its tree and all its indexed spans, and no other trace. A limit store admits a new trace only while it keeps
  fewer than its maximum or after the oldest one has been deleted successfully, and a recent store tracks each trace from before it is stored
  until it is handed to deletion, handing over exactly the traces that it stops tracking.""",
  "histories fault_sequences",
  "every history of collections, deletions and deletion failures",
  "Tests fill one small store without failures.",
  "store.go",
  [("deletion", "MemoryStore.Delete"), ("bound", "LimitStore.Collect"), ("eviction", "RecentStore.Collect")],
  "path-sensitive dataflow over SSA: paired-update invariants and guarded admission",
  SOUND)

prop("C15", "Persistence is atomic: a crash or failure leaves a complete file and store",
  """The persisted file is only ever replaced, by renaming a temporary file in the same directory that has been completely written, synced and closed without error; on any failure the
  old file stays, the temporary file is removed and the error is returned. Restoring from a bad file leaves the store as it was, and restoring from a good one replaces trees and span index together,
  the index being derived from the restored trees.""",
  "crash_points fault_sequences inputs",
  "a crash or I/O error at any point of a persist cycle; any file content",
  "Tests persist and restore once without failures.",
  "store.go trace.go",
  [("write-sync-close-rename", "PersistEvery"), ("restore", "MemoryStore.ReadFrom")],
  "typestate analysis of the temporary file over all SSA paths, failure-atomicity dataflow",
  SOUND)

prop("C16", "Span IDs keep their lineage",
  """A root span ID has no parent; a child span ID has its parent's trace ID, its parent's span ID as parent, and a fresh span ID of its own, wherever children are made. Every fresh ID takes a part of the random stream
  that no other ID has taken, and span IDs read from text, HTTP headers or other tracers keep each component in its place.""",
  "inputs schedules",
  "every span ID, every way of creating one, any number of goroutines",
  "Tests compare a few IDs; two swapped components or a reused random block need particular values to show.",
  "span.go id.go recorder.go httptrace/header.go opentracing/recorder.go",
  [("ID creation", "NewRootSpanID, NewSpanID, Recorder.Child, httptrace.GetSpanID"), ("random stream", "ID generator")],
  "value-provenance dataflow over SSA; critical-section analysis of the generator",
  SOUND)

prop("C17", "Redacted headers never reach a recorded event",
  """The value of a header or trailer whose name is in the redaction list, compared without regard to case, is never part of an HTTP event: it is replaced before the event is built, for requests and
  responses, on clients and servers. All other headers are recorded.""",
  "inputs configurations",
  "every set of headers and trailers and every redaction list",
  "Tests look for one header in one spelling.",
  "httptrace/client.go httptrace/server.go",
  [("redaction", "request and response info of client and server events")],
  "information-flow analysis over SSA: header values reach events only under a failed redaction test",
  SOUND)

prop("C18", "The tracing transport performs each request exactly once, unmodified",
  """The HTTP transport passes each request to the underlying transport exactly once, as a copy with the span header added, leaving the caller's request and its headers alone, and returns
  that transport's response and error unchanged. Success or failure, one client event with that outcome is recorded and finished, and nothing stays behind for the finished request.""",
  "inputs fault_sequences",
  "every request and every outcome of the underlying transport",
  "Tests send a few requests that succeed.",
  "httptrace/client.go",
  [("round trip", "Transport.RoundTrip and CancelRequest")],
  "path-sensitive effect and value-flow analysis over SSA",
  SOUND)

prop("C19", "The tracing middleware runs the handler once and records what was sent",
  """Whatever the request's headers, the middleware calls the next handler exactly once and afterwards records exactly one server event, on the span from the request's header or a new one, which the handler can read from the request.
  Status, body bytes and flushes pass through unchanged, and the recorded status and length are those of the response sent.""",
  "inputs",
  "every request, including malformed span headers, and every sequence of writes by the handler",
  "Tests run handlers that write little or nothing.",
  "httptrace/server.go httptrace/header.go",
  [("middleware", "httptrace.Middleware"), ("response recorder", "ResponseWriter wrapper")],
  "path-sensitive effect and value-flow analysis over SSA",
  SOUND + " Handlers that panic are not recorded, as documented by the code's structure.")

prop("C20", "A recorder delivers its span's events once, and reports every failure",
  """Finish sends all events recorded so far, in order and on the recorder's own span, to its collector in one call; finishing again sends none of them again and reports an error. Events that cannot be
  marshalled and failed deliveries are reported through the log or kept until retrieved, and Errors hands over each kept error exactly once. A child recorder starts empty and reports its failures to its parent's log.""",
  "histories fault_sequences",
  "every sequence of recorder calls and every failure of the collector",
  "Tests use short sequences and a mock that fails in one place.",
  "recorder.go",
  [("recorder", "Recorder.Event, Annotation, Finish, Errors, Child")],
  "path-sensitive effect and value-flow analysis over SSA",
  SOUND)

prop("C21", "The opentracing recorder records each sampled span completely",
  """Every finished opentracing span that is sampled is recorded under its own trace, span and parent ID with its operation name, each log, each tag, each baggage item and its time span; an unsampled one is not recorded at all.
  A tag is recorded as the text of its value with the field names of structs, a log with its own time and all of its fields. One bad log record or failed delivery does not keep the rest from being recorded: the failure is recorded as a log of the span, and if
  that fails too it is logged, each time if the recorder is verbose and else at least once. A missing sampling function or logger in the options has a working default, a given one is used.""",
  "inputs fault_sequences configurations",
  "every raw span, every options value and every failure of the collector",
  "Tests record one span with a collector that works.",
  "opentracing/recorder.go opentracing/tracer.go opentracing/json.go",
  [("recorder", "opentracing.Recorder.RecordSpan"), ("options", "NewTracerWithOptions")],
  "path-sensitive effect and value-flow analysis over SSA",
  SOUND)

prop("C22", "Every event type can be read back, and both languages use the same keys",
  """Each event type that the Go packages define is registered under its own, unique, non-empty schema name, and every marshalled event carries all of its keys and values and the marker of that schema. The fields of an event have
  keys of their own, of types that can be read back, in an order in which they are read back; the keys that an event declares important are keys that it produces, and its start and end are the two times that it records. An event is
  only read from annotations with the marker of exactly its schema, and one event is read for each marker of a registered schema, other schemas being ignored. Each event that the Python client records carries the schema of the Go event
  of that name, that event's keys, and under each key the value given for it, times as RFC 3339 text.""",
  "programs inputs",
  "every event type and field in Go and Python",
  "Tests look at two event types, none at the Python side.",
  "event.go httptrace/client.go httptrace/server.go sqltrace/sql.go python/appdash/event.py python/appdash/recorder.py",
  [("registry", "RegisterEvent calls"), ("schemas and keys", "event struct types and tags, python/appdash")],
  "extraction of schemas, tags and keys from the typed Go program and the Python source, cross-checked",
  SOUND)

prop("C23", "The web app answers every request: routed, contained and escaped",
  """Every route the web app names is defined and has a handler, and every page it renders exists. A handler that fails (also because there is no such trace or span) or panics produces an error answer instead of a partial page or a crash, because its output is only sent once it has
  succeeded, and trace data reaches pages only through contextual HTML escaping.""",
  "inputs programs fault_sequences",
  "every route, template and handler outcome",
  "The web app has no tests at all.",
  "traceapp/app.go traceapp/router.go traceapp/handler.go traceapp/httputil.go traceapp/tmpl.go traceapp/dashboard.go",
  [("routing", "NewRouter and New"), ("error containment", "handler wrapper"), ("templates", "template set and data")],
  "extraction and cross-check of routes, handlers and templates; typestate of the response buffer over SSA paths; taint rule on unescaped HTML types",
  SOUND)

prop("C24", "Basic auth and TLS settings are enforced before anything is served",
  """With basic auth configured, a request without the exact credentials never reaches the web app: it gets 401, and the comparison takes constant time; malformed credentials settings stop the server from starting. With a TLS certificate or key
  configured, both the collector and the web app are served over TLS only, or the server does not start.""",
  "inputs configurations",
  "every request and every combination of flags",
  "The command has no tests.",
  "cmd/appdash/serve_cmd.go",
  [("auth gate", "basic auth handler"), ("configuration", "serve command")],
  "guard analysis over all SSA paths of the serve command and the auth handler",
  SOUND)

prop("C25", "Queries return what is stored, filtered and merged as documented",
  """A lookup returns the stored trace or the documented not-found error, and with several stores the first one that has it, any other error ending the search. A query with trace IDs returns only those, without them all traces, each once,
  and merging queryers passes on the options and returns each trace once; collecting into several stores reaches every store or fails; stores that wrap others answer from the store they wrap.""",
  "inputs configurations fault_sequences",
  "every store content, every query and every combination of stores, including failing ones",
  "Tests query a few traces in one or two stores.",
  "store.go multi.go",
  [("lookup and query", "MemoryStore.Trace and Traces"), ("merging", "MultiStore, MultiQueryer")],
  "path-sensitive dataflow over SSA: per-iteration effects of the query loops, guarded results",
  SOUND)

prop("C26", "Event fields of every supported kind are written and read back as their kind",
  """When an event is marshalled, every exported field is written once, under its name or its trace tag, and when the annotations are unmarshalled, each value of a boolean, integer, floating point, string, time.Time or time.Duration kind (also behind pointers, in nested structs,
  and as an element of a slice, array or map) is read back into that field as what was written: text is parsed with the inverse of the function that formatted it, with the same base, layout, scale and a precision that loses nothing. Nil pointers, interfaces, and annotations that
  cannot be parsed or have unknown keys never make marshalling or unmarshalling panic; a text that cannot be parsed is not taken for a value, and a field without an annotation does not keep the following ones from being read.""",
  "inputs programs",
  "every field kind and value",
  "Round-trip tests use a few values of each kind.",
  "reflect.go event.go",
  [("writing", "flattenValue"), ("reading", "unflattenValue, parseValue")],
  "extraction of the kind/function tables from the SSA form and cross-check",
  SOUND)

prop("C27", "Span IDs survive being written as text and parsed",
  """Parsing the text form of any span ID gives the same span ID, and parsing never accepts text of another shape.""",
  "inputs", "every span ID and every string",
  "Tests parse a dozen strings.",
  "span.go id.go", [("text form", "SpanID.String, ParseSpanID")])
na("C27", """Equality after formatting and parsing is about the values that fmt and strconv compute (hex digits, padding, overflow); what static analysis decides here, that each component goes to and
comes from its own place with base 16, is part of C16; the value-level round trip needs execution or a solver.""")

prop("C28", "Generated IDs do not repeat and are uniformly distributed",
  """The IDs generated by a process do not repeat in practice and are uniformly distributed.""",
  "histories", "every sequence of generated IDs",
  "A sample says little about the distribution.", "id.go", [("ID generator", "generateID")])
na("C28", "A statistical property of the cipher's output: no static argument decides it. That no part of the keystream is handed out twice is part of C16.")

prop("C29", "Events survive marshalling and unmarshalling unchanged",
  """Unmarshalling the annotations of any marshalled event gives an event equal to the original.""",
  "inputs", "every event value", "Tests use a few values.", "reflect.go event.go", [("codec", "MarshalEvent, UnmarshalEvent")])
na("C29", """Full equality depends on values (key collisions, sort order of keys, float and time formatting) and on run-time types walked by reflection; the statically decidable part, agreement of the kind tables, is C26.""")

prop("C30", "Pending data is flushed, and old traces evicted, within their intervals",
  """Data queued by a chunked collector is sent within about its minimum interval, flushes end within about their timeout, and traces are evicted once they are older than the minimum age.""",
  "schedules histories", "every timing", "Tests sleep and look once.", "collector.go store.go", [("intervals", "ChunkedCollector, RecentStore")])
na("C30", "A bound on elapsed time: it depends on the scheduler and on how long the underlying collector takes, which no static argument bounds.")

prop("C31", "A trace's tree is the same whatever the order in which its spans arrive",
  """Collecting the same spans in any order yields the same parent-child relation, the one their parent IDs describe.""",
  "histories", "every permutation of the spans of every trace", "Tests use a few orders.", "store.go", [("tree linking", "MemoryStore.Collect")])
na("C31", """Functional correctness of a heap algorithm over unbounded histories: it needs an inductive invariant about the shape of the whole tree, which dataflow on this code cannot express. The per-step guarantees (linked
exactly once, nothing lost, acyclic) are C13.""")

prop("C32", "Timelines, profiles and aggregates show correct times",
  """The timeline, profile and aggregate views show times that agree with the recorded events of the trace.""",
  "inputs", "every trace", "There are no tests.", "traceapp/vis.go traceapp/prof.go traceapp/aggregate.go", [("views", "d3timeline, profile, aggregate")])
na("C32", "Arithmetic on recorded values: the expected result is a specification of numbers, not of structure, that static analysis cannot decide without computing it. How a profile's times are made of its events' and children's is C35.")

prop("C33", "Concurrent operations on a store are linearizable",
  """Any concurrent history of collections, lookups and deletions on a store is equivalent to some sequential one.""",
  "schedules histories", "every concurrent history", "Tests are sequential.", "store.go", [("store lock", "MemoryStore, RecentStore, LimitStore")])
na("C33", """Linearizability of the composed stores is a property of histories and their results; statically it reduces to each operation being one critical section of one lock, which C01 (guarded by one lock) and C02 (released, no
inversion) decide; eviction is asynchronous by design and not linearizable.""")

prop("C34", "The commands wire one store to everything they serve",
  """Whenever `appdash serve` starts serving the web app, what is collected is what is shown: a collector server is running, on the configured address, and puts what it receives into the store that the app's pages read, whose traces are those that the app's
  queryer lists, all of them based on one memory store (so for the demo command). A RecentStore of the configured age lies in front of it for both if and only if the age is greater than zero. If a store file is configured, that memory store has been filled from it
  before anything else is added to it, unless the file does not exist; a file that cannot be opened or read makes the command fail, and is never overwritten; the memory store is then persisted to it at the configured interval, if and only if one is set.
  Sample data is added to that store, after it was filled, if and only if it is asked for. The web app listens on the configured address, and is given the configured URL or else the URL of that address, with brackets around IPv6 addresses and https when it is served with TLS.""",
  "inputs faults configurations",
  "every configuration of the command and every failure of the file, the network and the template set-up",
  "No test runs the commands: they do not return.",
  "cmd/appdash/serve_cmd.go cmd/appdash/example_app.go",
  [("wiring", "ServeCmd.Execute"), ("URL of the web app", "ServeCmd.urlOrDefault"), ("demonstration", "DemoCmd.Execute")],
  "symbolic path enumeration over the SSA form with value-flow rules where serving starts",
  SOUND)

prop("C35", "Uploads, profiles and searches take in every span of a trace, once",
  """Uploading traces, as a file or as a permalink, that reports success has collected every span of each uploaded trace that the store did not have, once and with its own ID and all its annotations, and nothing of those that it had. A trace's profile has one entry for each of its
  spans, with its name or else its ID: its Time is the longest of its timespan events, its TimeChildren that plus its direct children's Time, its TimeCum that plus its children's TimeCum. FindSpan finds a span exactly if the trace has it. The JSON form and the permalink on a trace's page
  are of the whole trace that the page shows, and every other recursive walk of a trace (its copy, its text, its index) reaches all children.""",
  "inputs histories",
  "every tree of spans, of any depth and width, and every list of uploaded traces",
  "The web app has no tests, and FindSpan's use two small trees.",
  "traceapp/trace.go traceapp/prof.go traceapp/app.go trace.go",
  [("collecting a trace", "collectTrace"), ("uploads", "App.uploadTraces and its callers"), ("profile", "App.calcProfile"), ("search", "Trace.FindSpan"), ("exports", "App.serveTrace")],
  "inductive check of recursive functions: symbolic path enumeration over the SSA form with loop summaries (each child walked once, accumulated values)",
  SOUND)
