VP = "value-provenance dataflow (gated SSA, abstract interpretation)"
p("C01", "Every label of a stored sample is indexed",
  "Processing a sample of metrics, traces or logs adds a label to its index for every non-empty schema URL, scope name and version, item name, severity text, trace, span and parent span id, and for every string attribute of its resources, scopes, spans, log records and data points of all five metric types, at every position of every list. The sample is also always indexed under a marker for its own kind. Labels carry the kind of the sample they belong to.",
  [I, H], "all telemetry messages of all three kinds, of any nesting and length, in any order within a batch",
  "Tests transform a handful of fixtures; a skipped field, list position or metric type shows only on inputs that use it.",
  ["internal/transform/transform.go", "internal/transform/metrics.go", "internal/transform/trace.go", "internal/transform/logs.go", "internal/labels/labels.go"],
  [("labels are encoded, translated and added to the positions of the sample", "internal/transform/transform.go"), ("walk over resources, scopes and items", "internal/transform/metrics.go, trace.go, logs.go")],
  VP, "Covers all inputs: every label is required under exactly the condition that the value exists, in loops that are never left early.")
p("C02", "A filter looks up exactly the label that indexing wrote",
  "For every kind of data and every filter on a property or attribute, the label looked up for the filter is the label which indexing writes for an item with that value, and no label of a different kind, property, key or value is equal to it. A label that was never written selects nothing and is no failure. A query without filters looks up the marker of its kind.",
  [I], "all filters (9 properties, 3 attribute classes) times all kinds, for all strings",
  "Encoding and lookup are written twice, in different packages and with different enumerations; tests try a few filters.",
  ["internal/store/scan.go", "internal/labels/labels.go", "internal/transform/transform.go", "gen/go/rq/v1/resource.pb.go", "gen/go/rq/v1/scan.pb.go"],
  [("filters are compiled to labels by converting the enumeration of the filter", "internal/store/scan.go CompileFilters"), ("label encoding", "internal/labels/labels.go Encode")])
p("C03", "A sample's time bounds cover all of its items",
  "After a sample is processed its lower time bound is the earliest and its upper bound the latest time of its items that have a time, over all items of all kinds and metric types. Times of other samples in the batch have no influence on it. The index is told the lower bound of the same sample.",
  [I, H], "all messages, all orders of items, all batches",
  "A bound is wrong only for particular orders of time stamps, or for items without time, or after another sample in the batch.",
  ["internal/transform/transform.go", "internal/transform/metrics.go", "internal/transform/trace.go", "internal/transform/logs.go"],
  [("running minimum and maximum", "internal/transform/transform.go Range, Timestamp")],
  VP + " with step evaluation of folds over all orderings", "The fold is evaluated on every ordering of the running bound, the item's time and zero, so a re-written minimum is judged by what it computes.")
p("C04", "Index bits are set for the right sample, label, shard and time",
  "Building the index of a batch sets, for each sample, each of its labels and each time unit (year, month, day, hour) of the sample, exactly the bit of that sample and label, in the shard the label belongs to. No label or sample of the batch is left out and nothing is carried from one sample to another.",
  [I, H], "all batches, samples, label sets and times, including label sets crossing shard borders",
  "Shards are a million labels wide, so tests never leave the first one; carried state shows only with several samples in a batch.",
  ["internal/batch/batch.go", "internal/batch/time.go", "internal/transform/transform.go"],
  [("position = sample * width + label % width in shard label / width", "internal/batch/batch.go makeFragments"), ("views per time unit", "internal/batch/time.go ViewsBuf")])
p("C05", "Saving stores data before indexing it, completely",
  "Saving a batch first stores the data of all its samples, then writes every index fragment of every shard and time unit, each in a transaction of its shard. When any of these steps fails the caller gets the error, and nothing is indexed unless storing data succeeded.",
  [I, F], "all batches, all failing steps",
  "Tests never make storage fail and use one shard.",
  ["internal/store/store.go", "internal/shards/shards.go"],
  [("order of calls, loops over shards and views", "internal/store/store.go SaveSamples")])
p("C06", "Records and their sample sets stay consistent",
  "Appending samples to the record of a time unit happens in one transaction which writes the record and the sets of sample ids for metrics, traces and logs, with each id added only to the set of its own kind. When a record exists, the new one has the content of the old one before the new rows, and the new sets contain the old ones. An error at any step means that nothing of that transaction is kept.",
  [I, H, F], "all sequences of appends of samples of any kind to the same and different time units, with failures",
  "Tests append a few samples to an empty database once; losing old content needs a second append to the same hour.",
  ["internal/dataframe/dataframe.go"],
  [("read, extend and write back record and sets in one update", "internal/dataframe/dataframe.go appendView")])
p("C07", "A sample is stored at the row of its id",
  "In every record a sample is at the row with the number of its id: missing rows before it are filled with empty data. Reading back uses the same numbers.",
  [I, H], "all ids, gaps between ids and histories of appends",
  "Tests use ids starting at 0 in one unit, where position and id are equal by accident.",
  ["internal/dataframe/dataframe.go"],
  [("row counter continues after the rows already stored", "internal/dataframe/dataframe.go appendView"), ("rows are selected by id", "internal/dataframe/dataframe.go Unmarshal")])
p("C08", "All time units of a sample are written and found",
  "A sample is appended to the record of each unit (year, month, day, hour) of its time, and a query reads for every range the records and index of the units that cover it, from first to last, boundaries included. Names of units are the same for writing and reading.",
  [I], "all times and ranges",
  "Ranges that need a partial unit at the start or end, or another unit than hours, are not in the tests.",
  ["internal/view/view.go", "internal/batch/time.go", "internal/dataframe/dataframe.go"],
  [("unit names", "internal/batch/time.go ViewsBuf"), ("search by range", "internal/view/view.go Search")])
p("C09", "A sample matches only if it has all labels of the query",
  "The samples found for a set of labels are those which have every label of the set, no matter how labels are distributed over shards, and in which time unit of the range the sample is. A label of a shard that has no data yet matches nothing.",
  [I, H], "all sets of labels, distributions over shards, and time units",
  "Tests have one shard, so combining shards is never exercised.",
  ["internal/shards/shards.go"],
  [("conjunction in a shard by column filters, between shards by intersection", "internal/shards/shards.go rows")])
p("C10", "Trimming keeps an item exactly when it satisfies all filters",
  "The result of a query keeps a span, log record or data point exactly when its resource, scope, name, ids, severity, attributes and time satisfy the filters of the query, each filter compared with the field it names, and its time is at or after the start and before the end of the range. Filters on fields of one kind apply wherever the kind has the field.",
  [I], "all data, all filters and ranges",
  "Tests use one filter at a time over fixtures that mostly have one value per field.",
  ["internal/visit/visit.go", "internal/visit/metrics.go", "internal/visit/trace.go", "internal/visit/logs.go"],
  [("accept functions are conjoined before an item is appended", "internal/visit/*.go Visit")])
p("C11", "Trimming preserves everything around the items it keeps",
  "An item kept by trimming is the original item, under a resource and scope with the original attributes, schema URLs, names and versions, and in a metric with the original name, description, unit, metadata, type, temporality and monotonicity. Resources, scopes and metrics appear only when they keep an item, and in the original order.",
  [I], "all data and filters",
  "A dropped field is only visible for inputs that set it; fixtures leave most empty.",
  ["internal/visit/metrics.go", "internal/visit/trace.go", "internal/visit/logs.go"],
  [("containers are rebuilt with copied fields", "internal/visit/*.go Visit")])
p("C12", "Every filter constrains the field it names, unambiguously",
  "Compiling filters makes each filter constrain only the field it names with its own value (ids are given in hex), a value set for a filter and the same value in data always agree, and different attributes are kept apart. Reusing the compiled form for another query leaves nothing of the filters before.",
  [I, H], "all filters and values; all sequences of queries",
  "Tests set one filter on a new object and compare against data with one attribute.",
  ["internal/visit/visit.go"],
  [("Compile dispatches on the property", "internal/visit/visit.go Compile"), ("hashing on both sides", "internal/visit/visit.go attr, matchAttr"), ("Reset before reuse", "internal/visit/visit.go Reset, Release")])
p("C13", "Combining results loses and duplicates nothing",
  "Combining the data of several samples gives data of the same kind in which every span, log record and data point of every input is present exactly once, under the same resource, scope and metric. The order of resources is the order in which they first appear.",
  [I], "all lists of inputs, with equal, partly equal and different resources, scopes and metrics",
  "Fixtures merge a few samples of one resource; each branch (new resource, new scope, new metric, known metric of each type) needs its own inputs.",
  ["internal/data/data.go", "internal/data/metrics.go", "internal/data/trace.go", "internal/data/logs.go"],
  [("maps from identity to the object that collects", "internal/data/*.go Collapse*")])
p("C14", "Only things with the same identity are combined",
  "Two resources are combined only when schema URL and attributes are equal, two scopes only within the same resource with equal schema URL, name, version and attributes, and two metrics only within the same scope with equal name, description, unit, metadata, type, temporality and monotonicity. Identities of different content are never equal by the way they are put together.",
  [I], "all pairs of resources, scopes and metrics (assuming that a 64 bit hash does not collide)",
  "Needs inputs that differ only in one field or only in where one string ends and the next begins.",
  ["internal/data/sort.go"],
  [("hash over length prefixed fields", "internal/data/sort.go")])
p("C15", "A scan returns what its request asks for",
  "A scan without a time range returns only the latest matching sample within the default window, a limit keeps at most that many samples (the earliest, or the latest when reversed) and reverse returns samples in descending order. The data comes from the kind that was asked for, and the same time bounds, derived from the request's time, offset and range, are used for finding and for reading samples.",
  [I], "all requests",
  "Tests scan with one or two requests.",
  ["internal/store/scan.go", "internal/x/x.go", "internal/dataframe/dataframe.go"],
  [("branches on the fields of the request", "internal/store/scan.go Scan"), ("time bounds", "internal/x/x.go TimeBounds")])
p("C16", "A failure is never reported as success or as an empty result",
  "When reading or writing storage, the index, a sequence, or a file fails while data is saved, scanned, translated or exported, the operation returns an error to its caller. An absent key is the only failure that may be treated as no data. A failure that ends the server, or keeps it from starting, ends the program with a non-zero code, and one that has no caller to go to, as in the periodic save, is logged.",
  [F], "all operations and all points at which storage, index or files can fail",
  "Tests never inject failures.",
  ["internal/store/scan.go", "internal/store/store.go", "internal/dataframe/dataframe.go", "internal/shards/shards.go", "internal/translate/translate.go", "internal/service/service.go"],
  [("errors are returned", "all of the storage path")])
p("C17", "Data of earlier runs is part of every query",
  "Operations over all shards include every shard that exists on disk, whether or not it was opened since the process started, in ascending order. A shard is opened under the name it was created with.",
  [H], "all histories of writing, restarting and reading",
  "Tests write and read in one process.",
  ["internal/shards/shards.go"],
  [("shards are listed from the directory", "internal/shards/shards.go list, get")])
p("C18", "Shared state is accessed only under its lock",
  "Every access to the list of open shards and to the buffer of received samples happens while the lock that guards it is held, exclusively when it is changed. Assigning the id of a received sample and adding it to the buffer is one critical section, so ids are in the order of the buffer.",
  [S], "all interleavings of exports, saves, queries and shutdown",
  "Interleavings are not explored by the tests; the race detector sees only those that happen.",
  ["internal/shards/shards.go", "internal/service/service.go"],
  [("mutexes", "internal/shards/shards.go Shards.mu, internal/service/service.go Service.dataMu, saveMu")])
p("C19", "A shard is opened at most once",
  "No two callers that need a shard at the same time both open it: whoever opens it has checked, while holding the exclusive lock, that nobody else did, and registers it before releasing the lock. Only a shard which opened without error is registered.",
  [S, F], "all interleavings of concurrent first uses of a shard",
  "Needs two goroutines between check and open.",
  ["internal/shards/shards.go"],
  [("double check under the lock", "internal/shards/shards.go get")])
p("C20", "Every lock is released on every path",
  "A function that acquires a lock releases it on every way out, including early returns and errors, and never releases one that it doesn't hold.",
  [S, F], "all paths of all functions that use a lock",
  "A path that returns with the lock held blocks later callers forever; tests do not take error paths.",
  ["internal/shards/shards.go", "internal/service/service.go"],
  [("Lock, defer Unlock", "all users of sync mutexes")])
p("C21", "Acknowledged samples are saved, also at shutdown",
  "Every sample whose export was acknowledged is in the buffer that the next save takes, and is passed to storage exactly once. Shutting down saves the buffer before storage is closed, even if the context is already cancelled, and no save happens after that.",
  [S, H], "all schedules of exports, periodic saves and shutdown",
  "Tests do not run the service.",
  ["internal/service/service.go", "cmd/rq/main.go", "internal/samples/samples.go"],
  [("flush swaps the buffer under the lock", "internal/service/service.go flush"), ("Close flushes first", "internal/service/service.go Close")])
p("C22", "Every transaction is finished",
  "A transaction of the index that is begun is committed or rolled back on every path, including when the work inside fails. Writes are committed only if all of the work succeeded.",
  [F], "all paths through code that begins a transaction",
  "An unfinished write transaction blocks the shard forever; only error paths do it.",
  ["internal/shards/shards.go"],
  [("deferred or explicit rollback", "internal/shards/shards.go")])
p("C23", "Pooled objects are clean, and not used after they are returned",
  "An object that is put back in a pool has been reset, so that nothing of its last use can show in the next, and nothing that is used later refers to it: whoever returned it no longer uses, keeps or returns it or its parts. On every path an object is given back at most once (one that is never given back is left to the garbage collector). What one script defines is not visible to the next.",
  [H, S], "all sequences of operations that share pools",
  "State left over shows only when a second operation reuses the object.",
  ["internal/bitmaps/bitmaps.go", "internal/labels/labels.go", "internal/visit/visit.go", "internal/data/sort.go", "internal/arena/arena.go", "internal/translate/translate.go", "internal/f2/attr.go", "internal/js/rq.go", "internal/render/pool.go", "internal/compress/zstd.go", "internal/keys/keys.go", "internal/batch/time.go"],
  [("Reset in Release", "pools of each package")])
p("C24", "Components shut down in the order of their dependencies",
  "When the server stops or fails to start, every component that was opened is closed once, and nothing is closed while something that was built on it is still open: no requests are accepted after the service is closed, and the database is closed last. Closing a component closes everything it opened, whatever fails meanwhile, and its background work does nothing any more once it is closed.",
  [F, S], "all ways to leave the main function, including failures at each step of starting",
  "Tests do not run the server.",
  ["cmd/rq/main.go", "internal/service/service.go", "internal/self/self.go"],
  [("order of deferred calls", "cmd/rq/main.go run")])
p("C25", "Compressed streams round trip and can be misused safely",
  "Compressing and then decompressing gives back the input, errors of the compressor are returned, and a stream may be closed or read again after its end without crashing or touching an encoder or decoder that is already used by someone else.",
  [I, H, S], "all data; all sequences of calls on a stream",
  "Tests do not call the codec after its end.",
  ["internal/compress/zstd.go", "internal/compress/grpc.go", "internal/arena/arena.go"],
  [("the encoder is dropped when it is returned", "internal/compress/grpc.go")])
p("C26", "Scripts can reach every function the library promises",
  "Every method that the script library calls on the host objects exists there under the same name, with a compatible number and type of parameters, and a function of the library passes what it is given to the host function of its own name. The fields, functions and constants that the library declares for data exist there, with these types. The bundled library is in step with its sources.",
  [G], "all methods of the script library",
  "A misspelled or removed binding fails only when a script calls it; tests call a few.",
  ["internal/js/scan.go", "internal/js/rq.go", "internal/js/bundle/index.js", "packages/rq/src/core.ts"],
  [("methods are bound by reflection under their Go names", "internal/js/rq.go newJS")])
p("C27", "Query builder calls set the field they name",
  "Each call of the query builder changes exactly the part of the scan request that it names to the given value: kind, limit, offset, time, reverse, filters on each property and attribute class, and time ranges. Relative ranges end at, and are computed from, the evaluation time of the scan.",
  [I], "all values and all sequences of builder calls",
  "Tests use a few builder methods and can't see which request they produce.",
  ["internal/js/scan.go"],
  [("one method for each field", "internal/js/scan.go")])
p("C28", "Query results are trimmed with the request they were scanned for",
  "The data a script gets is the result of scanning its request trimmed by the filters of the same request and by its time bounds at the clock of the runtime. It is returned whole only when the request has neither a time range nor filters, and errors of the scan reach the script. Scripts scan the server they are run against, and what they print or render is written to the standard output.",
  [I, F], "all requests and results",
  "Tests return fixtures from a stub and use the default request.",
  ["internal/js/rq.go", "internal/visit/visit.go", "internal/x/x.go"],
  [("Scan composes scan function, bounds and trimming", "internal/js/rq.go Scan")])
p("C29", "Compiled scripts are cached under what determines them",
  "A script taken from the cache was completely written by a compilation of the same source with the same version of the library. A failed compilation or write leaves neither a cached script nor temporary files behind, and errors of compiling and executing reach the user.",
  [C, F, I], "all scripts, failures and crashes while compiling and writing",
  "Tests compile valid scripts and never read the cache.",
  ["internal/commands/query/query.go", "internal/compile/compile.go"],
  [("key from version and content", "internal/commands/query/query.go build"), ("write and rename", "internal/commands/query/query.go writeFile"), ("temporary package", "internal/compile/compile.go")])
p("C30", "Own spans are exported without loss",
  "Converting the server's own spans keeps ids, parent, trace state, name, kind, times, attributes, events, links (with the trace state of each), status and dropped counts of every span, each in its own field, and every span is returned under its own resource and scope.",
  [I], "all spans",
  "Tests convert one or two fixed values of each kind.",
  ["internal/self/trace/tracetransform/span.go", "internal/self/trace/tracetransform/attribute.go", "internal/self/trace/tracetransform/resource.go", "internal/self/trace/tracetransform/instrumentation.go"],
  [("field by field conversion", "internal/self/trace/tracetransform/span.go")])
p("C31", "Own metrics are exported without loss",
  "Converting the server's own metrics keeps name, description, unit, type, temporality, monotonicity, times, values, buckets, bounds, exemplars and attributes of every metric and data point, each in its own field. Metrics of an unknown type or temporality are left out and reported as an error while all others are still converted, and no error is reported otherwise.",
  [I], "all metrics",
  "Tests convert one or two fixed values of each kind.",
  ["internal/self/metrics/transform/metricdata.go", "internal/self/metrics/transform/attribute.go"],
  [("field by field conversion", "internal/self/metrics/transform/metricdata.go")])
p("C32", "Incomplete telemetry never crashes the server",
  "Indexing, trimming, combining and rendering accept any message that clients can send: missing resource, scope, value, metric data or points of any level, ids of any length and labels of any length never cause a crash.",
  [I], "all messages that can be decoded",
  "Fixtures are complete messages.",
  ["internal/transform/transform.go", "internal/visit/visit.go", "internal/data/sort.go", "internal/render/attribute.go", "internal/f2/attr.go"],
  [("nil checks and getters", "all code that walks telemetry messages")])
p("C33", "Labels and ids translate one to one",
  "A label always translates to the same id, different labels to different ids, and the id back to the label: both directions are stored in the same transaction, under separate name spaces, only when the label has no id yet, with a new number of the sequence. Looking up a label never creates one.",
  [H, S, I], "all sequences of translating and finding labels, also by concurrent callers",
  "Tests translate few keys in one goroutine.",
  ["internal/translate/translate.go", "internal/store/store.go", "internal/f2/translate.go"],
  [("get or create in one update", "internal/translate/translate.go TranslateKey")])
p("C34", "Byte keys handed to storage or caches are never overwritten",
  "Memory given to a transaction or used as a key that outlives the call is not written again afterwards, and keys that are derived from the same prefix don't share memory. Pooled buffers are not returned while a transaction still refers to them. Memory that storage only lends for the time of a call is copied before it is kept.",
  [H, S], "all sequences of operations",
  "Corruption shows only when a buffer is reused before commit, or when a prefix has spare capacity.",
  ["internal/translate/translate.go", "internal/dataframe/dataframe.go", "internal/f2/id.go"],
  [("clones and clipped prefixes", "internal/translate/translate.go")])
p("C35", "Stored metric points carry their own data",
  "Converting metrics to points writes one row for each data point of all five types, with the name, description, unit, kind, times, value, temporality and monotonicity of its own metric and point, the attributes of its resource, scope and point, a new id, and index positions of that id for each of its attributes and its name. Nothing of another point or metric is carried over.",
  [I, H], "all metrics data",
  "The only test prints the record without comparing it.",
  ["internal/f2/metrics.go", "internal/f2/attr.go", "internal/f2/pool.go"],
  [("one loop for each type", "internal/f2/metrics.go"), ("attributes and their columns", "internal/f2/attr.go")])
p("C36", "Received telemetry is handed over unchanged",
  "A received export request of metrics, traces or logs is kept as a sample of the same kind that holds all of the request's resources. It is acknowledged only after it was added to the buffer.",
  [I, F], "all requests",
  "Tests do not call the collectors.",
  ["internal/service/service.go", "internal/service/api.go"],
  [("Export builds the sample", "internal/service/service.go")])
p("C37", "Bitmap row operations do not change their operands",
  "Combining, intersecting, subtracting or shifting rows never changes the rows they are computed from, and counts always agree with the content.",
  [I, H], "all rows and sequences of operations",
  "Tests check results of operations, not whether operands are changed later.",
  ["internal/rows/row.go", "internal/rows/bsi.go"],
  [("copy on write of segments", "internal/rows/row.go")],
  na="rows are owned by bitmap internals of a dependency (gernest/roaring) whose sharing of containers is decided at run time by reference state; nothing in this repository calls the affected operations outside of that package, and a static rule that is exact about aliasing inside the dependency is out of reach")
p("C38", "Values survive the record format",
  "Every field of a message that is stored as a record is read back with the value it had, and belongs to the field it was written for: for every scalar type, attribute value and nested message, on its own, repeated (every element, in order) or as the chosen member of a oneof (also when it has the zero value), and a field that was not set is not set when it is read. Maps are not supported; column names are the names of the fields.",
  [I], "all messages and values",
  "Round trip tests cover a few messages.",
  ["internal/arrow3/node.go", "internal/arrow3/arrow3.go", "internal/arrow3/well_know.go"],
  [("builders and readers chosen by field kind", "internal/arrow3/node.go")])
p("C39", "Configuration takes effect",
  "Every command line flag which a command reads is declared with that type, and every declared flag has an effect: the server listens at the given address, commands connect to the given address, which by default is the server's, the level decides what is logged, and all data is kept in the given directory, records and index apart.",
  [X], "all flags",
  "Tests do not start the program.",
  ["cmd/rq/main.go", "internal/commands/home.go", "internal/commands/query/query.go"],
  [("flags by name", "cmd/rq/main.go")])
p("C40", "Everything saved survives a crash of the process",
  "After a crash at any moment, data that was saved is either completely visible or, if it was not yet saved, not visible at all, in records and index alike.",
  [C], "all crash points while saving",
  "Tests do not crash the process.",
  ["internal/store/store.go", "internal/dataframe/dataframe.go", "internal/shards/shards.go"],
  [("transactions of the record store and of each shard", "internal/store/store.go SaveSamples")],
  na="records and the shards of the index are separate files without a common transaction; which of them survive a crash is decided by badger's and rbf's write ahead logs at run time, which source analysis of this repository can't reach (the order of the steps and one transaction per unit are decided as C05 and C06)")
p("C41", "Bit sliced integers compute exact results",
  "Sums, minima, maxima and comparisons over bit sliced integers are the arithmetic results for all stored values.",
  [I], "all sets of values and filters",
  "Tests use few small values.",
  ["internal/rows/bsi.go"],
  [("bit plane arithmetic", "internal/rows/bsi.go")],
  na="arithmetic over bit planes with a number of planes known only at run time; proving it needs induction over values (a solver or proof), not a source level rule")
p("C42", "Rendered tables show the numbers that are stored",
  "Text output shows each data point with its time, value in its unit and attributes.",
  [I], "all metrics data",
  "One fixture is rendered.",
  ["internal/render/metrics.go", "internal/render/unit.go"],
  [("table rows", "internal/render/metrics.go numeric")],
  na="exactness of formatted numbers depends on run time values and formatting libraries; no source level rule decides it")

# ---- what is claimed, besides those above
claim("C02", VP + ", comparison of the label templates of writer and reader", "Compares for every kind, property and attribute class the label term which indexing writes with the one a filter looks up; the one known ambiguity of the key=value encoding is a recorded finding.")
claim("C10", VP + ", exhaustive evaluation of the keep condition", "The condition under which an item reaches the result is compared, as a boolean function over its atoms, with the one required by the filters; several values of one property are alternatives.")
claim("C11", VP + ", field-by-field copy tracking", "Follows every object of the result; the field sets come from the message types, so a new field is an obligation too.")
claim("C12", VP + ", table of properties against filter sets", "Every property of the schema must add to its own set with an unambiguous encoding, and every set must be cleared before reuse.")
claim("C13", VP + ", placement of every element in the combined result", "Every way of an element into the result is found (taken over with its container, or appended); the ways are shown to be complete, exclusive and to target the same list of an object registered under the same key.")
claim("C14", VP + ", injectivity of key encodings", "Shows that every part of an identity is part of the hashed bytes, in a form that can be parsed back, and that metric types differ by a constant; equality of 64 bit hashes of different content is out of scope.")
claim("C15", VP + ", symbolic evaluation of a scan", "Times are compared as linear forms over the request; the index and record store behind them are other properties. The length of the default window is only required to be a constant into the past.")
claim("C27", VP + ", effects of every builder method", "Every write of a method is found; a method may write only what it names, and the value is the one given. Calendar arithmetic of the time library is trusted.")
claim("C28", VP + ", provenance of what trims the result", "The filters, range and clock that trim the result are traced to the request which was scanned.")
claim("C38", VP + ", evaluation of the writer and reader of every kind of field", "Writers and readers are computed for each kind of field (with all combinations of repeated and oneof) and executed symbolically; the calls they make on column builders and arrays are compared. The arrow library (builders return what was appended) and the parquet encoding between are trusted, text is valid UTF-8, maps are outside.")
claim("C36", VP + ", provenance of the stored sample", "Every way to acknowledge an export is shown to add one new sample with all resources of the request.")
claim("C16", VP + ", refutation of success conditioned on a failed operation", "Every operation whose last result is an error, in every function that returns one, is an obligation: the function must not return a nil error when the operation failed, except when the failure was found to be an absence by errors.Is. In functions without a caller to tell (goroutines, closing, main) the failure must be logged or end the program.")
claim("C17", VP + ", provenance of the shard numbers that are visited", "Every opening uses the directory of shards and the decimal form of the number it is registered under; the list that is visited holds the number of every entry of that directory whose name is one.")
claim("C18", VP + ", lockset analysis over path conditions", "For every place that changes after construction there is one lock held (exclusively for writes) at every access found from any exported function or goroutine. What another thread may have changed is forgotten when a lock is acquired.")
claim("C19", VP + ", check-then-act under one critical section", "The registry is seen to lack the shard since the exclusive lock was acquired; success, and nothing else, is registered before that lock is released.")
claim("C20", VP + ", lock balance over path conditions", "The condition under which each lock is held is computed as a boolean function along every path of every function that uses locks. Panics are not paths.")
claim("C21", VP + ", critical sections of the sample buffer", "Taking, replacing, saving and closing are ordered by the critical sections they happen in. A save that fails is logged and the batch is lost (see C16 and DESIGN.md).")
claim("C22", VP + ", typestate over path conditions", "The condition for a transaction to be begun implies the one for it to be committed or rolled back; a commit is refuted when some work on the transaction failed.")
claim("C05", VP + ", provenance and order of the writes of a save", "Every write of index data is found with its shard, name and content, which are those of one entry of the fragments; that all entries are visited follows from the loops. That fragments themselves are right is C04.")
claim("C06", VP + ", content tracking of the keys written in a transaction", "Every key and value written by an append is traced to the previous record and sets and to the new samples; a key that does not exist is told from a failure. The parquet library is trusted.")
claim("C07", VP + ", loop invariants for the row counter", "The row of a sample is shown to be its id by the recurrence of the counter over samples and gaps; needs ids ascending in a batch (C18).")
claim("C08", VP + ", calendar arithmetic on symbolic times", "The units written and the first and last unit read are compared as calendar fields in UTC of the sample's time and of the bounds of the range.")
claim("C09", VP + ", algebra of the sets of rows with loop-carried objects", "The one search of the index is found with its shard, view and conditions; the set that is returned is followed through the loop over shards as an object that each iteration replaces or intersects. bitmap column and row filters of the roaring library are trusted.")
claim("C29", VP + ", provenance of the cached script and of what is executed", "The name of a cached script must be computed from the whole source and the version, only a script that was compiled, written and closed without an error may be moved to that name, within one directory; what is executed is one of the two. Compile's temporary directory is removed on every path, and contains every module of the library under the name scripts import. Collisions of the hash and damage to files in place are not considered.")
claim("C30", VP + ", compared with a conversion table", "All fields of exported spans for all values, types of attributes and lists; grouping by resource and scope.")
claim("C31", VP + ", compared with a conversion table", "All fields of exported metrics for all kinds of data, points, exemplars and attributes; what is left out is reported.")
claim("C39", VP + " of main and of every command's action", "Declared flags, reads and their types, variables, what each value reaches; where data is kept; listening and connecting addresses; log levels. retentionPeriod is a known finding.")
claim("C24", VP + ", typestate of components over path conditions", "For every component that the server's run function opens, the condition under which it was opened must equal the condition under which its closing method is called, with closings ordered against the components it was built from; constructors and closing methods of the components are compared field by field. In-memory caches left behind by a failed constructor, and handlers that grpc does not wait for, are out of scope.")
claim("C34", "alias analysis of byte slices over the SSA form: provenance of memory, may-write and may-release events ordered by control flow", "Every byte slice given to a transaction, an entry, a sequence or a cache is an obligation: no instruction that can run before the transaction ends writes to memory it may refer to, or puts it in a pool; memory that several callers can reach is not used. Values of library functions are assumed fresh except those listed as sharing.")
claim("C32", VP + ", conditions under which message pointers are missing, slices short, assertions fail and divisors are zero", "Every access in the code that receives, indexes, trims, combines, converts and renders telemetry is an obligation. Decoders are assumed to give lists and set alternatives without missing elements; the data that is combined is assumed to be of one kind (C01, C15).")
claim("C26", VP + ", symbolic evaluation of the library's syntax trees against Go method sets", "The library is evaluated over the syntax trees of its sources and of the bundle, with inlining; host calls are resolved in the method sets of the Go types that are bound. How goja converts values is assumed as documented; what host functions do is C27's subject.")
claim("C25", VP + ", model of the codec as what was written since its last reset", "One-shot functions must return or write exactly the compressed or decompressed form of their input on success; methods of types that hold a codec are executed with the codec present and gone. The codec library is trusted; errors of its Reset show when reading. Writing to a stream that was closed is not covered (the RPC library never does).")
claim("C35", VP + ", state of the point at each append, expansion of sets to their members", "Each kind of metric is executed symbolically with every combination of parts; what a point holds where it is appended is compared with its own data point, metric, scope and resource. Pooled points are reset before they are put back. arrow3.Append copying what it is given (it appends to column builders), roaring and xxhash are trusted.")
claim("C33", VP + ", comparison of the key and value templates of writer and readers, conditions of writes", "The one update, its lookup, new number and two writes are found in TranslateKey; keys are computed from what New stores, and readers must use the same. Uniqueness of badger's sequence numbers and conflict detection of its transactions are assumed.")
claim("C04", VP + ", provenance of every bit that is set", "Row, column, shard, view and the map a bitmap is kept in are traced for every bit; elements at the same position of lists made by one loop belong to the same sample. rbf's AddRoaring and the bitmap library are trusted.")
claim("C23", VP + ", typestate of pooled objects: the memory of the object where it is put, references that outlive the put", "The memory of every object that is put in a pool is evaluated where it is put; each field must be independent of its use or be overwritten by every use before it is read. After the put nothing may refer to the object, its elements or its buffers. Resets of library types (bytes.Buffer, zstd, arrow builders) are modelled from their documentation.")
