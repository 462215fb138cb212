P("C01", "A local chunk file is removed only when its data is safe or caller said so",
  """The data file of a chunk is removed from the local disk only after its upload to the remote storage succeeded, or when it was seen to
  be empty or corrupted, or when the caller explicitly asked for no sync; deletions made by the system itself (sweep) always ask for the sync and never
  delete the remote copy. The remote copy is deleted only when the caller asked for it, and a deletion is reported as successful only when the
  local removal succeeded.""",
  ["inputs", "fault_sequences", "crash_points"], "every path through every entry point of the chunk storage that can remove, rename or truncate a file or delete a remote object, for every outcome of the storage and file calls",
  "Tests sample the sunny path and one missing-object case; whether any error path reaches the removal depends on every combination of failing calls.",
  ["pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/scanner.go", "pkg/storage/chunkfs/provider.go"],
  [("delete protocol", "Replicator.DeleteChunk"), ("upload", "Replicator.zipAndUploadChunk"), ("sweep", "Scanner.sweep"), ("empty/corrupted removal", "Provider.DeleteFileIfEmpty, Scanner.buildScanInfos")],
  technique="path-sensitive interprocedural typestate over file and object-store effects (go/ssa)",
  how="""Every path from every entry point of chunkfs is walked (callees inlined). Each os.Remove/Rename/Create is classified by the provenance of its path (chunk file of an id, auxiliary file, bookkeeping).
  At each removal of a chunk file one of the justifying facts must hold on the path: upload of the same id returned nil, size observed 0, error known to be corruption, sync flag known to be unset.
  Remote Delete needs the remote-delete flag; internal DeleteChunk calls need constant flags with sync and without remote delete; a nil result needs the removal to have succeeded.""",
  note="All paths of all entry points, with loops abstracted by widening; trusts that the object store and the file system do what they report. Does not decide what a concurrent process outside the server does to the files.")
P("C02", "Archives are uploaded complete, and downloaded chunks are installed atomically",
  """An archive is uploaded only after the whole chunk file was copied into it without error and the archive and its file were finished and closed
  without error, under an object key derived from the id of the archived chunk. A downloaded chunk appears under its final file name only by renaming a file whose
  complete content was extracted from the archive without error; a chunk file is never created or truncated in place, except a new one. A download reports success only then, or when the file was already there.""",
  ["fault_sequences", "crash_points", "inputs"], "every path of upload and download, each file, archive and object-store call succeeding or failing",
  "Tests use a healthy disk and object store; partial writes and failing closes never happen in them.",
  ["pkg/storage/chunkfs/replicator.go", "golibs/files/ziputil.go"],
  [("archive and upload", "Replicator.zipAndUploadChunk"), ("download", "Replicator.downloadZip, Replicator.unzip"), ("zip helpers", "files.NewZipWriter, files.NewZipIterator")],
  technique="path-sensitive provenance and typestate over file/zip/object-store calls (go/ssa)",
  how="""On every path each handle is tracked from open to close with the outcome of copy, zip close and file close. At Storage.Put the reader must be a fresh handle of a file produced on this path by create -> zip entry ok -> copy ok from the chunk file -> zip close ok -> file close ok, the key containing the chunk id. At rename to a chunk file the source must be written and closed without error; at a nil result of DownloadChunk the chain rename <- extracted entry <- archive <- Storage.Get of the id must hold.""",
  note="All paths; assumes io.Copy copies everything when it returns nil and that rename is atomic. The content of the archive is not inspected.")
P("C03", "Exclusive access to a chunk is granted only when nobody uses the chunk",
  """Write access to a chunk is granted only while the chunk is idle or opened, delete access only while nobody reads or writes it, and opening is refused or waits while the
  chunk is being written or deleted. Every state change wakes up the waiters, waiting always ends when the context is cancelled or the accessor is closed, and a refused request leaves the state unchanged.""",
  ["schedules", "histories"], "every state of the per-chunk access automaton and every operation on it, for all interleavings (each operation is one critical section)",
  "Tests run a handful of sequences; the automaton has to be right from every state and for every interleaving.",
  ["pkg/storage/chunkfs/caccessor.go"],
  [("access automaton", "ChunkAccessor.SetWriting, openChunk, closeChunk, setDeleting, SetIdle"), ("waiting", "ChunkAccessor: state change notification channel")],
  technique="automaton extraction by path-sensitive symbolic abstract interpretation of the critical sections (go/ssa)",
  how="""Each operation of the accessor is walked from every abstract state of the entry for the id (absent or any state constant); the resulting transition, the grant/refusal result, the lock state and the notification are extracted and compared with the required automaton: who may be granted from which state, which state results, refused leaves unchanged, waiters are signalled, waits select on the context and on close.""",
  note="Complete over states and operations of the extracted automaton; the mutual exclusion itself is decided by requiring every access to the state under the lock.")
P("C04", "Exclusive chunk access is held for every file change and always given back",
  """Records are appended only by a caller holding the write access of the chunk, and chunk files are removed or replaced only while exclusive access to that chunk is held.
  Every path that obtained exclusive access gives it back exactly once, including error paths, and no path releases access it did not obtain.""",
  ["schedules", "fault_sequences"], "every path of append, upload, download, delete, open and sweep, for every outcome of the calls in between",
  "A leaked or foreign release needs an error at a particular point or a particular interleaving, which no test produces.",
  ["pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/provider.go", "pkg/storage/logfs/locallog.go"],
  [("acquire/release pairs", "SetWriting/SetIdle in locallog.appendRecords, setDeleting/SetIdle in Replicator and Provider.DeleteFileIfEmpty, openChunk/closeChunk in Provider")],
  technique="interprocedural path-sensitive typestate of acquire/release pairs (go/ssa)",
  how="""Same walk as C01: acquisitions are recorded with the id and the result; at each file effect a successful acquisition of the same id must be open, at SetIdle it must be open (and closes it), and at every exit all acquisitions must be known to be refused or released.""",
  note="All paths including deferred releases; one level of ownership transfer (Provider opens on behalf of the cache) is decided at the provider's own entry points.")
P("C05", "An append is published last, and a failed append changes nothing",
  """When records are appended to a chunk the records counter in the file header is written only after all payload and index writes, and it equals the chunk's new total; nothing is written into the file after it.
  If appending fails, the counters and positions of the chunk are as they were before. When the file grows, the records index is moved to the new end of the file before the append goes on, and opening or reading an existing chunk never writes into it.""",
  ["inputs", "crash_points", "fault_sequences"], "every path through append, grow, open and read of a chunk, for any chunk content and any records",
  "Tests append until the chunk is full but cannot stop the process between two writes, nor fail the grow.",
  ["pkg/storage/chunkfs/chunk.go", "golibs/files/mmfile.go"],
  [("append", "Chunk.AppendRecords"), ("grow", "Chunk.growForWrite"), ("open", "Chunk.Open"), ("header", "Chunk header counter at the beginning of the mapped file")],
  technique="path-sensitive effect ordering on memory-mapped writes with symbolic offsets (go/ssa)",
  how="""Writes into the mapped file are recognised by dataflow from MMFile.Buffer (copy, byte stores, encoding/binary puts) and classified as header or body by their offset; the order, the published value, the restoration of changed fields on error exits and the source/destination of the index move after a grow are checked on every path.""",
  note="All paths; loops are summarised. Program order is checked: it is assumed that the kernel writes mapped pages back only when the process dies in a way that keeps them (no power loss ordering).")
P("C06", "Mapped chunk memory is touched only while the chunk is locked and open",
  """The memory-mapped content of a chunk is read only under the chunk's read or write lock and changed, re-mapped or unmapped only under its write lock, and a closed chunk refuses operations instead of touching unmapped memory.
  Readers keep the chunk locked from opening to closing, every opened reader is closed exactly once and before its chunk is given back to the cache, and record payloads that leave the chunk layer are copies, never slices of the mapping.""",
  ["schedules", "inputs", "fault_sequences"], "every path through the chunk, its readers and their users in the log and query layers; all interleavings through the lock discipline",
  "A use of unmapped memory crashes the whole server only under a particular interleaving of read, append and eviction.",
  ["pkg/storage/chunkfs/chunk.go", "pkg/storage/logfs/locallog.go"],
  [("chunk lock", "Chunk.lock, Chunk.OpenChunkReader, ChunkReader.Close"), ("borrowing", "localLog: GetOpenedChunk/Release"), ("payload copies", "locallog.readRecords")],
  technique="lockset typestate, borrow pairing and escape analysis of mapped memory (go/ssa, path sensitive + taint)",
  how="""Every access to the chunk's mapping and counters is checked against the lock mode held on the path; OpenChunkReader must return with the read lock and Close must release it. In the users, a reader must be used and closed while its chunk is borrowed and before it is released. A taint analysis follows bytes returned by readers: they must not reach results without a copy.""",
  note="All paths of the package's entry points and of the users in the module. Lock discipline implies safety for all interleavings; it assumes that the chunk is not shared by other means than the provider.")
P("C07", "Chunk files stay within their limits and their index format agrees",
  """A chunk file never grows beyond the configured maximum, records are written only where room was established (or made by growing) beforehand: the payload right behind the last record, its index entries right before the existing ones, and the two never overlap. No mapping exceeds the size of the file.
  The size of a mapping is recorded when it changes, and the records index is encoded and decoded with the same layout; the full check of a chunk looks at the order, place and end of all index entries, beginning with the first record.""",
  ["inputs", "histories"], "every path through growing, appending, mapping and the index codec, for any record sizes",
  "The limits depend on the sizes of the records and on the history of the chunk; the tests sample a few.",
  ["pkg/storage/chunkfs/chunk.go", "golibs/files/mmfile.go"],
  [("growth", "Chunk.growForWrite"), ("mapping", "MMFile.Grow, NewMMFile, Buffer"), ("index codec", "metaBuf.put, metaBuf.get")],
  technique="path-sensitive guard checking and codec symmetry with symbolic linear offsets (go/ssa)",
  how="""The argument of each grow must be bounded by MaxChunkSize on the path; body writes need the room check or a successful grow; the mapped file's offset and length checks, its size field updates, and the drop of the old mapping are checked on every path; the offsets, widths and byte order of the index encoder and decoder are extracted as linear terms and must agree.
  The room is proved: the function that counts what the records need is checked to count payload and index entry of exactly the records it gives back; with its result as the need, size - free offset - entry size * records - need >= 0 must be entailed by the facts of the path (including the rounding of the growth) at every write. The positions of the mapped buffers written to are compared with the free offset and the index as linear terms. The loop of the full check must step through the index from 0 to the number of records and test each entry.""",
  note="All paths. The upper limit on how many records are tried (writable) is pinned by an existing unit test and not judged here; numeric overflow is not decided.")
P("C12", "A failed storage or network call is never reported as success",
  """An operation of the metadata backends, the metadata cache, the log storage, the chunk storage, the object stores and the gRPC/REST service returns an error when a call it depends on failed,
  unless the failure was recognised as an expected outcome (a sentinel such as not-exist, end-of-data, closed). Iterations over database rows ask for the iteration error before reporting success.
  The exceptions are: a partially done append whose written records were registered, and probes and clean-ups (closing after use, removing temporary files, rollback after an error).""",
  ["fault_sequences", "inputs"], "every error-returning call in these packages, on every path of the function that makes it, including every iteration of its loops",
  "Tests run on healthy databases, disks and object stores; a dropped error shows only when that particular call fails.",
  ["pkg/storage/buntdb/buntdb.go", "pkg/storage/postgres/postgres.go", "pkg/storage/logfs/locallog.go", "pkg/storage/chunkfs/replicator.go", "pkg/api/service.go", "golibs/sss/s3/storage.go"],
  [("metadata backends", "buntdb.Storage, postgres.Storage"), ("log storage", "logfs.localLog"), ("chunk storage", "chunkfs"), ("API", "api.Service, rest.Rest")],
  technique="path-sensitive interprocedural error propagation analysis (go/ssa)",
  how="""Each function with an error result is walked over all paths (helpers without error result are inlined). Every call that returns an error is an obligation: on every path to an exit whose error may be nil, the error must be known nil, be part of the returned error, or be known to equal a sentinel / satisfy an errors.Is / be handed to a helper that decides; an error overwritten by the next loop iteration counts as dropped. sql/sqlx Rows.Next needs a Rows.Err before success.""",
  note="All paths of every error-returning function of the listed packages. Does not decide whether the error text or kind is right (C13 decides the API codes).")
P("C32", "Replication bookkeeping: nothing is forgotten and nothing is marked too early",
  """The scanner marks a chunk as replicated only when its upload succeeded, with a time taken before the upload started; it skips a chunk only if it was modified within the quiet period or replicated after its last modification, and writes the results down afterwards.
  Chunks are swept only while the folder is over its maximum size, those not modified for the longest time first, and until it is below the minimum, the size of the folder going down exactly by the chunks removed, and a chunk is dropped from the bookkeeping only when its removal succeeded. When two facts about a chunk are put together, the later modification time stays, and what was noted about a chunk is read before the note is removed; the time of a replication is never one in the future.""",
  ["histories", "fault_sequences", "schedules"], "every path through a scan round, for any folder content and any outcome of uploads and deletions",
  "Losing track of a chunk needs an upload failure or a modification at a particular moment of the scan.",
  ["pkg/storage/chunkfs/scanner.go"],
  [("replication round", "Scanner.replicate"), ("sweep", "Scanner.sweep"), ("scan file", "scanInfos.readFromFile, writeToFile")],
  technique="path-sensitive typestate per loop iteration over the scan bookkeeping (go/ssa)",
  how="""Per iteration of the replication loop: a store of the sync time needs a successful upload of this iteration and a clock value taken before it; an iteration that neither uploads nor sees one of the two skip conditions is reported; the bookkeeping delete needs a nil removal result for the same id; deletions need the size comparisons with the configured thresholds on the path.""",
  note="All paths of one scan round with the loops unrolled abstractly; the accuracy of file sizes and modification times is trusted.")
P("C21", "Shared in-process state is touched only under its lock",
  """The caches, the in-memory key-value and object storages, the block allocator, the deferred-call scheduler, the chunk access table and the cancellable context guard their changing fields (and the maps and heaps behind them) with their mutex:
  every read and change after construction happens while that mutex is held in a sufficient mode. A mutex is released on every exit of an operation and never by somebody who does not hold it; it is not locked twice, and nobody waits on a channel or sleeps while holding one.""",
  ["schedules", "histories"], "every path of every entry point of these types (including their goroutines), hence every interleaving of them",
  "A data race or a self-deadlock needs a particular interleaving or an error path; the race detector sees only what a test happens to run.",
  ["golibs/container/lru/releasable.go", "golibs/container/lru/ecache.go", "golibs/kvs/inmem/inmem.go", "golibs/sss/inmem/storage.go", "golibs/timeout/timeout.go", "golibs/container/bytes/blocks.go", "golibs/context/cnclderr.go", "pkg/storage/chunkfs/caccessor.go"],
  [("caches", "lru.ReleasableCache, lru.ECache"), ("in-memory storages", "kvs/inmem.service, sss/inmem.Storage"), ("scheduler", "timeout.callControl"), ("block allocator", "bytes.Blocks"), ("chunk access table", "ChunkAccessor"), ("context", "cancelErrCtx")],
  technique="interprocedural path-sensitive lockset analysis with inferred guarded fields (go/ssa)",
  how="""The guarded fields are inferred: of every struct with exactly one mutex, the fields (and containers behind them) that any function changes after construction. The engine then walks every entry point, goroutine body and escaping closure and keeps the set of held locks per path: each access is an obligation (write lock for changes), so are each unlock, each exit and each blocking channel operation or sleep.""",
  note="All paths. Fields used only through sync/atomic are left out; chunks are decided by C06, because their lock is handed over to readers. Two objects of one type are told apart by their symbolic identity.")
P("C10", "The metadata cache never serves what was changed or deleted",
  """After an operation of the cached metadata storage that updated a log, wrote chunk infos or deleted logs has succeeded, no read through the cache returns the former log or chunks: the affected keys are removed from the affected caches after the storage was changed, for every deleted log,
  and a value that was being created while its key was removed is not cached. Only successfully created values are cached, the caches stay within their size, nobody who waits for a value created by another request is left waiting,
  the cached chunks of a log are ordered by their IDs so that the last one is the last chunk, and nobody changes the objects the cache hands out.""",
  ["schedules", "histories", "fault_sequences"], "every path of the cache and of the cached storage, every interleaving of a creation with removals, and every user of the returned objects in the module",
  "A stale entry needs a read racing with a change, and it is served silently from then on.",
  ["pkg/storage/cache/cache.go", "golibs/container/lru/ecache.go", "pkg/storage/logfs/locallog.go"],
  [("cached storage", "CachedStorage.UpdateLog, DeleteLogs, UpsertChunkInfos, GetLastChunk"), ("value cache", "ECache.GetOrCreate, Remove, Clear"), ("users", "logfs.localLog, api.Service")],
  technique="path-sensitive typestate of the cache protocol and taint of shared objects (go/ssa)",
  how="""For each changing call to the wrapped storage, every path on which it may have succeeded must remove the same key from the right cache after it (both caches, for each element of the list of deleted IDs, with the loop going through the whole list). In ECache: a created value is added only when its registration was looked up again under the lock and is still its own, removals drop the registration. A taint analysis follows the returned logs and chunk slices over the module: stores, sorts and appends into them are reported. The comparison function of the sort is evaluated symbolically.""",
  note="All paths. Which caches an operation affects is part of the specification. Several server processes on one database are out of scope (each has its own cache).")
P("C11", "Borrowed cache objects are kept, bounded, counted and deleted once",
  """The cache of releasable objects (opened chunks, log lockers): an object is handed out only with a counted reference and off the idle list, it is put on the idle list exactly when the last reference is given back, and it is deleted only while idle, or after the cache is closed when its last reference is given back or its creation completes.
  Every deleted object goes to the delete callback once and is forgotten everywhere; failed creations are neither kept nor deleted. Creations start only while fewer than the maximum number of objects exist, one at a time per key, outside the lock and not after Close.
  Whoever waits - for a creation by somebody else or for a free place - is woken up when it completes or fails, when a place gets free, and by Close, and a waiter watches its context.""",
  ["schedules", "histories", "fault_sequences"], "every path of the cache operations, for any number of goroutines, keys and outcomes of the creation",
  "The protocol errors (a lost wake-up, an object deleted while borrowed, a place leaked by a failed creation) need particular interleavings of full caches, errors and Close.",
  ["golibs/container/lru/releasable.go"],
  [("borrow", "ReleasableCache.GetOrCreate"), ("give back", "ReleasableCache.Release"), ("evict", "ReleasableCache.sweep"), ("close", "ReleasableCache.Close")],
  technique="path-sensitive typestate of the borrow protocol with symbolic capacity facts (go/ssa)",
  how="""Each operation is walked over all paths with the helpers inlined; memory is forgotten when the lock is taken again. Obligations: the symbolic capacity comparison at the start of a creation, registration before and removal after it, the counter change (exactly one, by one) and the list updates that must follow from its result, the legal situations of each callback call, and the wake-ups required at each exit.""",
  note="All paths. With the lock discipline of C21 the per-operation obligations hold for all interleavings. The callbacks themselves are the callers' business.")
P("C13", "Failures reach the API clients with their kind, and REST answers once",
  """A gRPC method that fails returns a status error whose code is the one of the failure's kind (invalid, not found, already exists, exhausted, closed and so on), no matter how many layers wrapped the error, and the client side decodes that code back to the same kind.
  The layers below keep the kind when they add context to an error, and the metadata and object store backends translate their driver's "no such object" to the common not-found kind and let no other failure turn into it.
  Each REST handler answers exactly once on every path, with success only if everything it called succeeded; a malformed request is answered 400 (a condition that cannot be parsed or translated is an invalid request too), not found 404, a conflict 409 and other failures with 500 or above.""",
  ["inputs", "fault_sequences"], "every path of every service method, REST handler and error conversion, for every kind of error",
  "Each handler meets each failure kind at several places; the tests try a few of the combinations, and the error wrapping is invisible to the compiler.",
  ["pkg/api/service.go", "pkg/api/rest/rest.go", "golibs/errors/errors.go", "pkg/storage/postgres/error.go", "pkg/storage/buntdb/buntdb.go", "golibs/sss/s3/storage.go"],
  [("gRPC service", "api.Service"), ("REST", "rest.Rest handlers"), ("code tables", "golibs/errors"), ("backends", "postgres.MapError, buntdb, s3")],
  technique="path-sensitive typestate of answers and errors, table extraction from initialisers, wrap-verb query (go/ssa)",
  how="""The sentinel/code tables are read from their initialisers and must be mutually inverse; the conversion functions are walked over all paths. Every exit of a service method with a non-nil error must carry a status error. REST handlers: a count of answers per path, and the answer's status against the outcomes of the calls on the path and the error kinds compared. Every fmt.Errorf made of an error must wrap one with %w. Backend methods: a driver error known to be its missing-object error must be translated before it leaves.""",
  note="All paths. The texts of the messages are not judged. context.Canceled and DeadlineExceeded are mapped to Internal by the current table, which is not judged.")
P("C14", "A client request cannot crash the server",
  """No request, whatever its conditions, IDs, numbers and missing parts, makes the request handling (gRPC and REST methods, the query language, the interval code, the log storage, the metadata backends and their cache) panic or exhaust the memory or the stack:
  indexes and slice bounds stay in range, the optional parts of a parsed condition and of a REST body are used only after they are known to be present, and no identifier of a condition is taken for a constant; a value is asserted to a type only when everything that produces it has that type;
  a parameter's value is taken only if its dialect entry accepted the parameter, numbers of a request do not size allocations, the nesting of conditions is limited before they are parsed,
  the interval constructors get ordered bounds only, and an explicit panic is reached only when the server's own storage failed.""",
  ["inputs"], "every request: every index, slice expression, type assertion, allocation, division, optional-part access and explicit panic of these packages, on every path",
  "Each crash needs one odd request (a condition with an unusual operand, an empty list, an ID of a wrong length); one is enough to stop the server for everybody.",
  ["pkg/ql/parser.go", "pkg/ql/dialect.go", "pkg/ql/evaluator.go", "pkg/ql/translator.go", "pkg/ql/intervalbuilder.go", "pkg/intervals/intervals.go", "pkg/api/service.go", "pkg/api/mixer.go", "pkg/api/rest/rest.go", "pkg/storage/logfs/locallog.go"],
  [("query language", "ql.Parse, BuildExprF, Translator, ParamIntervalBuilder, the dialects"), ("merging", "api.newMixer, rIterator"), ("paging", "api.Service.QueryRecords, ulidutils.PrevID/NextID"), ("intervals", "intervals.Basis")],
  technique="bounds proving by linear entailment over dominating conditions and path facts, provenance and exhaustiveness queries (go/ssa)",
  how="""Every index and slice expression of the packages is an obligation: it is proved first inside its function (inductive linear bounds over SSA), then on every path of the entry points with the facts of the callers (Fourier-Motzkin). Optional fields are taken from the parser's grammar tags and the generated REST types, and every dereference must follow a test on its path, directly or by what the dialect's check function guarantees.
  Type assertions without ok need every producer of the value (dialect value functions per declared type) to give that type. Explicit panics, the interval constructors' preconditions, make() sizes, recursion over the parsed expression, divisors and the ID constants are decided by further rules of the same walk.""",
  note="All paths and inputs. An index whose value was computed by a loop, and which is neither provable nor provably short of a guard, is noted as not decided instead of reported. Integer overflow, nil maps and crashes inside libraries are not decided; the memory for parsing a long condition is bounded by the transport's message limit.")
P("C19", "Conditions are turned into exactly the matching intervals",
  """The interval algebra is exact: a value is in the intersection, union or negation of intervals if and only if it is in both, in one, or in none of them, the order predicates (before, after, starts before, ends after) say what the borders say, and no intersection or union is reported only when the intervals share no value.
  A comparison of a parameter with a constant gives exactly the values of the basis for which the comparison holds, for every operator, including constants at or beyond the limits of the basis; any other condition restricts nothing.
  The intervals of an expression are the union of its OR parts, the intersection of the AND parts, the complement for NOT, without losing a part; the range of record IDs made for an interval of times has exactly the IDs of the milliseconds in the interval.""",
  ["inputs"], "all values of any ordered basis, all kinds of borders (open, closed, half-open) and all comparison operators",
  "The borders are where it goes wrong: records at the very edge of a time condition appear or disappear silently, and the tests try a few numbers.",
  ["pkg/intervals/intervals.go", "pkg/ql/intervalbuilder.go", "pkg/storage/logfs/locallog.go"],
  [("algebra", "intervals.Basis: Intersect, Union, Negate, Before, After, StartsBefore, EndsAfter, Open, OpenL, OpenR, Closed"), ("comparison to intervals", "ParamIntervalBuilder.getIntervals"), ("expressions", "ParamIntervalBuilder: Build, buildOR, buildXCond, buildCond, union, intersect"), ("times to record IDs", "logfs.getRanges")],
  technique="symbolic membership checking per path over order facts (abstract interpretation with linear entailment, go/ssa)",
  how="""Each operation is walked over all paths for every combination of border kinds of its arguments, the comparison function abstracted to the order of the two values. At each exit the membership of an arbitrary value in the result is expressed as linear facts and must be entailed by, and entail, the set operation on the arguments. The same is done for each operator of the conversion of a comparison.
  The builder is walked with a loop typestate: every part of a node must be built once, in turn, and be kept; the result must be the union or the intersection of all of them, the complement the intersection of the opposites of all; the union must join sorted neighbours and keep what does not join, the intersection must pair every interval with every one of the next group. The borders of ID ranges are reduced to (border of the interval + nanoseconds), which must be the first and the last ID for both kinds of borders.""",
  note="Complete for the listed operations and the path from the syntax tree to ranges of IDs. Relies on sort.Slice to sort by the order it gets, and on ULIDs to be ordered by time.")
P("C15", "Text of a client's condition never changes the meaning of a SQL statement",
  """The SQL metadata storage runs statements whose text consists of the program's constants, placeholder numbers, integers and translated conditions only; all other values (IDs, tags, limits, conditions as texts) travel as arguments.
  A translated condition consists of complete pieces: string constants of the request stand between quotes with every quote in them doubled, every opened quote and bracket is closed in the same piece, operators and functions are the known ones,
  and whatever is written as it is (identifiers) consists of word characters only, as the lexer of the language guarantees. A condition spliced into a statement stands in brackets of its own.""",
  ["inputs"], "every request and condition, every path through the translator, its dialect entries and the statements of the SQL storage",
  "Injection needs a hostile text in exactly the operand that is not escaped; tests use harmless tags, and the SQL tests need a database that is not there.",
  ["pkg/ql/translator.go", "pkg/ql/dialect.go", "pkg/ql/parser.go", "pkg/storage/postgres/postgres.go"],
  [("translation", "ql.Translator"), ("pieces of SQL", "LogsCondTranslator dialects: TranslateF"), ("words", "ql lexer rules"), ("statements", "postgres.Storage")],
  technique="path-sensitive string composition analysis with provenance of every fragment (go/ssa)",
  how="""Strings are modelled as sequences of constants and fragments through concatenation, Sprintf, Join and builders. Every statement that reaches a database call is taken apart: constants are tokenised as SQL, every fragment must be an integer, a placeholder or the result of the translator, outside quotes.
  Every piece the translator and the dialect entries write is tokenised the same way: fragments inside quotes must have gone through the doubling of quotes, fragments outside must be words: known constants, operators found in the operator table, or lexer classes whose regular expression is a word.""",
  note="All paths of the translator and of the SQL storage. Relies on standard_conforming_strings (a backslash is no escape in PostgreSQL). The semantics of the operators is not part of it (C18).")
P("C16", "Deleted logs stay deleted: invisible, without new chunks, reported once",
  """A log that is marked as deleted is not given out by any read unless the caller asked for deleted logs, is not changed or revived by an update, has no visible chunks, and the embedded storage stores no chunks for it.
  A request that marks logs only never removes data physically; when a log is removed physically its chunks go with it; every log deleted is reported to the caller, so that its data is removed later. A condition restricts what is deleted and cannot reach beyond the not-deleted logs by an OR in it. A new log gets a fresh ID.""",
  ["histories", "inputs"], "every read, update and deletion of both metadata storages, on every path, whatever was stored before",
  "Visibility after deletion is the product of all operations with all histories; the tests delete a few logs and look at one listing, and the SQL storage is not tested without a database.",
  ["pkg/storage/buntdb/buntdb.go", "pkg/storage/postgres/postgres.go"],
  [("embedded storage", "buntdb.Storage"), ("SQL storage", "postgres.Storage")],
  technique="path-sensitive provenance and must-have-tested analysis of stored entries and SQL clauses (go/ssa)",
  how="""Embedded storage: every entry decoded from the database is tracked; when it (or a chunk of it) is given out, stored again or its chunks are stored, its Deleted flag must be known false on the path, seen in the same transaction, or the caller must have asked for deleted logs. Removals need the physical flag and the removal of the chunk range, and every deleted ID must reach the result.
  SQL storage: the statements are composed per path, tokenised and their WHERE clauses split into conjuncts: the required conjuncts (not deleted, the ID, the condition in brackets) must be there, RETURNING must give the IDs, the schema must cascade.""",
  note="All operations of both storages. The SQL storage's UpsertChunkInfos does not look at the mark of the log (the service does, C08); statements are judged by their clauses, not executed.")
P("C20", "The embedded metadata storage changes atomically or not at all",
  """Every operation of the embedded metadata storage completes each transaction it begins on every path, begins no transaction while it has another one open, uses no transaction after it was completed, writes in writable transactions only and makes all its changes in a single one.
  Success is reported only after the changes were committed, and an operation that reports a failure has changed nothing.""",
  ["fault_sequences", "crash_points", "histories"], "every path of every operation of the embedded storage, each database call succeeding or failing",
  "The database does not fail in tests, so a transaction left open (which stops the storage forever) or committed in halves by an error never shows.",
  ["pkg/storage/buntdb/buntdb.go"],
  [("transactions", "buntdb.Storage, its begin/commit/rollback helpers")],
  technique="path-sensitive interprocedural typestate of transactions (go/ssa)",
  how="""Every operation is walked over all paths with its helpers inlined; each transaction is a typestate (open, committed, rolled back) with its mode and the changes made in it. Obligations are checked at each begin, use, change and exit.""",
  note="All paths, including failed rollbacks and commits. Atomicity and durability of a committed transaction are the database library's.")
P("C17", "Paging through logs and records loses nothing, repeats nothing and ends",
  """A page begins with the element its page ID names, is in the order of the IDs, and whenever elements that match are not in it, the page ID of the next page is given and names the first one left out; so following the page IDs delivers every matching element exactly once. A page that has a next one is never empty.
  The same holds for records: a log tells that there may be more whenever its limits made it stop, it begins with the chunk that holds the start, goes through all chunks one by one, leaves a chunk out only when the condition excludes it and a record only when it is behind the end of the range; within a chunk it begins with the first record that is not before the start (going backwards: the last one not behind it), gives the records one by one and ends with the last one, for every range from the start of that range, and never more than the limit altogether; what it gives out is a copy of the record stored with the time of its ID. What the client asked for (condition, direction, start, limit) reaches the storage. Deleting by a condition deletes every page.""",
  ["inputs", "histories"], "every request, every path of the listings of both storages, of the log and of the service, whatever is stored",
  "A lost or repeated element needs a limit, a start and a layout of chunks that meet exactly at a border; tests look at a few borders.",
  ["pkg/api/service.go", "pkg/storage/buntdb/buntdb.go", "pkg/storage/postgres/postgres.go", "pkg/storage/logfs/locallog.go"],
  [("listing", "buntdb.Storage.QueryLogs"), ("listing", "postgres.Storage.QueryLogs"), ("records", "localLog.QueryRecords, CountRecords"), ("service", "Service.QueryLogs, QueryRecords, CountRecords")],
  technique="path-sensitive relational analysis of result slices with linear-arithmetic entailment (go/ssa)",
  how="""Reading of a log: a successful end that says "no more" needs the fact that the chunk index left the list of chunks; each range must have been sought before its first record is read; a later chunk must not be read with the whole limit. Every listing is walked over all paths; at each exit the page L and the next page ID N must be related: N is X[k].ID and L is X[:k] with k proven positive, or N is known empty and L is all of X and X is known not to have stopped growing at a limit (linear entailment on the facts of the path). The range, order and page operand of the database call are taken apart, for SQL by tokenising the statement.
  In the log the bounds that stop a reading loop are recorded, and the flag that tells of more records may be false only where the facts entail that none of them was reached. The searches for the first chunk are classified by their comparison and compared with the index of the first chunk opened; every chunk passed over and every record dropped needs the facts that allow it. The reader of a chunk is decided by linear terms over its place, direction and the number of records: where it is opened, where a start leads (the comparison of the search is read off the closure), when it ends, what Next reads and where it goes.""",
  note="All paths. Which records a time range selects inside a chunk is C18/C19's; IDs are taken as unique.")
P("C27", "Merging logs and reading page by page gives every record once, in order",
  """The merging iterator takes an element of a source only when it has given away the one it took before, never overwrites, repeats or invents one, always gives out the one that comes first by the order it was made with, ends only when both sources have ended, closes both and begins anew when reset.
  The iterator over the pages of a log reads on only when its page is used up, right behind the last record given out (in the direction asked for), keeps everything it has read, takes only an empty answer for the end, and makes a failed reading known to whom it serves.""",
  ["histories", "fault_sequences", "inputs"], "every state of the iterators and every answer of their sources: elements, none, an end between two calls, a failure",
  "Merging is a state machine over two sources; its tests merge a few lists that never fail and never end early.",
  ["golibs/container/iterable/mixer.go", "pkg/api/riterator.go", "pkg/api/mixer.go"],
  [("merging", "iterable.Mixer"), ("pages", "api.rIterator"), ("order", "api.newMixer")],
  technique="path-sensitive inductive invariant check of iterator states (go/ssa)",
  how="""Each method of the iterators is walked over all paths from an arbitrary state. The fields are found by their types; what a source gives is tracked to where it is kept or given out. Obligations: an element is taken only when the place is known free, kept or given out on every path, the choice agrees with a comparison made in the right order, the end needs both places known empty after both sources were asked. For the page iterator the used-up buffer, the position and the place to go on are proven by linear entailment.""",
  note="One step of each method from any state; the invariant carries over by induction. Sources behave as the Iterator contract says.")
P("C08", "Appended records are all kept, in order, registered and truly reported",
  """Appends to one log happen one after another: everything an append reads and changes of the log's chunks happens under the lock of that very log, which it gives back on every path.
  The records of a request go to the last chunk of the log or to new chunks of their own, in order, each written exactly once; each chunk written is registered for the log, with its true first and last record ID and number of records, even when the client has gone away or a later chunk failed, before the append answers.
  The answer tells exactly how many records were kept and their IDs, success is never reported when nothing was kept, and records are accepted only for a log known to exist.""",
  ["schedules", "fault_sequences", "inputs"], "every append request and every outcome of the chunks it writes (full, partly written, failed), any number of chunks, appends at the same time",
  "Losing records needs a chunk that fills up in the middle of a request or fails after others were written; the tests append to one healthy chunk.",
  ["pkg/storage/logfs/locallog.go", "pkg/api/service.go"],
  [("appending", "localLog.AppendRecords, appendRecords"), ("existence of the log", "Service.AppendRecords")],
  technique="path-sensitive typestate and relational analysis of the append loop (go/ssa)",
  how="""The append is walked over all paths through several rounds of its loop, with the loop variables widened. Each write to a chunk opens obligations: the description registered must carry this chunk's ID, its first ID (kept for an existing chunk), last ID and count; the rest of the records must be cut right behind the number written; the number must go into the count exactly once. At each exit the lock is free, every chunk written is in the list handed to the metadata storage with a context the client cannot cancel, and the answer is the count.""",
  note="One process: the lock is the process's. The order of the record IDs themselves inside a chunk is C05's; what the metadata storage does with the list is C16's and C20's.")
P("C18", "A condition selects what it says, in the evaluator and in SQL",
  """The predicate built from a condition over logs or records is the condition: OR, AND, NOT, brackets and precedence as written, each comparison between the two parameters written, in their order, with the operator written; IN is true exactly for the elements of the list. Both the predicate builder and the SQL translation use all parts of the condition, once, in order.
  What one dialect accepts the other accepts, with the same restrictions on the parameters; each parameter reads the field or column it names (logID, the tag asked for, the time of the record, its message).""",
  ["inputs"], "every condition the grammar accepts: any nesting, any number of parts, any operator and parameters",
  "Conditions are a language; tests sample a few sentences, and precedence errors show only in particular nestings (NOT before brackets, OR inside AND).",
  ["pkg/ql/evaluator.go", "pkg/ql/translator.go", "pkg/ql/dialect.go"],
  [("predicates", "exprBuilder, BuildExprF"), ("SQL", "Translator"), ("parameters", "LogsCondValueDialect, LogsCondTranslateDialect and the dialect of records")],
  technique="truth-table abstraction of closures and loop typestate over the syntax tree (go/ssa)",
  how="""Translator: every function that writes the text of a node is walked over all paths; the text written, with the loops over the parts, must have the shape of the node (part, operator, part; brackets around a nested expression; NOT before it). Evaluator: the closures returned are abstracted to a truth table over the predicates they capture and the results of the comparisons they make; the table must be that of the node (or, and, not, the comparison of the operator chosen under the facts of the path) and the list of predicates must be filled one by one.
  The dialect tables are read from the package initialiser: same keys and flags in both, and the value function / translation of each key reads its own field.""",
  note="How LIKE matches, how times are parsed and how strings are ordered by the database are not decided; a missing tag is NULL in SQL and \"\" in the evaluator.")
P("C34", "REST and gRPC requests and answers are passed on unchanged",
  """Each REST operation asks the service for the operation it stands for, with every field of the body, the path and the optional parameters in its place (absent ones as empty), asks nothing when the body could not be read, and answers exactly once: with the status of the operation and everything the service answered (all items, converted field by field, in order; totals; the next page ID if there is one), or with an error status if anything failed.
  The service in turn hands requests over to the storages unchanged, marks logs as deleted only, gives their answers out as they are, and counts records of several logs by summing them up.""",
  ["inputs"], "every request: any combination of optional parameters, any number of items, every failure of the parts behind",
  "There are no tests of the REST layer at all; a field that gets lost or swapped shows only to the client that uses it.",
  ["pkg/api/rest/rest.go", "pkg/api/rest/transformers.go", "pkg/api/service.go"],
  [("REST operations", "rest.Rest"), ("service", "api.Service")],
  technique="path-sensitive field-by-field value tracking with loop typestate (go/ssa)",
  how="""Each operation is walked over all paths with its helpers inlined, each call to the service or the storage succeeding or failing. The fields of what is handed over and answered are compared with a table of what they stand for; lists must be filled one element per round, from the first to the last, each element field by field from the one it stands for. Counters: the sum is checked as an inductive definition.""",
  note="JSON encoding and routing are generated code and the library's.")
P("C33", "The metadata storages keep logs and chunk descriptions as they were given",
  """Creating a log stores its tags and the time, and gives back what was stored; an update replaces the tags and the time of the update and keeps the rest, in the log of the request only; marking a log as deleted keeps its tags and times. Each description of a chunk is stored whole, under the key of its own log and chunk, all of them, replacing what is there. What is read is given back whole: nothing that was read is left out, swapped or cut off on the way, in either storage. No field of what is stored is lost or shadowed in its stored form.""",
  ["inputs", "histories"], "every log, tag map and list of chunks, every operation of both storages",
  "A field that gets lost shows only after it was stored, read back and looked at; tests compare a few fields of a few logs, and the SQL storage is not tested at all without a database.",
  ["pkg/storage/buntdb/buntdb.go", "pkg/storage/postgres/postgres.go", "pkg/storage/postgres/transformers.go", "pkg/storage/postgres/model.go", "pkg/storage/logfs/locallog.go"],
  [("embedded storage", "buntdb.Storage"), ("SQL storage", "postgres.Storage"), ("stored form", "logEntry, chnkEntry, ChunkInfo, Log")],
  technique="path-sensitive field-by-field value tracking through SQL and JSON (go/ssa)",
  how="""Every operation is walked over all paths. For the embedded storage, what is marshalled is taken apart at the moment it is marshalled, compared field by field with the request and the entry read before, and with the key it is stored under; what is unmarshalled is a symbol whose fields must be those given out. For SQL the statement is tokenised: the value bound to each column must be the field it is for, the rows of an upsert must name their columns' values in order with consecutive parameters, every chunk once; the fields of a row scanned must be those of the result. The JSON names of all stored fields must be exported, distinct and not left out.""",
  note="The databases are taken to give back what they were given; JSON and time precision are the libraries'.")

P("C22", "Waiting ends with the context, and contexts and goroutines end as promised",
  """Whoever waits with a context (for a free slot or an object somebody else creates in a borrowing cache, for writing or opening access to a chunk, for the change of a key in the key-value stores, for a distributed lock, in Sleep, between the rounds of the scanner) watches that context while it waits: when the context has ended it does not wait again, and it reports an error, never success. Sleep reports success only when the time is over.
  Everything done on behalf of a caller is done in the context of that caller; only what writes down a change made already may outlive it.
  A context made by WithCancelError ends exactly once (the second cancel does not panic and does not change the error), always with an error that is not nil, and with the given one when it is given; it ends when its parent ends, with the error of the parent, and what watches the parent does not stay when the context was cancelled.
  A goroutine somebody waits for is announced before it starts and reports its end exactly once on every path; the slot it was started in is given back on every path.""",
  ["schedules", "inputs", "faults"], "every wait in every function that is given a context, every order in which the context ends and the awaited comes, every path",
  "A test ends the context at one moment of one wait; the promise is about every wait, also those a failing call or a second waiter leads to.",
  ["golibs/context/cnclderr.go", "golibs/context/sleep.go", "golibs/container/lru/releasable.go", "golibs/kvs/inmem/inmem.go", "golibs/kvs/redis/redis.go", "golibs/kvs/distlock/kvlock.go", "pkg/storage/chunkfs/caccessor.go", "pkg/storage/chunkfs/scanner.go"],
  [("waits of the caches", "lru.ReleasableCache.GetOrCreate"), ("waits for access to a chunk", "chunkfs.ChunkAccessor.openChunk, SetWriting"), ("waits for a version", "inmem and redis WaitForVersionChange"), ("the context that ends with an error", "context.WithCancelError"), ("goroutines of the scanner", "Scanner.watcherWithF")],
  technique="path-sensitive typestate of waits and of the cancellable context, and origin of every context argument (go/ssa)",
  how="""Every function that is given a context and reaches a blocking select, a receive or a sleep is walked over all paths; at each wait one of the channels must be the Done of a context. The branch in which that channel was chosen marks the path: no further wait may follow on it, and the error returned may not be nil. For every call that takes a context the argument is followed backwards (through local variables, captured variables, phis and derived contexts) and may not begin at Background or TODO, or at WithoutCancel unless the call writes down a change. The cancel function of the context is walked over all its paths with the channel open and closed; the goroutine that watches the parent must watch both, and pass on the error. The body of every goroutine that follows an Add or a send into a channel is walked: Done once, and one receive, on every path.""",
  note="The wait for the creation of an object by another caller in the metadata cache (golibs/container/lru.ECache) has no context and is not decided: it ends with that creation. How soon a wait ends is not decided.")
P("C23", "The server starts wired, configured and serving, and stops what it started",
  """When the server is started, every dependency a component declares is there: for each injected field exactly one registered component fits, and every component that is made and needs or offers something (dependencies, a start, a stop) is the registered one, not a second instance beside it. The gRPC and the REST server serve the API with the registered service; gRPC also serves the health checks.
  Every setting of the configuration reaches a component that is started. The configuration is the defaults, overwritten by the file, overwritten by the environment (SOLARIS_...), and a file that cannot be read stops the start.
  Components are registered before the start, started once with the context of the server, and stopped, before anything they use is closed, when that context has ended and not earlier. A transport registers what it serves before it serves, does not block the start, and does not start when the registration failed.""",
  ["inputs", "faults", "histories"], "every path through the start of the server, its configuration and its transports",
  "The start of the whole server needs a database, so no test runs it: a component that is not registered, or registered twice, is found when the server panics in production.",
  ["pkg/server/server.go", "pkg/server/config.go", "pkg/grpc/server.go", "pkg/http/router.go", "pkg/api/rest/rest.go", "pkg/api/service.go", "pkg/storage/chunkfs/provider.go", "pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/scanner.go", "pkg/storage/logfs/locallog.go"],
  [("what is registered", "server.Run"), ("declared dependencies", "struct tags inject"), ("configuration", "server.BuildConfig"), ("transports", "grpc.Server.Init, http.Router.Init")],
  technique="abstract interpretation of the start-up over the type-checked program: registered components by type and identity against the inject tags (go/ssa)",
  how="""The function that starts the injector is walked over all its paths with helpers inlined. Each registered component is kept with its identity and static type; at the start, for every field with an inject tag of every registered component, the registered components whose type is assignable to it are counted (by name where the tag names one). Values made on the path that need or offer something are compared with the registered ones. What the two transports were made of (configuration, closures and what they capture, constructors and their arguments) is searched for the registered service, the registering functions and the settings. The calls of the injector and of the configuration enricher are checked as typestates; the Init of every transport is walked with registration succeeding and failing.""",
  note="If the list of components is built at run time (a slice filled elsewhere, a loop) the wiring is not decided. The injector itself (github.com/logrange/linker) is trusted.")
P("C24", "The in-memory key-value storage: conditional writes, expiration and waiting",
  """Create stores a record only where there is none that has not expired, and gives back the version it stored, or the existing one with ErrExist. CasByVersion replaces only a live record whose version is the one expected, and tells ErrConflict and ErrNotExist only when that is so. Every record stored gets a version never used before, whole and under its own key. An expired record is never given out, listed, compared or deleted as if it was there; a live one is never left out.
  Whoever waits for a change of a record is woken up by every change and every removal, comes back with success only if the version did change, and no later than its context ends or the record expires; no channel of waiters is closed twice or forgotten.""",
  ["schedules", "histories", "inputs"], "every operation, any records and versions, any expiration, any number of waiters coming, going and cancelled in between",
  "A lost wake-up or a channel closed twice needs a waiter cancelled just when the record changes; a lost update needs two clients at once.",
  ["golibs/kvs/inmem/inmem.go", "golibs/kvs/kvs.go"],
  [("operations", "inmem.service"), ("waiting", "inmem.service.WaitForVersionChange")],
  technique="path-sensitive typestate over critical sections: record knowledge, wake-up obligations (go/ssa)",
  how="""Every operation is walked over all paths with its helpers inlined. What is known of a record is dropped when the lock is taken; lookups, comparisons of the expiration with the clock and of versions establish it again. A store, a deletion and each answer need the knowledge that allows them; each change opens an obligation to close and remove the waiters' channel (or to know that there is none), due when the lock is given back. A close needs the channel to be the one registered.""",
  note="Values are not copied: a caller that changes the bytes of a record it has stored changes the record (recorded as a defect). NewID is taken as unique (C31).")

P("C25", "The distributed lock is held by one, leased while held, and given back",
  """A lock is reported as taken only by the one who has the token of the process, marked it as locked and created its key in the shared storage; a failed attempt, whatever the reason, gives everything back (except after the shutdown), and has created nothing. The key is the lock's own and always ends by itself after the lease; as long as the lock is held the lease is renewed before it is over, always with the version that the holder itself stored last, and the renewal can be called off. Unlock gives back what is locked only, deletes the key before anyone else in the process can go on, and exactly one token is there at any time.
  Waiting observes the context and the shutdown; TryLock never waits; whoever finds the key taken waits for it to change instead of asking again all the time.""",
  ["schedules", "faults"], "every path of Lock, LockWithCtx, TryLock, Unlock and of the renewal: contexts over at any point, any failure of the shared storage, shutdown at any point",
  "A token that is lost needs a context that ends between two lines; a renewal that fails shows only when a lock is held for longer than the lease.",
  ["golibs/kvs/distlock/kvlock.go", "golibs/sync/lock.go"],
  [("lock", "dist.kvsLock"), ("lock provider", "dist.kvsLockProvider.NewLocker"), ("renewal", "dist.kvsLock.supportTimeout")],
  technique="path-sensitive typestate of token, mark, key, lease and renewal (go/ssa)",
  how="""Every operation of every implementation of the locker in the package, its constructor and each function that renews by CasByVersion is walked over all paths with its helpers inlined. The token is taken by a receive that was chosen and given by a send; the mark is the counter of the lock, the key what Create answered without an error, the renewal a timer of at most half of the lease whose closure renews the version the key has now. What a return reports is compared with the state; sends, deletions and calls of the storage have preconditions on it.""",
  note="The shared storage is C24's (in memory) or a database's; that a lease outlives a stopped process or clocks differ is not decided. Unlock deletes the key even if the lease was lost (recorded as a defect).")

P("C26", "A call in the future is made once, not before its time, unless called off",
  """Every function given to timeout.Call is made exactly once, not before its time, outside of the lock; nobody sleeps longer than until the first call that is due, and a new call that is due earlier is noticed. A call that is cancelled before it was taken out is never made, and cancelling (also twice, also after the call was made) never touches another call: each call knows where it is in the heap. There is always a watcher as long as there are calls, and the watchers are counted right.""",
  ["schedules", "histories"], "every path of Call, Cancel and of the watchers, any number of calls and watchers in any interleaving (what is known of the heap is dropped whenever the lock is taken)",
  "A call that gets lost needs two calls, a cancellation and a watcher that goes to sleep at the wrong moment; the leases of the distributed locks depend on it.",
  ["golibs/timeout/timeout.go"],
  [("calls", "timeout.Call"), ("watchers", "timeout.callControl.watcher"), ("heap", "timeout.futures")],
  technique="path-sensitive typestate of taken-out calls, heap positions and watchers (go/ssa)",
  how="""The methods of the heap are walked each with its contract: what Swap, Push and Pop leave in the list and in the position of the calls. Call, Cancel and everything started by go are walked over all paths; a call that was taken out must be made before the next one is taken, only if its time is known to have come, and outside of the lock; each timer must be bounded by the time of the first call; the counter of the watchers is balanced against go statements and returns between two unlocks.""",
  note="container/heap is trusted. A watcher busy with a slow call delays the others (recorded as a defect).")
P("C28", "Packing and unpacking archives loses nothing and stays in its folder",
  """Unpacking makes files and folders only inside of the destination, whatever names the archive has; every entry that is not a folder becomes a file of its whole name with its own content, in the destination. Packing takes every file of the folder but those the caller's test, called with the path of the file, or the recursion flag leaves out, under a name that no other file of the folder gets; what cannot be read fails the operation. Success is reported only after the written files were closed without an error. The iterator over an archive gives out each entry once, to the end.""",
  ["inputs", "faults"], "every archive (any names, any number of entries, empty and hidden ones) and every folder",
  "The archives come from a remote storage: a hostile name or an odd entry is never in the tests; chunks of records are restored from them.",
  ["golibs/files/files.go", "golibs/files/ziputil.go"],
  [("packing", "files.ZipFolder"), ("unpacking", "files.UnzipToFolder, files.ZipCopy"), ("iterator", "files.zipIterator")],
  technique="path-sensitive taint and correspondence of names and contents (go/ssa)",
  how="""The names of entries are kept as terms through filepath and strings functions. Every call that makes a file with a name made of an entry's needs the fact that this name is local (or that the joined path starts with the folder and a separator). Each round of a loop over entries must end with the entry known to be a folder or copied without an error, from its own content to its own whole name; each return of the walk function without an error needs the file packed or known to be unwanted.""",
  note="Symbolic links in the destination are not considered; the zip format is the library's.")
P("C29", "The object stores keep under a key what was given, and list what is there",
  """Put of the object stores (in memory, S3) reads all of the content and keeps it, unshared, under the very key given, or fails and changes nothing; Get gives the whole object of the key out, and tells that there is none only when it was not there; Delete removes the object of the key only. List gives every key and sub-path right below the path, each once and nothing else, as keys of the store, to the last page. Each operation asks the store only for a key or path that is valid, in the configured bucket, and the mapping of keys to names in the bucket is the same for all operations.
  A path is valid exactly if it begins and ends with a slash and has no empty part, a key exactly if it is a name that is not blank in such a path.""",
  ["inputs", "faults"], "every key, path and content, any number of objects and pages of a listing, every failure of the reader and the store",
  "The S3 storage is never run by the tests (it needs the service); a list with more than one page or an odd key are not in the tests of the other; the chunks are restored from there.",
  ["golibs/sss/service.go", "golibs/sss/inmem/storage.go", "golibs/sss/s3/storage.go"],
  [("keys", "sss.IsKeyValid, sss.IsPathValid"), ("in memory", "sss/inmem.Storage"), ("S3", "sss/s3.Storage")],
  technique="path-sensitive value tracking of keys, contents and pages, with loop typestate (go/ssa)",
  how="""Each operation of each implementation of sss.Storage is walked over all paths. Texts are kept as terms (slices, Index, Cut, Split, Trim), so that the key used for a map, a request field or a list entry is compared with the one it has to be. The content stored must be what was read to the end without an error, or a copy of the same length; a round over the keys ends only with the key known to be elsewhere, listed, or its sub-path known to be listed; each page of a listing must be gone through before the next one is asked for by its marker, to the one that is not truncated. The tests of keys are walked with both answers: yes needs all the facts, no needs a reason.""",
  note="The S3 library and service are trusted. Delete of a missing object is an error in memory (the repository's tests expect it) though the interface says it is not (recorded as a defect).")
P("C30", "What is opened is given back on every path, and nobody waits while holding",
  """Every function that opens or borrows something that has to be given back (files, archives and their entries, mapped files, the contents of stored objects, rows and transactions of the databases, connections, listeners, borrowed cache objects, contexts that can be cancelled) gives it back on every path through it, the failing ones too: it closes or releases it, hands it to its caller, or keeps it in an object whose Close or Shutdown gives it back. Nothing is left open when the function returns an error, and nothing is opened again in a round of a loop before it was closed in the one before.
  No request asks the pool of a database for a connection while it still holds another one of it.""",
  ["faults", "inputs", "histories"], "every path through every function that acquires something, every failure of any call on it, any number of requests at the same time",
  "A leak shows only after many failures, and a pool runs dry only under load: no test fails an operation on purpose thousands of times or runs the requests against a small pool of a real database.",
  ["golibs/files/files.go", "golibs/files/ziputil.go", "golibs/files/mmfile.go", "pkg/storage/chunkfs/replicator.go", "pkg/storage/chunkfs/scanner.go", "pkg/storage/chunkfs/provider.go", "pkg/storage/logfs/locallog.go", "pkg/storage/postgres/postgres.go", "pkg/storage/postgres/db.go", "pkg/storage/buntdb/buntdb.go", "pkg/grpc/server.go", "pkg/http/router.go", "pkg/server/server.go", "pkg/api/service.go"],
  [("files and archives", "golibs/files"), ("rows of postgres", "postgres.Storage"), ("borrowed locks and chunks", "logfs.localLog"), ("objects that keep what they opened", "Chunk.mmf, MMFile.f, ZipWriter.f, Server.listnr, Storage.db")],
  technique="path-sensitive resource typestate with ownership transfer, interprocedural by ownership summaries (go/ssa)",
  how="""Which functions hand out something acquired is computed over the whole module as a fixpoint (a result that is, or holds, the result of another such function; external and interface calls that return a closable value with an error; caches that lend). Every function with a call to one of them is walked over all paths with both outcomes of the call (the value, or the error and nothing); at each return every acquired value must have been closed, released or cancelled (in deferred calls and helpers too), returned, or stored in something that outlives the function. For each field that keeps something acquired the Close or Shutdown of its object is walked: it must close it unless the object says that it is closed. Taking a connection from a pool is checked against the rows and transactions open on the path.""",
  note="Panics are not followed (a deferred close would run, another would not). Closing in another goroutine or by an unknown callback is trusted. zip.Writer and timers are not resources.")
P("C35", "What is acknowledged is readable after a crash of the machine",
  """Records whose append was acknowledged are readable after the process, or the machine, was ended at any point: a chunk file that was being grown, written or repaired is opened again with every acknowledged record in it.""",
  ["crash_points", "histories"], "every point of every write to a mapped file, every order in which the kernel writes pages back",
  "Tests end cleanly.",
  ["golibs/files/mmfile.go", "pkg/storage/chunkfs/chunk.go", "pkg/storage/logfs/locallog.go"],
  [("mapped file", "files.MMFile"), ("repair on open", "Chunk.Open")],
  na="""Which bytes of a shared mapping are on the disk after a crash depends on the write-back order of the kernel, which no construct of the source determines (there is no sync before an acknowledgement; the source shows only that none is asked for). That each path publishes the counters last and that the reader checks before it trusts is decided under C05 and C07.""")
P("C36", "Concurrent appends and queries are linearizable per log",
  """Appends to one log take effect in one order that agrees with real time, record IDs grow in that order, and every query sees a prefix of it, whatever appends, queries, merges and evictions run at the same time.""",
  ["schedules", "histories"], "every interleaving of any number of clients over any number of operations",
  "Tests run a handful of goroutines.",
  ["pkg/storage/logfs/locallog.go", "pkg/storage/chunkfs/chunk.go", "pkg/storage/cache/cache.go", "golibs/ulidutils/ulid.go"],
  [("appends", "localLog.AppendRecords"), ("queries", "localLog.QueryRecords")],
  na="""Agreement of all histories with one order is a statement about values of different operations (IDs made from the clock and the order in which caches are invalidated); a static argument for it needs an invariant relating the heaps of several threads, which dataflow cannot express. The locks that order the writers and protect the shared state (C21), the order of publication (C05, C08) and the freshness of the metadata cache (C10) are decided.""")
P("C37", "The database, S3 and Redis answer as the code expects",
  """The statements sent to postgres, the requests sent to S3 and the commands sent to redis mean there what the code relies on: transactions isolate, upserts replace, listings are complete, conditional writes are atomic, keys expire.""",
  ["histories", "faults"], "every state of the external services and every concurrent client of them",
  "The tests have no such services.",
  ["pkg/storage/postgres/postgres.go", "golibs/sss/s3/storage.go", "golibs/kvs/redis/redis.go"],
  [("statements", "postgres.Storage"), ("requests", "s3.Storage"), ("commands", "redis.client")],
  na="""The behaviour is that of services outside of the repository; its source contains only the requests. That the requests have the right form, order and arguments is decided under C15, C16, C17, C24, C29 and C33.""")
P("C38", "Replication and sweeping keep up",
  """With replication on, every chunk that is not written any more reaches the remote storage within the sync threshold plus one round, and the local folder stays under its limit, whatever the load is.""",
  ["schedules", "histories"], "every load, every speed of the remote storage",
  "Time and load.",
  ["pkg/storage/chunkfs/scanner.go", "pkg/storage/chunkfs/replicator.go"],
  [("rounds", "Scanner.watcherWithF"), ("sweep", "Scanner.sweep")],
  na="""It bounds running times and sizes of files at run time, which the source does not determine. That no chunk is forgotten or marked too early is decided under C32, that a round ends and its goroutines report under C22.""")
