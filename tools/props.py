#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})
D = "internal/infra/delta/"; I = "internal/infra/index/"; R = "internal/infra/recdb/"; DOM = "internal/domain/"
API = "internal/api/shard/"; H = "internal/helpers/"

prop("C01", "Change log answers with the latest operation per user and item",
 "Whatever sequence of add and remove operations, flushes, clean closes and reopenings a change log goes through, looking up a user/item pair returns the most recent operation recorded for exactly that pair, and reports absence for a pair never recorded. Operations on other users or items never change the answer.",
 ["histories", "inputs"], "all operation histories over colliding users and items, from an empty and from a populated file",
 "The tests record three operations and look them up before or after one close; they never look up a flushed pair after a new unflushed operation of the same user, nor mix flush, reopen and opposite operations.",
 [D+"storage.go", D+"storagefactory.go", D+"protocol.go"],
 [("lookup over unflushed then flushed operations", D+"storage.go Get"), ("replace-or-append of an unflushed operation", D+"storage.go Add"), ("append to file and move to the loaded view", D+"storage.go flushEntries"), ("load on open", D+"storagefactory.go Open")],
 [("deltaCache/newDelta", "flushed and unflushed operations per user", D+"storage.go")], ["DeltaStorage.Get"])
prop("C02", "Change log counters and reported size match what is stored",
 "At every moment the change log reports as user count the number of distinct users that have operations, and as item count the number of stored operations, where repeated operations on one pair between two flushes count once. After every flush the file is exactly as long as the reported file size and its header announces exactly the stored operations, and the three figures survive close and reopen.",
 ["histories", "inputs"], "all operation histories as in C01, including repeated and opposite operations across flushes",
 "Tests check the counters once, before any flush or after a single reopen; they never compare the reported size with the file, nor count users present both flushed and unflushed.",
 [D+"storage.go", D+"storagefactory.go"],
 [("counter maintenance", D+"storage.go Add, flushEntries"), ("user count over both views", D+"storage.go GetUserCount"), ("header rewrite", D+"storage.go flushHeader")],
 [("totalItemCount", "flushed + unflushed operations", D+"storage.go")], ["DeltaStorage.GetUserCount/GetTotalItemCount/GetFileSize", "file length and header"])
prop("C03", "Acknowledged change-log operations survive a crash at any point",
 "If the process dies at any point while a change log is being created, opened, appended to, flushed, closed or recovered, including in the middle of a file write, opening the file again with recovery succeeds and for every user/item pair yields the operation of the last successful flush or a later attempted one. Nothing that was never recorded appears, and the reopened log is fully usable and loses nothing afterwards.",
 ["crash_points", "histories"], "all crash points (before, between and inside every file write or truncation) of all short histories, including crashes during recovery itself",
 "Tests recover three hand-made byte strings; no test interrupts the code itself, and none crashes during creation or recovery.",
 [D+"storage.go", D+"storagefactory.go", D+"protocol.go"],
 [("in-use mark set on open, cleared last on close", D+"storagefactory.go Open, "+D+"storage.go Close"), ("recovery of a marked file", D+"protocol.go RecoverTo, "+D+"storagefactory.go Recover, OpenMaybeRecover")],
 [("Locked header byte", "file not cleanly closed", D+"protocol.go")], ["OpenMaybeRecover on the file bytes left by the crash"])
prop("C04", "Recovery keeps exactly the intact records of a damaged change log",
 "Recovering a change log that was cut short, has damaged or zero-filled bytes, or announces a wrong number of records keeps precisely the complete records whose checksum is right and whose operation is one of the two known ones, in their original order, and drops everything else; a file whose signature or header cannot be read becomes an empty log. The result is a consistent file not marked in use that opens normally, and recovering it again changes nothing.",
 ["inputs"], "every truncation length, every single-byte and every zero-filled-range damage, and every announced count, of small logs",
 "Tests damage one record in one way (five fixtures); which byte, which record and what follows it is not varied.",
 [D+"protocol.go", D+"storagefactory.go"],
 [("record copy loop", D+"protocol.go RecoverTo"), ("checksum", D+"protocol.go CalcEntryChecksum"), ("copy back and truncate", D+"storagefactory.go Recover")],
 [], ["file bytes after Recover", "operations after OpenMaybeRecover"])
prop("C05", "A failing file operation never loses change-log data silently",
 "If reading, writing (including a partial write), seeking or truncating the underlying file fails while a change log is opened, flushed, closed or recovered, the call in progress reports an error, and no operation covered by an earlier successful flush is lost. Once the file works again, a repeated flush or close stores every pending operation exactly once.",
 ["fault_sequences", "histories"], "every single failing file call, with every partial-write length, in every short history, followed by a retry or a crash-recovery",
 "The tests' in-memory file never fails.",
 [D+"storage.go", D+"storagefactory.go", D+"protocol.go"],
 [("error propagation and retry position", D+"storage.go flushHeader, flushEntries, Close"), ("error propagation", D+"protocol.go RecoverTo")],
 [("unflushedItemCount/newDelta", "pending operations", D+"storage.go")], ["returned errors", "file contents after the retry"])
prop("C06", "Index is an exact map and survives clean close and reopen",
 "For any sequence of put, remove, get, clean close and reopen, the index returns for each identifier exactly the value last put, or absence if it was removed or never put. Closing and reopening changes no answer, even when the index shrank.",
 ["histories", "inputs"], "all operation histories over a few identifiers and boundary values, from empty and populated files",
 "Tests put two identifiers, remove one and read the file back by hand; one of them is flaky because of map order; none reopens after shrinking or overwriting.",
 [I+"storage.go", I+"storagefactory.go", I+"protocol.go"],
 [("in-memory map", I+"storage.go Put, Remove, Get"), ("save on close", I+"storage.go Close, saveHeader, saveEntries"), ("load on open", I+"storage.go load")],
 [("indices", "identifier to position map", I+"storage.go")], ["IndexStorage.Get after reopen"])
prop("C07", "Index is never silently wrong after a crash or failed I/O",
 "If the process dies at any point of creating, opening or closing an index file (including in the middle of a write), or a file operation fails there, opening the file afterwards either yields exactly the mapping of the last close that completed or was completing, or is refused. It never yields a different mapping, and a failing file operation is reported by the call in progress.",
 ["crash_points", "fault_sequences", "histories"], "all crash points and single I/O faults of all short multi-session histories",
 "Tests only open and close without faults; the order of the unlock and the data writes is not observable to them.",
 [I+"storage.go", I+"storagefactory.go"],
 [("in-use mark", I+"storage.go create, load, Close")], [("Locked header byte", "file not cleanly closed", I+"protocol.go")], ["Open on the file bytes left by the crash"])
prop("C08", "A data file in use or not cleanly closed is refused",
 "Change-log, index and record-database files that carry the in-use mark are refused by plain opening, which leaves the file unmodified. A change log or index carries the mark at every moment from a successful open until its clean close, and loses it when a close succeeds.",
 ["histories", "inputs"], "all histories of open, mutate, flush, close and second opens on the same file, and every non-zero mark value",
 "Tests check the mark right after opening and right after closing only, never in between (after flushes), and never that the refusal leaves the bytes alone.",
 [D+"storagefactory.go", D+"storage.go", I+"storage.go", R+"iterator.go"],
 [("mark check on open", D+"storagefactory.go Open, "+I+"storage.go load, "+R+"iterator.go NewIterator"), ("mark writes", "WriteLocked of the three protocols; flushHeader")],
 [("Locked header byte", "in use or not cleanly closed", "the three protocol.go")], ["file bytes", "second open"])
prop("C09", "Rewriting a database record changes that record and nothing else",
 "While iterating a record database, rewriting the record just read replaces exactly that record in the file, leaves every other byte unchanged, and iteration continues with the next record; a rewrite with a different capacity or without a record just read is refused and changes nothing. Iteration yields the announced records in order, each once, then reports the end, and rewinding restarts it over the current content.",
 ["histories", "inputs"], "all sequences of next, rewrite, rewind over databases with several records of differing sizes, below and above the read-buffer size",
 "The only rewrite test uses a single record that ends at end of file, where buffered read-ahead happens to coincide with the right position.",
 [R+"iterator.go", R+"protocol.go", R+"likeprotocol.go"],
 [("position tracking", R+"iterator.go Next, SetPrevious, Rewind")], [("fileOffset/entryIndex", "position of the next record", R+"iterator.go")], ["file bytes", "records yielded"])
prop("C10", "Database records round-trip exactly within their capacity",
 "Any profile written as a record with sufficient capacity is read back identical, and writing and reading both consume exactly the declared capacity with zero-filled spare space, however the underlying reader splits the data. A record whose data does not fit its capacity is refused on writing, before anything is written, and on reading; predicted sizes are exact and predicted capacities always sufficient.",
 ["inputs"], "all profiles over small like/dislike counts and boundary identifiers, all capacities around the exact size and around the zero-fill chunk sizes, all reader chunkings",
 "Tests encode and decode a single profile with a single capacity from a single contiguous reader.",
 [R+"protocol.go", R+"likeprotocol.go", H+"io.go"],
 [("encode/decode", R+"likeprotocol.go ReadEntryData, WriteEntryData"), ("capacity padding and skipping", R+"protocol.go WriteEntry, ReadEntry")], [], ["bytes written", "entries read", "reader position"])
prop("C11", "Malformed data files are refused without crashing",
 "Opening, reading, recovering or iterating any byte string as a change log, index or record database ends with a result or an error. It never panics, never runs forever and never allocates memory out of proportion to the input.",
 ["inputs"], "every prefix, every single-byte substitution and every boundary value of each length or count field of valid files of the three types",
 "Tests feed at most a handful of fixed malformed inputs per format.",
 [D+"protocol.go", D+"storagefactory.go", I+"protocol.go", I+"storage.go", R+"protocol.go", R+"likeprotocol.go", R+"iterator.go"],
 [("length checks before use", R+"likeprotocol.go ReadEntryData"), ("full reads", "ReadPrefix/ReadHeader/ReadEntry of the three protocols")], [], ["returned error", "panics", "bytes allocated"])
prop("C12", "On-disk formats are byte-stable and lock updates touch one byte",
 "Signatures, headers and records of the three file types are encoded as the documented fixed big-endian layouts and decode back to the same values, including a record checksum that is the sum of the record's other bytes. A file with any other signature is not opened as one of that type and is left unmodified. Initialising an empty record database writes exactly its signature and empty header. Setting or testing the in-use mark changes or reads only that byte and leaves the file position where it was.",
 ["inputs"], "every byte value in every field position, all file positions, all three formats",
 "Tests use one value per field and never check the file position after lock operations at a position other than the start.",
 [D+"protocol.go", I+"protocol.go", R+"protocol.go"],
 [("codecs", "WritePrefix/WriteHeader/WriteEntry and readers"), ("lock byte", "WriteLocked/IsLocked"), ("initialisation", R+"protocol.go Create")], [], ["bytes written", "values read", "file position"])
prop("C13", "A profile classifies every item by the last operation on it",
 "After any sequence of like, dislike, un-like, un-dislike and remove operations on a profile, each item is liked, disliked or unknown exactly as the last effective operation on it says, and operations on one item never affect another. Both item lists stay strictly ascending and no item is in both.",
 ["histories", "inputs"], "all operation sequences over a set of items including boundary identifiers, from empty and populated profiles",
 "Tests use two items and at most five operations in one fixed order.",
 [DOM+"profile.go", H+"arrays.go"],
 [("sorted insertion and removal", H+"arrays.go PutSavingOrder, RemoveSavingOrder"), ("exclusion", DOM+"profile.go Like, Dislike")],
 [("Likes/Dislikes", "sorted item lists", DOM+"profile.go")], ["QualifyItem", "Likes", "Dislikes"])
prop("C14", "Profile similarity is the weighted overlap, symmetric and within 0..100",
 "For any two profiles and any dislike factor from 0 to 1, similarity is 100 times the mean of the overlap ratios (intersection over union) of their likes and of their dislikes, weighted by union size with the dislikes' weight multiplied by the factor, and 0 when nothing carries weight. It is therefore always a number in 0..100, symmetric, and changes neither profile.",
 ["inputs"], "all pairs of profiles over a small item universe and a grid of factors",
 "Tests compare five pairs, always with factor 1 and both lists non-empty.",
 [DOM+"profile.go", H+"arrays.go"],
 [("overlap computation", DOM+"profile.go computeSimilarityBetweenSets, ComputeSimilarity")], [], ["ComputeSimilarity"])
prop("C15", "Sorted-list helpers find, insert and remove without breaking order",
 "For any sorted list whose value distances are representable in its element type: searching returns a position of the value exactly when it is present, nearest-search returns a position of minimal distance, ordered insertion keeps the list sorted and adds exactly the given value, put-if-absent leaves an existing value alone, and ordered removal removes exactly the given position. Unordered removal removes exactly one element and keeps all others.",
 ["inputs"], "all sorted lists up to a bounded length over a bounded universe (including extremes of the identifier type) and every needle or position, with spare capacity or none",
 "Tests check about ten fixtures per helper.",
 [H+"arrays.go"], [("binary search", H+"arrays.go BinaryIndexOf, BinaryIndexOfClosest"), ("insertion/removal", H+"arrays.go Insert, InsertSavingOrder, PutSavingOrder, Remove, RemoveSavingOrder")], [], ["returned indexes and slices"])
prop("C16", "Every request to a running namespace gets exactly one answer",
 "Whatever the interleaving of concurrent callers with each other and with stopping the namespace or cancelling its context, every request to a started namespace returns exactly once, with the storage's answer to this very request or with an error. No caller waits forever, nothing panics, and stopping may be repeated or combined with cancelling.",
 ["schedules", "histories"], "all interleavings (up to a preemption bound) of small groups of callers, stoppers and cancellation with the namespace's worker",
 "No test starts a namespace at all; races between callers and shutdown need specific interleavings.",
 [DOM+"likenamespace.go", R+"likestorage.go", DOM+"actions.go"],
 [("queue and reply channels", DOM+"likenamespace.go Like, Dislike, ..."), ("worker loop and drain", DOM+"likenamespace.go Start, sendStoppedLikeNamespaceErrorToActionWaiters"), ("replies", R+"likestorage.go ProcessActions")],
 [("action", "request queue", DOM+"likenamespace.go")], ["return values of the request methods", "deadlock or panic"], "source instrumentation of channel and lock operations at check build time (no change in /repo)")
prop("C17", "Requests are executed at most once, in order, and in batches",
 "A namespace hands each request to its storage at most once, unaltered, and in the order in which the requests were queued, those of one caller in the order it submits them; a request answered with the stopped error was not executed. Requests that queue up while the worker is waiting to fill a batch are handed over together in one batch.",
 ["schedules", "histories"], "all interleavings (up to a preemption bound) of small groups of callers, stop and cancellation with the worker, under a virtual clock",
 "No test runs the worker; batching and order under concurrency are schedule-dependent.",
 [DOM+"likenamespace.go"], [("batch collection", DOM+"likenamespace.go Start")], [("action", "request queue", DOM+"likenamespace.go")], ["batches received by the storage", "virtual time of completion"], "as C16")
prop("C18", "Stopping a namespace closes each storage once, after its last batch",
 "When a started namespace is stopped or its context is cancelled, at whatever moment, its worker ends and the change log, index and profile storages are each closed exactly once. No batch is processed during or after the closing, and none of the storages is closed while the namespace is still running.",
 ["schedules", "histories"], "all interleavings (up to a preemption bound) of callers, stop and cancellation with the worker",
 "No test starts or stops a namespace.",
 [DOM+"likenamespace.go"], [("deferred closes of the worker", DOM+"likenamespace.go Start"), ("drain", DOM+"likenamespace.go sendStoppedLikeNamespaceErrorToActionWaiters")], [], ["Close calls on the storages", "worker termination"], "as C16")
prop("C19", "A namespace starts over whatever files a previous run left",
 "Starting a namespace succeeds over no files at all, files of a clean shutdown, and files left by a process that died at any point of starting, running or stopping; the operations flushed to the change log earlier are still there, so is the content of the profile file, and an index that was not closed properly is emptied. If any storage cannot be opened, start reports an error and every storage opened before is closed.",
 ["crash_points", "histories", "fault_sequences"], "all crash points (between file-system calls and inside writes) of start/write/stop histories, and every combination of failing storages",
 "No test starts a namespace; the change-log and index tests never create a file through the recovery path.",
 [DOM+"likenamespace.go", D+"storagefactory.go", I+"storagefactory.go", I+"storage.go", DOM+"errors.go"],
 [("open-or-recover", DOM+"likenamespace.go openMaybeRecoverDeltaStorage, openMaybeResetIndexStorage, openMaybeRecoverLikeStorage")], [("files", "<base>/<name>.delta, .index, .recdb", DOM+"likenamespace.go")], ["Start result", "file contents"], "standard-library overlay of the os package at check build time")
prop("C20", "Concurrent namespace management behaves as if done one at a time",
 "Concurrent create, update, delete, look-up, list and save calls on the namespace service return results, and leave a registry, that some one-at-a-time order of the same calls would give. In particular names stay unique, no successful registration is lost, and the saved registry file ends up equal to the listed namespaces. That includes the data directory going away and coming back meanwhile: a change that cannot be saved fails and changes nothing.",
 ["schedules"], "all interleavings (up to a preemption bound) of two or three management calls on colliding names",
 "No test touches the service; HTTP handlers call it from concurrent goroutines.",
 [DOM+"namespaceservice.go", DOM+"likenamespace.go", API+"endpoints/namespaceendpoint.go"],
 [("registry list", DOM+"namespaceservice.go CreateNamespace, UpdateNamespace, DeleteNamespace, GetNamespaces")], [("namespaces", "registered namespaces", DOM+"namespaceservice.go")], ["call results", "GetNamespaces", "registry file"], "source instrumentation as C16")
prop("C21", "The namespace registry survives a restart",
 "After any sequence of successful namespace creations, updates and deletions, a newly started service loading the saved registry lists exactly the same namespaces with the same names, types and settings, and can go on being managed. An unreadable or malformed registry is reported as an error and registers nothing.",
 ["histories", "inputs"], "all sequences of management operations over a few names and settings, each followed by a restart, plus every prefix and byte damage class of a saved registry",
 "No test saves or loads the registry.",
 [DOM+"namespaceservice.go", DOM+"likenamespace.go", "main.go"], [("save and load", DOM+"namespaceservice.go SaveNamespaces, LoadNamespaces")], [("namespaces.json", "saved registry", DOM+"namespaceservice.go")], ["GetNamespaces after LoadNamespaces"])
prop("C22", "A crash while saving never damages the namespace registry",
 "If the process dies at any point during a namespace creation, update, deletion or save, including in the middle of writing, the registry found at the next start is complete: either the one before or the one after the operation in progress. Everything acknowledged earlier is in it.",
 ["crash_points", "histories"], "all crash points (between file-system calls and inside writes) of all short management histories",
 "No test saves the registry, let alone interrupts the save.",
 [DOM+"namespaceservice.go"], [("replacement of the saved file", DOM+"namespaceservice.go SaveNamespaces")], [("namespaces.json", "saved registry", DOM+"namespaceservice.go")], ["LoadNamespaces on the directory left by the crash"], "standard-library overlay of the os package at check build time")
prop("C23", "A rejected or failed management operation changes nothing",
 "When a namespace creation, update or deletion returns an error, because the name is taken or unknown or because the registry cannot be saved, the listed namespaces, their settings and the saved registry are as they were before the call, and a namespace whose deletion failed keeps running. The same call succeeds once the cause is gone.",
 ["fault_sequences", "histories"], "all short management histories with every single failing file-system call, and every rejected operation",
 "No test exercises the service, and none makes a save fail.",
 [DOM+"namespaceservice.go"], [("rollback after a failed save", DOM+"namespaceservice.go CreateNamespace, UpdateNamespace, DeleteNamespace")], [("namespaces", "registered namespaces", DOM+"namespaceservice.go")], ["GetNamespaces", "registry file"], "standard-library overlay of the os package at check build time")
prop("C24", "The REST interface reflects the registry faithfully",
 "For any sequence of HTTP requests, creating answers 201 with the stored values (similar-profile limit 1000 when omitted), getting and listing return exactly the registered namespaces, and updating changes exactly the addressed one and answers with its new values. Invalid bodies (missing name, type or factor, malformed names, unknown type, factor outside 0..1) and taken names get a 4xx answer, unknown namespaces 404, and none of those changes anything; every factor from 0 to 1 inclusive is accepted.",
 ["histories", "inputs"], "all request sequences up to a bounded length over valid and invalid requests on colliding names",
 "No test sends a request.",
 [API+"endpoints/namespaceendpoint.go", API+"endpoints/helpers.go", API+"dto/namespacecreaterequest.go", API+"dto/namespaceupdaterequest.go", API+"dto/namespaceresponse.go", API+"dto/validationerror.go", DOM+"namespaceservice.go"],
 [("routes and handlers", API+"endpoints/namespaceendpoint.go"), ("validation", API+"dto/*.go")], [], ["HTTP status and body"])
prop("C25", "Namespace data always stays in the configured data directory",
 "A text is accepted as a namespace name exactly when it is a letter followed by letters, digits, underscores or hyphens, so an accepted name can never address another directory or another namespace's files. All files a namespace or the registry creates lie directly in the configured data directory, with or without a trailing slash in the configuration; the files of a namespace are named after it.",
 ["inputs", "configurations"], "all texts up to a bounded length over an alphabet of hostile characters, single insertions of every byte value, and all data-directory configurations",
 "No test parses a name or creates a namespace file.",
 [DOM+"valueobjects/namespacename.go", DOM+"namespaceservice.go", DOM+"likenamespace.go"],
 [("name pattern", DOM+"valueobjects/namespacename.go"), ("base path", DOM+"namespaceservice.go NewNamespaceService, forgeNamespace; "+DOM+"likenamespace.go open*")], [], ["ParseNamespaceName", "files created"], "standard-library overlay of the os package at check build time")
prop("C26", "The server run ends on a listen error or a termination signal",
 "Running the server returns an error when its address cannot be listened on, without waiting for a signal, and returns without error after an interrupt or termination signal, having stopped listening and answered the requests in flight (those whose head has arrived), as long as no client keeps it waiting longer than the five seconds it grants.",
 ["fault_sequences", "schedules"], "all combinations of listen outcome, signal kind and request-in-flight phase",
 "No test runs the application.",
 [API+"application.go"], [("listen goroutine and signal wait", API+"application.go Run")], [], ["Run's result", "the listening socket"])
prop("C27", "Configuration falls back to defaults exactly when a value is unusable",
 "The server address is the configured host, or the default host when unset or empty, and the configured port when it is a non-negative integer in decimal digits, or the default port otherwise; caller-supplied defaults take the place of the built-in ones (localhost, 8080).",
 ["configurations"], "all combinations of host settings, port texts and defaults",
 "No test loads the configuration.",
 [API+"config.go"], [("environment lookup", API+"config.go NewConfigFromEnv, GetHostPort")], [], ["Host, Port, GetHostPort"])
prop("C28", "Zero-filling and skipping move exactly the requested number of bytes",
 "Writing zeros emits exactly the requested number of zero bytes and skipping consumes exactly the requested number, however the stream splits its transfers, and both return the number of bytes actually moved. They return an error exactly when the stream fails or ends before that number is reached.",
 ["inputs", "fault_sequences"], "all sizes around the chunk boundaries, all stream chunkings up to a bound, every failure point",
 "These helpers have no tests of their own.",
 [H+"io.go"], [("chunk loop", H+"io.go WriteZeros, SkipReading")], [], ["bytes moved", "returned counts and errors"])
prop("C29", "The in-memory file behaves like a file",
 "After any sequence of reads, writes, seeks, truncations and closing, the in-memory file used for recovery has the content, position and results that an ordinary file of the same content would have, except that seeking beyond the end is refused and that truncating below the position moves the position to the new end. After closing every operation but closing is refused.",
 ["histories"], "all operation sequences up to a bounded length over small data, against a byte-array model and a real file",
 "The in-memory file is only used by tests as a helper, never tested itself.",
 [H+"file_buffer.go"], [("buffer and offset", H+"file_buffer.go")], [("buffer/offset", "content and position", H+"file_buffer.go")], ["results, Bytes, Len"])
prop("C30", "The program serves the configured registry and keeps it across restarts",
 "Started in a directory with an .env file, the program serves the REST interface at the configured address only, settings of the process environment taking precedence over the file, and lists exactly the namespaces registered in the configured data directory by earlier runs, whether those ended by a termination signal or were killed: every acknowledged creation and update is there, and a request in flight when it was killed is either complete or absent. Starting and ending alone change no registry, not even one that cannot be loaded. Ended by a termination signal, and whatever more of them come, it answers the request in flight and exits with status zero; without a readable .env file or an address it can listen on it exits with a message and a non-zero status.",
 ["histories", "crash_points", "configurations"], "all short histories of requests, terminations and kills of the process, each followed by a restart; all combinations of settings in the file and in the environment; all causes of failing to start",
 "No test runs the program; main.go and its wiring of configuration, registry and server have no tests.",
 ["main.go", API+"application.go", API+"config.go", DOM+"namespaceservice.go"],
 [("wiring", "main.go runShard"), ("settings", "main.go main, "+API+"config.go NewConfigFromEnv"), ("registry", DOM+"namespaceservice.go LoadNamespaces, SaveNamespaces")],
 [("namespaces.json", "saved registry", DOM+"namespaceservice.go")], ["HTTP answers of the running program", "exit status"])
prop("C31", "Concurrent HTTP requests are answered as if served one at a time",
 "Whatever the interleaving of concurrent create, get, list and update requests, each gets one answer, and some one-at-a-time order of the requests explains all of them: which are accepted and which refused, which namespaces are shown, and the registry afterwards, in memory and in the saved file. Every value an answer shows is one that this namespace had at some moment while the request was served.",
 ["schedules"], "all interleavings (up to a preemption bound) of two or three HTTP requests on colliding names, and of clients with two requests each",
 "No test sends a request, let alone two at a time; handlers run on a goroutine per connection.",
 [API+"endpoints/namespaceendpoint.go", API+"endpoints/helpers.go", API+"dto/namespacecreaterequest.go", API+"dto/namespaceupdaterequest.go", API+"dto/namespaceresponse.go", DOM+"namespaceservice.go", DOM+"likenamespace.go"],
 [("handlers", API+"endpoints/namespaceendpoint.go Create, Get, List, Update"), ("answers", API+"dto/namespaceresponse.go"), ("registry list", DOM+"namespaceservice.go")],
 [("namespaces", "registered namespaces", DOM+"namespaceservice.go")], ["HTTP status and body", "GetNamespaces", "registry file"], "source instrumentation as C16")
prop("C32", "Failing reads and writes of database records are never taken for data",
 "If reading, writing or positioning fails (also after a part has been transferred), or the file ends early, while a record database is initialised, a header or record is read or written, the in-use mark is set or tested, or records are iterated, rewound or rewritten, the failure is reported as an error, at the latest by the call that needs the bytes. Reading and iterating only ever yield records that are stored. Once the file works again, iteration goes on with the record it failed at and rewriting a record again stores it completely; records other than the one being rewritten never change.",
 ["faults", "histories"], "all sequences of next, rewind and rewriting up to a depth x every placement of up to two (thorough: three) failing file operations x partial transfers; every single transfer of the codec failing; files cut at every byte",
 "Tests use no failing file in this package.",
 [R+"iterator.go", R+"protocol.go", R+"likeprotocol.go", H+"io.go"],
 [("position after a failure", R+"iterator.go Next, Rewind, SetPrevious"), ("errors passed on", R+"likeprotocol.go WriteEntryData, ReadEntryData; "+R+"protocol.go")], [], ["errors returned", "entries yielded", "bytes of the file"])
prop("C33", "Refused HTTP requests are told what is wrong, field by field",
 "Every refused request to the namespaces' addresses is answered with exactly one JSON object. If values of the body's fields are missing or break the declared limits, it names every such field, each once and with a description that tells a missing value, a value below and one above the range, or a wrong choice apart, and names no field in which nothing is wrong. Otherwise (bodies that cannot be understood, unknown, misnamed or taken namespaces, a registry that cannot be saved) it carries a message.",
 ["inputs"], "all combinations of good, missing, out-of-range and mistyped values of the four fields, in creations and updates of existing, other and missing namespaces; all bodies that are no objects; failing saves",
 "No test sends a request.",
 [API+"endpoints/helpers.go", API+"endpoints/namespaceendpoint.go", API+"dto/validationerror.go", API+"dto/error.go", API+"dto/namespacecreaterequest.go", API+"dto/namespaceupdaterequest.go"],
 [("descriptions", API+"endpoints/helpers.go AbortWithBindingErrors, AbortWithValidationError"), ("validation", API+"dto/*.go")], [], ["HTTP status, content type and body"])
prop("C34", "Concurrent use never races on memory",
 "Whatever the interleaving of concurrent operations on one namespace (starting, stopping, renaming, settings, requests), of management calls, of HTTP requests, and of uses of separate storages, record databases, streams, profiles and namespaces, any two accesses to the same memory of which one writes are ordered by a lock, a channel, an atomic or the start of a goroutine. So no half-written name, list, buffer or setting is ever read and uses of separate objects do not disturb each other.",
 ["schedules"], "all interleavings (up to a preemption bound) of two or three operations, on the same namespace, the same service, the same server and on separate objects, each judged for every order its synchronisation allows",
 "The race detector reports only what one run of the tests happens to do, and no test runs two operations at a time.",
 [DOM+"likenamespace.go", DOM+"namespaceservice.go", DOM+"profile.go", API+"endpoints/namespaceendpoint.go", API+"endpoints/helpers.go", D+"protocol.go", I+"protocol.go", R+"protocol.go", R+"likeprotocol.go", H+"io.go", "internal/domain/valueobjects/namespacename.go"],
 [("locks of a namespace", DOM+"likenamespace.go settingsMutex, queueMutex"), ("lock of the registry", DOM+"namespaceservice.go mutex"), ("package variables", H+"io.go; "+D+"protocol.go; "+I+"protocol.go")], [], ["memory accesses, by the race detector"], "source instrumentation as C16, build with the race detector")
for p in P: print(json.dumps(p))
