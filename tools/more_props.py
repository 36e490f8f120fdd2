X = ["src/ConfDataStoreDB.h", "src/AllConfStoreDB.h", "src/DBFunc.cpp", "src/DBCursor.cpp", "src/FileDB.cpp"]
prop("P12", "The typed C++ store behaves like a map of its keys and objects",
 "A ConfDataStoreDB of strings, of the library's vectors of numbers (VFloatData) or of the user's own classes, and its string-only variant, on a file behaves exactly like a map from serialised keys to serialised objects, within a session and over every sequence of close, destruction and reopen of the same or another object: get returns the object last inserted under the key or reports absence, exist agrees with get, keys, allPairs and the binary listings return every key exactly once with its value, user information is kept, and a disk that fails leads to an error code or exception, never to a wrong object, a missing key or a wrong listing. A closed or never opened store refuses every call, and a new file has exactly the permissions asked for.",
 ["inputs", "histories", "configurations", "fault_sequences"], "All sequences of inserts, replacements, reads, listings, flushes, closes and reopens, all key and object sizes, all option settings, all failing system calls.",
 "The tests write one database of strings in one order and read it in another process.",
 X, mech(("typed insert and get", "src/DBFunc.h insertData, getData"), ("listing by cursor", "src/DBCursor.cpp"), ("numbers kept bit for bit", "src/VFloatData.cpp"), ("open, options, destructor close", "src/ConfDataStoreDB.h, src/FileDB.cpp")),
 ["results of the C++ calls", "state found by a new process"], "deterministic simulation of the C++ store, refinement against a reference map, disk error injection")
prop("P13", "An ensemble store keeps one element per configuration, each on its own",
 "An AllConfStoreDB maps each key to one element per configuration. Inserting a row and updating single elements by index read back exactly as a table of elements would: an update changes that element only, in the same and in all later sessions; rows of another number of elements, elements of another size, indices out of range, updates of absent keys and every modification of a read-only store are refused without effect; the configuration numbers, file names and flags set by open, insert and setConfigInfo are kept. A disk that fails leads to an error, never to a shifted, mixed or lost element reported as good.",
 ["inputs", "histories", "configurations", "fault_sequences"], "All sequences of row inserts, element updates, configuration updates and sessions, all element sizes and configuration counts, all failing system calls.",
 "The tests create one ensemble, update one element and compare it.",
 ["src/AllConfStoreDB.h", "src/AllConfStoreDB.cpp", "src/ConfigInfo.cpp", "src/DBFunc.cpp"], mech(("rows as concatenated elements", "src/AllConfStoreDB.h insert, get, update"), ("configuration table", "src/AllConfStoreDB.cpp, src/ConfigInfo.cpp")),
 ["results of the C++ calls", "state found by a new process"], "deterministic simulation of the C++ ensemble store, refinement against a reference table, disk error injection")
prop("P14", "A merge is complete and right, or it is not reported as done",
 "ConfDataDBMerger run over one database per configuration leaves an ensemble in which every key of the sources has exactly the element of configuration i in position i (a blank element for a configuration without database), each merged configuration is marked as inserted with its number, file and time, and the sources are unchanged byte for byte, for every memory limit (number of chunks). If a source is missing, lacks a key, has elements of another size, or the disk fails, the merge reports failure or stops the process; it never returns normally with rows missing, mixed up or shifted.",
 ["inputs", "configurations", "fault_sequences", "crash_points"], "All source contents, key orders, chunk sizes and sets of present configurations, all failing system calls.",
 "The merge test merges a few files made by the same program with one memory limit and compares nothing but a few keys.",
 ["src/ConfDataDBMerger.h", "src/AllConfStoreDB.h"], mech(("merge in chunks of keys", "src/ConfDataDBMerger.h merge"), ("insert and configuration info", "src/AllConfStoreDB.h insert, setConfigInfo")),
 ["contents of the ensemble", "exceptions, process end", "bytes of the sources"], "deterministic simulation of merges, refinement against a reference table, disk error and crash injection")
prop("P15", "A lookup over several files answers from the first that has the key",
 "ConfDataStoreMultipleDB and AllConfStoreMultipleDB answer a get with the object of the first file in the given order that holds the key, and report absence only if none does. A file that cannot be read makes the lookup an error; it is never answered from a later file or as absence. No file is changed, and open fails if one of the files cannot be opened.",
 ["inputs", "histories", "fault_sequences"], "All distributions of keys over up to three files, all orders, all failing system calls.",
 "There is no test of these classes at all.",
 ["src/ConfDataStoreMultipleDB.h", "src/AllConfStoreMultipleDB.h"], mech(("search in file order", "src/ConfDataStoreMultipleDB.h get, src/AllConfStoreMultipleDB.h get"), ("open of all files", "open")),
 ["results of get", "bytes of the files"], "deterministic simulation, refinement against a list of reference maps, read error injection")
prop("P16", "Files from earlier releases and other machines keep working",
 "A database file that an earlier build of the library wrote, in the present format or in format version 5, on a machine of the same or of the other byte order, opens and reads exactly (keys, values, user information, configuration table, typed and ensemble contents), and can be extended, replaced into, synced, closed and reopened like a new one.",
 ["inputs", "histories", "configurations"], "All contents of existing files, all sequences of read and write sessions on them.",
 "The tests only read files that the same build has just written on the same machine, so a changed checksum, hash function, field order or byte swap goes unnoticed.",
 C + ["filehash/ffdb_hash_func.c", "src/DBString.cpp"], mech(("byte swapping of pages and header", "ffdb_page.c ffdb_pgin_routine, ffdb_pgout_routine, ffdb_hash.c _ffdb_swap_header"), ("format version 5", "ffdb_page.c, data_valid_flag"), ("default hash and checksum functions", "ffdb_hash_func.c"), ("serialisation of strings", "src/DBString.cpp")),
 ["results of reads on kept files"], "deterministic simulation starting from kept database files, refinement against their recorded contents")
prop("P17", "Databases open in the same process do not disturb each other",
 "Any number of databases open at once in one process, used in turn or each by a thread of its own, and several read-only handles on one file each used by its own thread, behave exactly as if each were alone: same results, same files, no deadlock, no crash, from the first open in a fresh process to the last close. A disk that fails under one of them has no effect on the others.",
 ["schedules", "histories", "inputs", "fault_sequences"], "All interleavings of the threads, all sequences of calls per handle.",
 "No test opens two databases at once or uses a thread.",
 C + ["filehash/ffdb_hash_func.c"], mech(("state per handle, none shared", "ffdb_hash.c ffdb_dbopen, ffdb_pagepool.c"), ("tables shared by all handles", "ffdb_hash_func.c __ffdb_crc32_init")),
 ["results of every call", "files after the close"], "deterministic simulation of threads, one handle each, under a seeded scheduler, refinement against one reference map per file")
prop("P18", "Nothing stays behind when everything is closed",
 "Once every database, store and cursor of a process is closed and what calls returned is released, no file descriptor and no memory of the library is left and the process's file creation mask is what it was, whatever happened before: refused calls, failing opens, reads that failed in the middle of a value, exceptions. A process can open, use and close databases for ever.",
 ["histories", "inputs", "fault_sequences"], "All sequences of sessions and all failing system calls.",
 "The tests run short processes whose leaks nobody sees.",
 C + ["src/DBFunc.h", "src/DBFunc.cpp", "src/ConfDataStoreDB.h", "src/AllConfStoreDB.h"], mech(("error paths of open", "ffdb_hash.c ffdb_dbopen"), ("page pool release", "ffdb_pagepool.c ffdb_pagepool_close"), ("typed calls", "src/DBFunc.h")),
 ["open descriptors", "live allocations"], "deterministic simulation with disk error injection, resource accounting at every quiescent state")
prop("P19", "Running out of memory never damages or misreports data",
 "When an allocation fails during a call of the C functions or the C++ stores, the call in progress reports an error (an error result or an exception) or the process stops; no call ever reports success without effect or returns a wrong value or a false absence, no memory is accessed wrongly, no lock is left taken, and what was synced or closed before is intact for this and later processes.",
 ["fault_sequences", "histories", "inputs"], "All failing allocations, alone or in series, at every point of every session.",
 "No test makes an allocation fail.",
 C, mech(("cache pages", "ffdb_pagepool.c ffdb_pagepool_new_page, ffdb_pagepool_get_page"), ("result buffers", "ffdb_page.c _ffdb_get_data, ffdb_cursor_find_by_key"), ("open", "ffdb_hash.c ffdb_dbopen")),
 ["results of every call", "process end", "state found by a new process"], "deterministic simulation with allocation failure injection, refinement against a reference map")
prop("P20", "What is not a proper database is refused and left alone",
 "Opening a file that is missing, empty, too short, of another kind, of an unknown format version, or written with another hash function, and opening without a name, write-only or with an impossible page size, is refused (an error result; for files whose contents are garbage the process may instead stop); the file stays byte for byte the same, a missing file is not created, no descriptor or memory is left, and databases open in the process go on working. Reading a database file that was cut short or has foreign bytes behind it never returns a value that was not stored, never touches memory wrongly and never hangs.",
 ["inputs", "configurations", "histories"], "All kinds of improper files and arguments, all access modes, both programming interfaces, all cut lengths.",
 "The tests only open proper databases.",
 C + ["src/ConfDataStoreDB.h", "src/AllConfStoreDB.h"], mech(("checks of header, magic number, version and hash function", "ffdb_hash.c __ffdb_hash_open, _ffdb_hget_header"), ("checks of arguments", "ffdb_hash.c __ffdb_hash_open, _ffdb_init_hash")),
 ["results of open", "bytes of the file", "open descriptors and live allocations", "results of the other handles"], "deterministic simulation with damaged and foreign files on the simulated disk, next to databases in use, refinement against reference maps")
prop("P21", "Memory stays within the configured cache",
 "The memory the library holds for a handle is bounded by the configured cache, what opening it allocated, and a small constant number of pages, however large the database is and however many operations (scans, puts, refused calls, reads that fail) are done on it. A database far larger than memory can be created, searched and scanned.",
 ["histories", "inputs", "configurations", "fault_sequences"], "All sequences of operations, all cache sizes, all failing reads.",
 "The tests use databases smaller than the default cache of 128 MB, so eviction hardly happens and a page that is never released is not noticed.",
 ["filehash/ffdb_pagepool.c", "filehash/ffdb_page.c"], mech(("least recently used replacement", "ffdb_pagepool.c _ffdb_pagepool_reuse_bkt"), ("every page taken is put back", "ffdb_page.c")),
 ["live allocations after every operation and at its peak"], "deterministic simulation with read error injection, memory accounting after every operation")
prop("P22", "The file stays in proportion to what it holds",
 "The size of a database file is proportional to the keys and values stored in it. Sessions that store no new key (replacing values, updating user information and configurations, refused puts, reads, syncs, opening and closing, any number of times) do not make the file larger than an earlier such session left it; sessions that add keys, also many sessions with a key or two each, make it grow in proportion to what they add. A close with page rearrangement never makes the file larger, and makes it smaller by letting the last pages fill the gap of pages not in use yet.",
 ["histories", "inputs", "configurations"], "All sequences of sessions, with and without page rearrangement.",
 "The tests never look at the size of the file and reopen it once or twice.",
 C, mech(("replacement in place", "ffdb_page.c _ffdb_replace_data"), ("a new session goes on at the last data page", "ffdb_hash.c"), ("free and overflow pages are used again", "ffdb_page.c")),
 ["size of the file after every close"], "deterministic simulation of sessions, comparison of file sizes")
prop("P23", "Bytes that are not an object of the store's class are never handed over as one",
 "Reading a record whose stored bytes are not a serialised object of the store's key or data class (too short, another magic number, another class number, another number of elements than bytes) through a typed store is reported as an error; it is neither returned as an object nor reported as absent, and no memory is touched wrongly. Proper records beside it are returned rightly, also vectors of numbers as earlier versions stored them, and no listing silently leaves records out.",
 ["inputs", "configurations"], "All contents of the improper record, its place among the others, all store classes and listings.",
 "The tests read what the same classes wrote.",
 ["src/DBString.cpp", "src/VFloatData.cpp", "src/DBFunc.h", "src/ConfDataStoreDB.h", "src/ConfDataStoreDBSimple.h", "src/AllConfStoreDB.h"], mech(("magic number and class number of serialised strings", "src/DBString.cpp readObject"), ("exceptions turned into error results", "src/ConfDataStoreDB.h get, src/AllConfStoreDB.h get")),
 ["results of the C++ calls", "memory errors"], "deterministic simulation of the C++ stores on a simulated disk holding improper records, comparison with what was stored")
prop("P24", "Threads may store, read and sync through one handle at the same time",
 "When several threads put, get, sync and read the configuration table through one writable handle, every call returns what it would return in some serial order of the calls that respects their real-time order; nothing put is lost, no value is mixed or read half, no call reports a false absence or an error, the threads never block each other for ever, and the file is intact in this and every later process. Complete scans may run beside syncs, gets and other scans (not beside puts).",
 ["schedules", "histories", "inputs"], "All interleavings of the threads' calls at every memory access, all key distributions, cache sizes and table states.",
 "No test uses a thread; a race needs a split or a write-back at the wrong moment.",
 C, mech(("table lock", "ffdb_hash.c _ffdb_hash_put, _ffdb_hash_get, _ffdb_hash_sync"), ("page pool lock and page waits", "ffdb_pagepool.c ffdb_pagepool_get_page, ffdb_pagepool_sync"), ("positioned reads and writes on the shared descriptor", "ffdb_pagepool.c, ffdb_hash.c _ffdb_hput_header")),
 ["results of every call with their real-time order", "progress of every thread", "state found by a new process"], "deterministic simulation of threads under a seeded scheduler, linearizability check of the recorded history against a reference map")
