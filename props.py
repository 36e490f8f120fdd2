"""Per property: which simulator binary, how many runs, and what the evidence says about them."""
REAL = ["filehash/ffdb_hash.c, ffdb_page.c, ffdb_pagepool.c, ffdb_db.c, ffdb_hash_func.c (all of the C library, compiled from /repo)"]
STUB = ["file system and disk: in-memory, per-file durable image plus pending writes, quota, injected errors",
        "clock, exit/abort/assert and heap allocation calls: simulated (allocation is backed by the sanitizer's allocator)"]
ST1 = ["pthread mutexes and condition variables: executed by one thread only, misuse is reported"]
MT1 = ["pthread mutexes, condition variables and threads: cooperative fibers under a seeded scheduler with spurious wakeups, pre-emption at every memory access of the library"]
BASE_ASSUME = ["sampling of seeds: a violation outside the sampled executions is missed",
               "values mostly up to 40 kB and page sizes up to 64 kB, in rare runs 2 MB and 1 MB; up to some 500 keys (rarely more than 16384 pages) and 6 sessions in one run"]
XREAL = REAL + ["src/*.h and src/*.cpp (all of the C++ library, compiled from /repo), instantiated with the library's string key and data classes and with raw-byte user classes"]
XSTUB = STUB + ST1 + ["C++ standard library: real, its heap is not failed"]
PROPS = {
 "P01": dict(kind="st", quick=(6000, 80), thorough=(150000, 1500),
   rule="a database with seeded page size, bucket count, cache size, hash function and key style, and a seeded sequence of puts (new, replacing, growing, no-overwrite, over-long keys), gets (library and caller buffers) and cursor scans, compared with a map after every operation.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME),
 "P02": dict(kind="st", quick=(9000, 80), thorough=(150000, 1500),
   rule="two to six write or read-only sessions separated by clean closes, with seeded reopen parameters, cache sizes and page rearrangement, each followed by a full comparison.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME),
 "P03": dict(kind="st", quick=(14000, 80), thorough=(150000, 1500),
   rule="a seeded database traversed by one to four cursors at once, forward and backward, interleaved with reads, on fresh, reopened and read-only handles.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["cursors are not kept open across modifications"]),
 "P04": dict(kind="st", quick=(9000, 80), thorough=(200000, 1500),
   rule="write sessions ended by a successful sync (also while cursors are open), then only reads, syncs, refused puts and clean closes and reopens, and a kill or power loss (all, a prefix, or a seeded, partly torn subset of the unsynced writes survives) before, inside or after any system call; then a new process reads everything back.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["the directory entry of a created file is durable", "close and reopen after the sync are only claimed without page rearrangement"]),
 "P05": dict(kind="st", quick=(24000, 80), thorough=(200000, 1500),
   rule="write sessions cut by a kill (also inside a write) or power loss at any system call, up to three times; the file is then opened read-only and every key read and scanned.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["a value stored under the key at any time before the crash counts as stored", "32 bit checksums do not collide"]),
 "P06": dict(kind="st", quick=(24000, 80), thorough=(200000, 1500),
   rule="a cleanly closed database, one to three flipped bits or a burst of at most 32 bits in one to three of its written pages or its header, then reads from several fresh processes.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["the flips stay inside what a 32 bit CRC always detects"]),
 "P07": dict(kind="st", quick=(6000, 80), thorough=(200000, 1500),
   rule="write sessions during which writes, fsyncs, truncations or closes fail (EIO, ENOSPC, short writes, single or in series), with retries of sync, then a read-only look at the file.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME),
 "P08": dict(kind="st", quick=(5000, 80), thorough=(200000, 1500),
   rule="read sessions on a cleanly closed database during which reads, seeks, opens or stats fail or return less (single or in series); when they stop everything is read again.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME),
 "P09": dict(kind="mt", quick=(9000, 80), thorough=(150000, 1500),
   rule="two to five threads share one handle and get values or complete cursor scans, with a cache smaller or larger than the database, in a quarter of the runs with reads that fail meanwhile; schedule by random walk or priorities with change points (PCT).",
   real=REAL, stub=STUB + MT1, assumptions=BASE_ASSUME + ["sequentially consistent memory between scheduling points", "a thread holds no cursor while it calls get"]),
 "P10": dict(kind="st", quick=(14000, 80), thorough=(150000, 1500),
   rule="one to four read-only handles on one cleanly closed database, seeded reads, scans, syncs and attempts to modify; the file is compared byte for byte at every close.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME),
 "P11": dict(kind="st", quick=(14000, 80), thorough=(150000, 1500),
   rule="seeded sizes of the user information area and of the configuration table (one to 300 entries, several pages), updates of both mixed with puts, syncs and reopens.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["the table is written as a whole before single entries are read"]),
 "P12": dict(kind="x", quick=(16000, 80), thorough=(150000, 1500),
   rule="sessions on typed stores (ConfDataStoreDB with strings, with vectors of numbers and with user-defined keys and data, ConfDataStoreDBSimple) with seeded options; inserts, gets, exist, the five listings, user information, flush, close, destruction and reopen of objects, mixed with failing system calls in half of the runs; every call compared with a map.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME + ["exist() while reads fail is not judged (it has no way to report an error)", "a listing by the key iterator may stop the process when a read fails"]),
 "P13": dict(kind="x", quick=(26000, 80), thorough=(150000, 1500),
   rule="ensembles of one to a dozen configurations with seeded element sizes; row inserts, element updates, wrong rows, wrong indices, configuration info, listings, flush, close and reopen, with failing system calls in half of the runs; every call compared with a table of elements.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME),
 "P14": dict(kind="x", quick=(16000, 80), thorough=(150000, 1500),
   rule="one to four source databases with equal, missing or differing keys and element sizes, written in different orders, merged into an ensemble with seeded chunk sizes and missing configurations, with failing system calls and crashes in half of the runs; the ensemble is compared with a table in this and in a later process.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME + ["blank elements only for data classes that can read a blank element"]),
 "P15": dict(kind="x", quick=(18000, 80), thorough=(150000, 1500),
   rule="one to three databases (single or ensemble) with overlapping keys, opened together in seeded order; gets and scans compared with a list of maps, with failing reads in half of the runs; the files are compared byte for byte at the close.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME),
 "P16": dict(kind="x", quick=(24000, 80), thorough=(150000, 1500),
   rule="one of 80 database files kept in golden.tar.xz (written by the original release, by the repaired library, in format version 5, in the other byte order, and both; C and C++ stores) put on the simulated disk, then one to four read-only or write sessions with seeded calls, cache sizes and page rearrangement, each call compared with what the file is known to hold.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME + ["files up to 70 kB", "the files of the other byte order and of version 5 were written by this library with its header constants switched, not on such a machine"]),
 "P17": dict(kind="mt", quick=(9000, 80), thorough=(150000, 1500),
   rule="two to four databases (or two to four read-only handles on one) open at once in one process and used in turn or by one thread each, from creation or first open in a fresh process to close, under random-walk or PCT schedules that pre-empt at any memory access; in part of the runs system calls fail under one of the databases and the others are held to the same answers as ever; every call compared with a map per file.",
   real=REAL, stub=STUB + MT1, assumptions=BASE_ASSUME + ["sequentially consistent memory between scheduling points", "each handle is used by one thread"]),
 "P18": dict(kind="x", quick=(14000, 80), thorough=(150000, 1500),
   rule="the sessions of P01, P02, P03, P08, P10 to P16 and P23 with the failures those inject, or with failing allocations of the C library; whenever every handle and cursor is closed, the open descriptors, the live C allocations and the objects the C++ classes made with new are counted.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME + ["what a caller receives is released by the caller"]),
 "P19": dict(kind="x", quick=(9000, 80), thorough=(150000, 1500),
   rule="read and write sessions through the C functions and the C++ stores (also merges and lookups over several files) in which one to four allocations of the C library or with new, single or in series, fail; later everything is read again, also by a fresh process.",
   real=XREAL, stub=STUB + ST1 + ["C++ standard library: real, its allocations with new fail where planned"], assumptions=BASE_ASSUME + ["stopping the process is an accepted answer to a failed allocation"]),
 "P20": dict(kind="x", quick=(14000, 80), thorough=(150000, 1500),
   rule="attempts to open, through the C functions and the C++ stores, read-only, for writing or creating, what is no proper database (missing, empty, short, random, text, other magic number or version with a right checksum, other hash function, write-only access, no name, impossible page size), next to open databases that are in use; and reads of databases cut at a random length or followed by foreign bytes. Each attempt must be refused (or, for garbage, end the process), leave the file, descriptors and memory as they were and the open databases right.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME + ["of a cut file only wrong values, memory errors and hangs are judged: a bucket that was never used has no page, so absence cannot be told from a cut"]),
 "P21": dict(kind="st", quick=(9000, 80), thorough=(150000, 1500),
   rule="sessions with configured caches of one to 400 pages on databases of up to some thousand pages, with cursors, scans, refused calls and series of failing reads; after every operation with no cursor open, and at the peak of every get, put and scan, the live allocations of the library are compared with the configured caches.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["a constant of 12 pages per handle and four times the largest value are allowed on top", "a cache that cannot be written back may grow (P07)"]),
 "P22": dict(kind="st", quick=(9000, 80), thorough=(150000, 1500),
   rule="databases built in one or many sessions (also of a key or two each), then sessions of replacements, refused puts, configuration and user information updates, reads, syncs and mere opening and closing, with and without page rearrangement; the size of the file is compared after every close.",
   real=REAL, stub=STUB + ST1, assumptions=BASE_ASSUME + ["the estimate of the pages needed may be exceeded by a factor of three (four for hash functions with collisions)"]),
 "P23": dict(kind="x", quick=(24000, 80), thorough=(150000, 1500),
   rule="stores (single of strings or of vectors of numbers, string-only, ensemble, several files) holding proper records and one whose key or data is no serialised object of the store's class (too short, other magic number, other class number, other element count, a key in place of data, random bytes), read by key and by every listing.",
   real=XREAL, stub=XSTUB, assumptions=BASE_ASSUME + ["listings may end the process when they meet an improper record"]),
 "P24": dict(kind="mt", quick=(6000, 80), thorough=(150000, 1500),
   rule="two to four threads share one handle opened for writing and put, get, sync, read the configuration table and scan (scans only beside syncs and other scans), with small and large caches and tables that split while they run; schedule by random walk or priorities with change points (PCT) with pre-emption at any memory access; the recorded history is searched for a serial order that explains every result, and the file is compared in this and in a later process.",
   real=REAL, stub=STUB + MT1, assumptions=BASE_ASSUME + ["sequentially consistent memory between scheduling points", "no cursor is open while another thread puts", "a thread that holds a cursor only steps and closes it"]),
}
