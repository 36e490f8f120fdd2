#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when a property changes)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
C = ["filehash/ffdb_hash.c", "filehash/ffdb_page.c", "filehash/ffdb_pagepool.c"]
def mech(*l): return [{"name": a, "where": b} for a, b in l]
T = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, tech):
    assert len(title) <= 80, title
    T.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mechanism, observe_at=observe, hook_needed=None)), tech))
prop("P01", "Within a session the database behaves exactly like a map",
 "Every put, get and cursor scan on an open database returns exactly what a map of the calls so far returns: a get yields the last value successfully put under the key, byte for byte, or reports that the key is absent. A put either takes effect as a whole or is refused without any effect; it is refused only for a no-overwrite put on a present key, a value longer than the stored one, a key too long for a page, or a value longer than the format allows. This holds for every page size, initial bucket count, cache size, hash function, key and value length, and the caller's buffers are never overrun or modified.",
 ["inputs", "histories", "configurations"], "All sequences of puts, gets and scans, all key and value sizes (empty values, page-size boundaries, many pages), all table parameters including hash functions that collide.",
 "The tests insert a few hundred keys in order with one page size and a good hash; boundary sizes, replacement, overflow chains, bucket splits in all states and tiny caches are combinations they never reach.",
 C, mech(("linear hashing with overflow pages", "ffdb_hash.c _ffdb_expand_table, ffdb_page.c ffdb_split_bucket"), ("values chained over data pages", "ffdb_page.c _ffdb_add_data, _ffdb_get_data"), ("value checksum", "ffdb_page.c _ffdb_get_data"), ("page cache", "ffdb_pagepool.c")),
 ["FFDB_DB get/put results", "cursor results"], "deterministic simulation, refinement against a reference map")
prop("P02", "A clean close keeps everything for every later session",
 "After a close that reports success, every later open (for reading or writing, with any cache size and any table parameters passed) sees exactly the keys, values, user information and configuration entries of the moment of the close, over any number of sessions and with page rearrangement on close switched on or off in any of them. Further puts in later sessions behave as if the database had never been closed. A new file gets the permissions asked for, as far as the process's mask allows.",
 ["histories", "configurations"], "All sequences of sessions, all contents at the time of the close, all combinations of reopen parameters and rearrangement.",
 "Tests reopen a database once, after one bulk load, mostly with the parameters it was created with; page moves on close and open depend on the exact table state at that moment.",
 C, mech(("header flush on close", "ffdb_hash.c _ffdb_hdestroy"), ("page moves on close and open", "ffdb_page.c ffdb_rearrage_pages_on_close, _on_open"), ("free page list", "ffdb_page.c _ffdb_free_ovflpage")),
 ["results after reopen"], "deterministic simulation over sessions, refinement against a reference map")
prop("P03", "A cursor visits every key exactly once, in either direction",
 "A cursor moved from one end to the other with next (or previous) steps returns every stored key exactly once with its current value and then reports the end, on an empty, growing, reopened or read-only database, and as long as nothing is modified meanwhile. Several cursors on one handle, and gets between their steps, do not disturb one another; a cursor past its end stays there until it is sent to the first or last key.",
 ["inputs", "histories", "configurations"], "All database contents and shapes (empty buckets, overflow chains), all interleavings of several cursors and gets, all directions.",
 "The tests walk one cursor forward over one database.",
 C[:2], mech(("cursor walk over buckets and overflow pages", "ffdb_page.c ffdb_cursor_find_by_key"), ("page pinning", "ffdb_pagepool.c")),
 ["cursor get results"], "deterministic simulation, refinement against a reference map")
prop("P04", "What a successful sync covered survives any crash",
 "Once sync has returned success, the state at that moment (keys, values, user information, configuration entries) is what a new process finds after the process is killed or the machine loses power at any later moment before the next modification, whatever cursors are open at the sync and whatever reads, refused puts and further syncs come in between. Without page rearrangement this also covers closing the database and opening it for writing again. The database found after the crash goes on working as usual.",
 ["crash_points", "histories", "configurations"], "All histories before the sync, all system calls of the following reads, syncs, close and reopen as the crash point, all subsets of unsynced writes that reach the disk.",
 "No test crashes; whether data left the process or the disk cache at the sync is invisible to a test that exits normally.",
 C, mech(("sync: header, dirty pages, fsync", "ffdb_hash.c _ffdb_hash_sync, ffdb_pagepool.c ffdb_pagepool_sync")),
 ["state read by a new process after the crash"], "deterministic simulation with kill and power-loss injection, durability against a reference map")
prop("P05", "After any crash a read never returns a value that was never stored",
 "After the writing process is killed or power is lost at any point, in the middle of a put, a bucket split, a sync, a page move or a close, a new process that opens the file read-only gets, for each key, a value that was stored under this key at some time (or was just being stored), absence, or an error; scans produce no key that was never stored. It does not crash on invalid memory and does not loop for ever; open may refuse the file or stop with a message.",
 ["crash_points", "histories", "configurations"], "All histories, all system calls as crash point (also inside a write), all subsets of unsynced writes.",
 "No test crashes, and the outcome depends on which of the pages of one operation reached the disk.",
 C, mech(("page and header checksums", "ffdb_page.c ffdb_pgin_routine, ffdb_hash.c"), ("value checksum and data header checks", "ffdb_page.c _ffdb_get_data"), ("page type checks", "ffdb_page.c _ffdb_get_key_page")),
 ["state read by a new process after the crash"], "deterministic simulation with kill and power-loss injection")
prop("P06", "Flipped bits in the file are never returned as data",
 "If up to three bits, or one burst of up to 32 bits, of each of some written pages or of the file header change on disk, then opening the database and reading it either still returns exactly the stored keys, values, user information and configuration entries, or reports an error, or stops with a message. A wrong value, a missing or an invented key is never reported as a normal result, and memory is not corrupted.",
 ["inputs", "fault_sequences"], "All positions of the flips in all page kinds and the header, all database contents.",
 "Tests never read a damaged file.",
 C[:2], mech(("page checksum over the whole page", "ffdb_page.c _ffdb_page_checksum, ffdb_pgin_routine"), ("header checksum", "ffdb_hash.c"), ("value checksum", "ffdb_page.c _ffdb_get_data")),
 ["results of reads on the damaged file"], "deterministic simulation with storage corruption injection")
prop("P07", "A failed write is never reported as success",
 "When writes, fsyncs, truncations or the closing of the file fail (I/O error, full disk, short write), gets of the same session go on returning the right values, and either sync or close reports failure or everything is really in the file. A sync that succeeds after earlier failures has written everything, and after a close that reported success a new process finds everything.",
 ["fault_sequences", "histories", "configurations"], "All system calls of a session as the failing one, single or in series, all histories.",
 "Tests run on a disk that never fails.",
 C, mech(("dirty pages stay cached when they cannot be written", "ffdb_pagepool.c"), ("errors collected by sync and close", "ffdb_pagepool.c ffdb_pagepool_sync, ffdb_hash.c _ffdb_hdestroy")),
 ["return codes of put, sync, close", "state read by a new process"], "deterministic simulation with disk error injection")
prop("P08", "A failed read is an error, never a wrong answer",
 "When reads, seeks, or the opening of the file fail or return fewer bytes, each get, cursor step and query of user information or configurations returns the right answer or an error, never absence of a stored key, a wrong value, or an early end of a scan. Once the failures stop, the same handle returns everything again, nothing stays locked, and the file is unharmed.",
 ["fault_sequences", "histories", "configurations"], "All system calls of a read session as the failing one, single or in series.",
 "Tests run on a disk that never fails.",
 C, mech(("failed page reads are reported and the page is not kept", "ffdb_pagepool.c"), ("pages are released on error paths", "ffdb_page.c")),
 ["return codes and values of reads"], "deterministic simulation with read error injection")
prop("P09", "Threads reading one handle in parallel get right answers and finish",
 "Any number of threads that get values, or run complete cursor scans, on one shared handle at the same time each get exactly what they would get alone (or an error while reads from the disk fail), for every interleaving and however small the page cache is. No thread waits for ever, no memory error occurs, and afterwards the handle works and closes normally.",
 ["schedules", "inputs", "configurations"], "All interleavings of the threads at the granularity of memory accesses and lock operations, spurious wakeups, all cache sizes.",
 "The thread test runs a few threads with whatever schedule the machine produces; wakeup and eviction races need rare interleavings.",
 ["filehash/ffdb_pagepool.c", "filehash/ffdb_hash.c", "filehash/ffdb_page.c"], mech(("page locks and waiter queues", "ffdb_pagepool.c ffdb_pagepool_get_page, put_page"), ("cursor queue lock", "ffdb_hash.c _ffdb_hash_cursor")),
 ["results of reads, completion of all threads"], "deterministic simulation of threads under a seeded scheduler (random walk and PCT)")
prop("P10", "A read-only handle never changes the file",
 "Whatever is called on handles opened read-only (gets, scans, sync, close, attempts to put, to delete or to set user information or configurations), the file stays byte for byte the same and each attempt to modify is refused. Several read-only handles on one file work side by side.",
 ["histories", "configurations"], "All call sequences on up to four handles, all contents including moved pages.",
 "Tests check results of reads, not that nothing was written.",
 C, mech(("access mode checks", "ffdb_hash.c _ffdb_hash_put, ffdb_db.c setters"), ("no flush on read-only close", "ffdb_hash.c _ffdb_hdestroy")),
 ["bytes of the file", "return codes"], "deterministic simulation, comparison of the disk image")
prop("P11", "User information and the configuration table are kept exactly",
 "User information up to the length given at creation, and the configuration table of the number of entries given at creation, read back exactly as last set, in the same session and in every later one, for every length and entry count, however they span pages and whatever puts, syncs and reopens come in between. Longer information, tables of another size, and unknown configuration numbers are refused without any effect. Creating a database with more information than a file can hold is refused.",
 ["inputs", "histories", "configurations"], "All lengths and counts (page boundaries), all sequences of updates, puts, syncs and reopens.",
 "Tests set one user string and one table and read them back.",
 ["filehash/ffdb_db.c", "filehash/ffdb_page.c", "filehash/ffdb_hash.c"], mech(("user information pages", "ffdb_page.c ffdb_set_uinfo, ffdb_get_uinfo"), ("configuration pages", "ffdb_page.c ffdb_set_configs, ffdb_set_config_info")),
 ["ffdb_get_user_info, ffdb_get_config, ffdb_get_all_configs"], "deterministic simulation, refinement against a reference model")
exec(open(os.path.join(H, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(H, "tools", "more_props.py")) else None
LN = "Seeded search: every violation is replayed identically in fresh processes before it is reported; absence of a report means no violation in the sampled executions. Trusts the simulated file system, scheduler and heap, and the reference model. "
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p, t in T: f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(property=p["id"], quick_cmd="python3 run_check.py %s quick" % p["id"], thorough_cmd="python3 run_check.py %s thorough" % p["id"], technique=t,
      level=PROPS[p["id"]].get("level", "exploration"), level_note=LN + "; ".join(PROPS[p["id"]]["assumptions"]) + ".") for p, t in T], not_applicable=[],
      notes="No hooks in /repo: the seams are system calls, pthread and allocation functions, replaced at link time (-Wl,--wrap), and compiler coverage callbacks for pre-emption and step budgets.")
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
