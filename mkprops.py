import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,hook=None,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
KN="sizing knobs (cfg tonbo_sim) so that seals, row groups and batches happen within short runs"
p("P01","Acknowledged writes survive every crash",
 "With the write-ahead log synced on every commit and acknowledgement in strict mode, a write or transaction whose call returned success is visible to every read after any later crash, power loss and reopen, unless a later write to the same key replaced it. This holds wherever the crash falls, including inside flush, compaction, log rotation and log pruning.",
 ["crash_points","schedules","histories","configurations"],
 "every client program, task interleaving, crash point (each I/O call, before or after it takes effect, torn or not) and storage configuration",
 "The tests crash at a few hand-picked points (drop the handle and reopen) on one schedule; they never lose un-synced bytes, tear a write or crash inside background work.",
 ["src/db/wal.rs","src/wal/writer.rs","src/wal/replay.rs","src/wal/storage.rs","src/db/mod.rs","src/manifest/driver.rs"],
 [("append, sync, then acknowledge","src/wal/writer.rs commit loop; src/db/wal.rs submission"),("replay from the manifest's log floor","src/wal/replay.rs; src/db/mod.rs recover"),("files are published only after they are written and closed","src/compaction/minor.rs; src/manifest/driver.rs")],
 ["DB::ingest / Transaction::commit returning Ok","DB::scan after reopen"],KN)
p("P02","A batch or transaction survives a crash whole or not at all",
 "Whatever crash cuts a write short, after reopening either all of its rows and deletes are visible or none is, and which of the two does not change afterwards. A write that the database definitely refused (a conflict) never becomes visible.",
 ["crash_points","schedules","histories"],
 "every crash point inside a multi-row batch or multi-record transaction commit, torn log writes included, and every restart after it",
 "Tests only replay whole transactions or one hand-made partial log; they do not cut the log at every byte boundary under concurrent commits.",
 ["src/wal/frame.rs","src/wal/writer.rs","src/wal/replay.rs","src/transaction/mod.rs"],
 [("one commit frame closes a transaction; provisional frames without it are dropped","src/wal/replay.rs; src/wal/frame.rs"),("frame checksums and sequence numbers detect a torn tail","src/wal/frame.rs")],
 ["DB::scan after reopen"],KN)
p("P03","Recovery is repeatable and later writes win over recovered ones",
 "Opening a database again, any number of times and whether or not an earlier opening was itself cut short by a crash, shows the same contents. Writes made after a recovery win over everything that was recovered, and are themselves recovered by the next opening.",
 ["crash_points","histories","schedules"],
 "every sequence of openings, crashes during opening and short sessions in between",
 "Tests reopen once or twice after a clean drop; crashing during recovery and the clock/sequence seeding across several restarts are never exercised.",
 ["src/db/mod.rs","src/wal/replay.rs","src/wal/state.rs","src/wal/mod.rs","src/mvcc/mod.rs"],
 [("commit clock restarted past everything recovered","src/db/mod.rs recover_with_wal; src/mvcc/mod.rs"),("log writer resumes after the last frame, in a new segment after a torn tail","src/wal/mod.rs enable_wal; src/wal/storage.rs tail metadata")],
 ["DB open","DB::scan after each open"],KN)
p("P04","Flushing and log pruning never lose or bring back data",
 "Moving data from memory into immutable files and then discarding log segments changes no answer: at every moment, and after a crash at any moment, reads return what they would have returned had nothing been flushed or pruned. Deleted rows stay deleted.",
 ["crash_points","schedules","histories","configurations"],
 "every placement of seal, flush, manifest publication, log-floor advance and segment removal relative to concurrent commits and crashes",
 "Tests flush between operations on an idle database; commits in flight while a memtable is sealed or the log floor is computed are not reached.",
 ["src/compaction/minor.rs","src/db/mod.rs","src/db/wal.rs","src/ondisk/sstable.rs","src/wal/manifest_ext.rs","src/wal/storage.rs"],
 [("log floor taken from the oldest frame not yet in a published file","src/db/wal.rs; src/wal/manifest_ext.rs"),("publish, then drop memory, then prune","src/db/mod.rs flush_immutables_with_descriptor")],
 ["DB::scan","DB::scan after reopen"],KN)
p("P05","A scan returns exactly the matching live rows, once, in key order",
 "A scan with any filter, projection and limit returns each key that is live and matches the filter exactly once, with its newest visible values, in ascending key order, regardless of how the versions are spread over memory and files; a limit returns a prefix of that answer. A filter is evaluated on the newest version of a row only.",
 ["inputs","histories","configurations","schedules"],
 "every data set, key type, filter expression, projection, limit, batch and row-group boundary and layering of versions, while flushes and compactions run",
 "Tests use a few rows in one or two layers and one batch; filters meeting shadowed versions, tombstones or several row groups are sampled a handful of times.",
 ["src/db/scan.rs","src/query/scan.rs","src/query/stream/merge.rs","src/query/stream/package.rs","src/ondisk/scan.rs","src/inmem/mutable/memtable.rs","src/inmem/immutable/memtable.rs"],
 [("k-way merge by key, newest commit first, duplicates and tombstones dropped","src/query/stream/merge.rs; src/ondisk/scan.rs"),("residual predicate applied after the merge","src/query/stream/package.rs"),("pruning by key range, commit time and statistics","src/db/scan.rs; src/inmem/immutable/mod.rs")],
 ["DB::scan().filter().projection().limit().stream()"],KN)
p("P06","Compaction never changes an answer",
 "Rewriting files into lower levels, splitting outputs, dropping superseded versions and removing old files changes no read of any live snapshot, at any moment and after a crash at any point of the compaction. A scan that is under way while its input files are replaced still completes with the right answer.",
 ["schedules","crash_points","histories","configurations"],
 "every compaction strategy and limit, every crash point in writing, publishing and removing files, every concurrent scan, flush and commit",
 "Tests compact a quiescent database; crashes between output and publication, competing flushes and open snapshots are not combined with it.",
 ["src/compaction/executor.rs","src/compaction/driver.rs","src/compaction/planner.rs","src/compaction/scheduler.rs","src/ondisk/merge.rs","src/manifest/driver.rs"],
 [("merge keeps the newest version and every tombstone that may still shadow something","src/ondisk/merge.rs"),("manifest edit applied only on the version it was planned on","src/compaction/driver.rs; src/manifest/driver.rs"),("obsolete files are kept until no version in use refers to them","src/compaction/driver.rs gc")],
 ["DB::scan","Snapshot::scan"],KN)
p("P07","A snapshot reads one consistent state, and the same one every time",
 "Every scan through one snapshot returns the same rows, however long it is held and whatever is committed, flushed or compacted meanwhile. That state contains every write acknowledged before the snapshot was taken, no write begun after it, and each transaction wholly or not at all; successive snapshots never go backwards.",
 ["schedules","histories"],
 "every interleaving of commits, seals, flushes and compactions with taking and using snapshots",
 "Tests take a snapshot, write, and read again on one schedule; a commit between the parts of taking a snapshot, or a flush moving rows under it, is not reached.",
 ["src/db/mod.rs","src/db/scan.rs","src/mvcc/mod.rs","src/transaction/mod.rs","src/inmem/mutable/memtable.rs"],
 [("reads stop below the oldest commit still being applied","src/mvcc/mod.rs visible"),("snapshot pins memtables and manifest version together","src/db/mod.rs begin_snapshot; src/db/wal.rs MemoryView")],
 ["DB::begin_snapshot","Snapshot::scan"],KN)
p("P08","Transactions: first committer wins, own writes visible, commits atomic",
 "Of two overlapping transactions that wrote the same key at most one commits, also when the other writer's rows were flushed or compacted in between; a transaction that overlapped no other writer of its keys is not refused. Inside a transaction reads return its own staged writes over its snapshot, and to others its writes appear all at once or never.",
 ["schedules","histories"],
 "every interleaving of concurrent transactions, plain writes, flushes and compactions",
 "The conflict tests run two transactions in one fixed order with all data in memory.",
 ["src/transaction/mod.rs","src/db/mod.rs","src/db/wal.rs","src/mvcc/mod.rs","src/inmem/mutable/memtable.rs"],
 [("conflict check and key claim at commit","src/transaction/mod.rs commit; src/db/mod.rs"),("staged overlay merged into scans and gets","src/transaction/mod.rs; src/db/scan.rs")],
 ["DB::begin_transaction","Transaction::commit","Transaction::get / scan"],KN)
p("P09","I/O failures never corrupt, lose or invent data",
 "When storage calls fail, fail ambiguously, write short or lose a race, every operation either succeeds or reports an error; an operation that reported success is honoured, and a failed one is either wholly in effect or not at all. No answer is ever wrong because of a fault, now or after reopening.",
 ["fault_sequences","schedules","histories","crash_points"],
 "every sequence of failing opens, reads, writes, syncs, closes, renames, removals, listings and conditional updates, combined with crashes",
 "Tests inject no storage faults apart from one or two mock errors.",
 ["src/wal/writer.rs","src/wal/storage.rs","src/wal/state.rs","src/manifest/driver.rs","src/compaction/driver.rs","src/compaction/minor.rs","src/ondisk/sstable.rs"],
 [("a log write error poisons the writer instead of acknowledging","src/wal/writer.rs"),("an uncertain manifest publication keeps its files","src/compaction/driver.rs; src/manifest/driver.rs")],
 ["every public call's result","DB::scan after reopen"],KN)
p("P10","A damaged log yields an error or intact commits, never wrong data",
 "If log bytes are flipped, cut off, overwritten or followed by garbage, opening either reports an error or shows only rows that were really written, each commit whole. Writes accepted after such a recovery are durable like any others.",
 ["inputs","fault_sequences","histories"],
 "every position and kind of damage in any log segment, and every later session",
 "Tests damage one frame in one way.",
 ["src/wal/frame.rs","src/wal/replay.rs","src/wal/storage.rs","src/wal/writer.rs"],
 [("frame magic, length, checksum and sequence checks","src/wal/frame.rs; src/wal/replay.rs"),("new writes go behind a damaged tail, never over it","src/wal/mod.rs; src/wal/writer.rs")],
 ["DB open","DB::scan after open"],KN)
p("P11","Every log sync policy keeps its documented promise",
 "With any syncing policy and with fast acknowledgement, a process crash loses nothing that was handed to the operating system. With interval syncing a power loss loses at most the commits of the last interval (time policy) or within the byte bound (byte policy): what survives is a prefix of the commit order, whole commits only. Nothing already flushed to files is ever lost under any syncing policy.",
 ["crash_points","configurations","schedules"],
 "every sync policy, interval and acknowledgement mode, every crash kind and point",
 "Tests check that policies are accepted and that sync is called, not what survives.",
 ["src/wal/writer.rs","src/wal/mod.rs","src/db/builder.rs","src/db/wal.rs"],
 [("sync policy applied in the writer loop","src/wal/writer.rs"),("acknowledgement mode","src/db/wal.rs; src/transaction/mod.rs")],
 ["DB::scan after reopen"],KN)
p("P12","Published versions are monotone and every file they name exists",
 "Successive versions of a table are listed with strictly increasing timestamps, newest first, and none disappears or changes while it is retained. Every file the current version refers to exists, is complete and is named by no other live table file.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of flush, compaction and garbage collection, crash points and manifest races",
 "Tests inspect the manifest after a few sequential edits.",
 ["src/manifest/driver.rs","src/manifest/domain.rs","src/manifest/version.rs","src/compaction/driver.rs","src/compaction/minor.rs"],
 [("edits applied to the head they were computed from","src/manifest/driver.rs"),("file identifiers continue past those in use","src/db/mod.rs; src/compaction/minor.rs"),("removal only of files no retained version names","src/compaction/driver.rs")],
 ["DB::list_versions","files on the simulated disk","scans after reopen"],KN)
p("P14","The database makes progress once faults stop",
 "Once faults stop, and whatever happened before, every call completes within a bounded time: no commit, scan, flush or compaction waits for ever, background errors do not disable the database for good after a reopen, and no call panics.",
 ["schedules","fault_sequences","histories","configurations"],
 "every queue size, back-pressure setting, number of clients, fault history and crash point",
 "Tests never fill queues under faults or starve background tasks, and cannot tell slow from stuck.",
 ["src/wal/writer.rs","src/compaction/scheduler.rs","src/compaction/driver.rs","src/compaction/handle.rs","src/mvcc/mod.rs","src/db/mod.rs"],
 [("bounded queues with wake-ups","src/wal/writer.rs; src/compaction/scheduler.rs"),("write back-pressure with deadlines","src/db/compaction.rs")],
 ["completion of every public call within the step and time budget"],KN)
p("P15","The same guarantees hold on object storage",
 "On a store with atomic whole-object writes, conditional puts whose outcome may be unknown, no rename and no sync, durability, atomicity, recovery and scan correctness hold exactly as on a local disk.",
 ["fault_sequences","crash_points","schedules","histories"],
 "every interleaving and every ambiguous, conflicting or failed conditional update",
 "The object-store tests need a real S3 endpoint and do not run in the suite.",
 ["src/wal/storage.rs","src/wal/state.rs","src/wal/writer.rs","src/manifest/bootstrap.rs","src/manifest/driver.rs"],
 [("log segments rewritten as whole objects; state by conditional put","src/wal/storage.rs; src/wal/state.rs"),("manifest head by compare-and-swap","src/manifest/driver.rs (fusio-manifest)")],
 ["every public call's result","DB::scan after reopen"],KN)
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
