NA = []
ROOT_TESTS = "The tests under tests/jungle need ForestDB, which is absent here, and where they run they sample a handful of fixed histories; "
p("C01", "Point reads return the newest record of the key",
  "At any time, reading a key (value, full record or metadata) returns exactly the most recently written live record of that key with its value, metadata and sequence number, and reports not-found when the key was never written or its newest record is a deletion. This holds wherever the record currently lives: in memory, in logs, or in table files of any level.",
  ["histories", "configurations"], "Every sequence of writes, deletions, batches, syncs, flushes, compactions, splits, merges and reopens, under every combination of partitions, bloom filter, compression, direct I/O, comparators and level modes.",
  ROOT_TESTS + "stale reads need a particular order of flush, compaction and overwrite in a particular configuration.",
  ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_file.cc", "src/bloomfilter.cc", "src/table_lookup_booster.cc"],
  [("newest-first search of logs, then tables by level", "LogMgr::get, TableMgr::get"), ("per-key record list ordered by sequence number", "MemTable::getRecordByKeyInternal"), ("bloom filter and lookup booster never hide a record", "TableFile::get")],
  HIST, KVNOTE, ["DB::get", "DB::getRecordByKey"])
p("C02", "Key iterators visit exactly the live keys of their range in order",
  "A key iterator over a range shows each key that was live in that range when the iterator was created, exactly once and with its newest record, in comparator order forward and backward. Seeking goes to the nearest live key on the requested side and never leaves the range; deleted and overwritten versions are never shown.",
  ["histories", "inputs"], "Every history of writes and maintenance before and after creating the iterator, every range, every mix of next, prev, seek, begin and end.",
  ROOT_TESTS + "missing or duplicated keys depend on how versions are spread over logs and levels and on direction changes.",
  ["src/iterator.cc", "src/log_iterator.cc", "src/memtable_iterator.cc", "src/table_iterator.cc", "src/table_file_iterator.cc", "src/avltree.cc"],
  [("merge of log and table cursors by key, newest first", "Iterator::next/prev/seekInternal"), ("cursor window ordered tree", "src/avltree.cc")],
  HIST, KVNOTE, ["Iterator::get"])
p("C03", "Sequence numbers identify records, in order, without loss",
  "Records take strictly increasing sequence numbers; looking one up, or iterating a sequence range, shows exactly the record written with that number as long as it is in the log section, and every live newest record of the range appears in ascending (or descending) order. Numbers chosen by the user are kept as given and never collide with assigned ones.",
  ["histories", "inputs"], "Every history of plain writes and writes with user-chosen increasing numbers, flushes, purges, reopens, and every iterator range and movement.",
  ROOT_TESTS + "gaps, file boundaries and flush bounds interact.",
  ["src/log_mgr.cc", "src/log_manifest.cc", "src/memtable.cc", "src/memtable_iterator.cc", "src/iterator.cc"],
  [("sequence index of a memtable", "MemTable::getRecordBySeq, MemTable::Iterator::initSN"), ("log files ordered by first sequence number", "LogManifest::getLogFileNumBySeq")],
  HIST, KVNOTE, ["DB::getSN", "Iterator::initSN"])
p("C04", "Snapshots and iterators are isolated from later changes",
  "A snapshot or an iterator keeps showing exactly the contents at the moment it was created, whatever is written, flushed, compacted, split, merged or purged afterwards, until it is closed.",
  ["histories"], "Every history after creation, including maintenance that replaces every file the snapshot reads.",
  ROOT_TESTS + "isolation breaks only when particular files are replaced while a handle refers to them.",
  ["src/jungle.cc", "src/log_mgr.cc", "src/table_mgr.cc", "src/table_file.cc", "src/table_manifest.cc", "src/memtable.cc"],
  [("snapshot's own lists of logs and tables", "LogMgr::openSnapshot, TableMgr::openSnapshot"), ("versions at or below the snapshot's number", "MemTable::RecNode::getLatestRecord")],
  HIST, KVNOTE, ["snapshot handle reads", "Iterator::get"])
p("C05", "Nearest-key and prefix search agree with the ordered contents",
  "Searching for the nearest key (at or above, above, at or below, below) returns the newest record of a key with no live key in between, and a prefix search passes to the callback every live key with the prefix, only such keys, and stops when told to.",
  ["histories", "inputs"], "Every history, every key (present, deleted or absent), every search option and prefix, on databases and snapshots.",
  ROOT_TESTS + "wrong neighbours appear when candidates sit in different logs, levels and tables.",
  ["src/jungle.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc"],
  [("closest candidate among logs and levels", "DB::getNearestRecordByKey, LogMgr::getNearest, TableMgr::getNearest"), ("prefix scan", "DB::getRecordsByPrefix")],
  HIST, KVNOTE, ["DB::getNearestRecordByKey", "DB::getRecordsByPrefix"])
p("C06", "Maintenance never changes the visible contents",
  "Syncing, flushing, compacting, splitting and merging, complete or partial and in any order, never change what any read, search or iterator shows, and the reported sequence numbers (last, flushed, synced) stay ordered and never go back below what was reported durable.",
  ["histories", "configurations"], "Every order of maintenance operations with every level, partition, limit and option, between and among writes.",
  ROOT_TESTS + "the state space of level shapes is far beyond fixed tests.",
  ["src/table_mgr.cc", "src/table_compaction.cc", "src/table_append.cc", "src/table_split.cc", "src/table_set_batch.cc", "src/log_mgr.cc", "src/table_manifest.cc"],
  [("flush of logs into tables, then removal of logs", "LogMgr::flush"), ("compaction and replacement of tables", "TableMgr::compactLevelItr, TableMgr::splitTableItr, TableMgr::mergeLevel")],
  HIST, KVNOTE, ["all reads", "DB::getMaxSeqNum and friends"])
p("C07", "Batches apply completely and in order, also across databases",
  "A batch of insertions and deletions takes consecutive sequence numbers and takes effect in order and as a whole; a global batch does so over several databases at once. A rejected batch changes nothing.",
  ["histories", "inputs"], "Every batch content, including repeated keys and deletions, every position in a history, one or several databases.",
  ROOT_TESTS + "batches crossing log files, reopened empty databases and flush bounds are not enumerated.",
  ["src/jungle.cc", "src/global_batch.cc", "src/log_mgr.cc"],
  [("batch appended to one log file under the write lock", "LogMgr::setMulti"), ("barrier hiding a batch in progress", "LogMgr::setVisibleSeqBarrier, GlobalBatch::execute")],
  HIST, KVNOTE, ["DB::setRecordBatch", "GlobalBatch::execute"])
p("C08", "A checkpoint freezes the contents at the time it was taken",
  "Taking a checkpoint reports the current last sequence number; the list of checkpoints never shows one that was not taken; opening a snapshot on a listed checkpoint shows exactly the contents at that moment, including after flush, compaction and reopen.",
  ["histories"], "Every history of writes, checkpoints, maintenance and reopens.",
  ROOT_TESTS + "checkpoints move from logs to tables at flush and depend on partitions.",
  ["src/jungle.cc", "src/log_file.cc", "src/memtable.cc", "src/table_file.cc", "src/table_mgr.cc"],
  [("checkpoint marks in log files and tables", "MemTable::checkpoint, TableFile::addCheckpoint"), ("opening by mark", "TableFile::openSnapshot")],
  HIST, KVNOTE, ["DB::checkpoint", "DB::getCheckpoints", "DB::openSnapshot"])
p("C09", "Closing and reopening restores the same database",
  "After a clean close, opening the database again shows the same records, metadata, deletions and last sequence number, whatever part of them was synced or flushed before, and new writes continue after the last number.",
  ["histories", "configurations"], "Every history before closing, any number of reopens, every configuration.",
  ROOT_TESTS + "what reaches the manifests and files at close depends on the whole history.",
  ["src/jungle.cc", "src/log_manifest.cc", "src/log_mgr.cc", "src/memtable.cc", "src/table_manifest.cc", "src/table_mgr.cc", "src/db_manifest.cc"],
  [("log and table manifests", "LogManifest::load/store, TableManifest::load/store"), ("log replay", "MemTable::load")],
  HIST, KVNOTE, ["DB::open", "all reads"])
p("C10", "Log-only mode keeps every record above the purge bound",
  "In log-store mode every record above the highest purge bound stays readable by key and by sequence number and in iterators with exactly what was written, and purging never exposes wrong or reordered records.",
  ["histories", "configurations"], "Every history of writes, syncs, purges, reopens and iterators with any number of log files and memtables kept in memory.",
  ROOT_TESTS + "reclaiming memtables and removing log files interleave with reads.",
  ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_reclaimer.cc", "src/log_file.cc", "src/memtable.cc"],
  [("memtables purged and reloaded on demand", "LogFile::purgeMemTable, LogFile::loadMemTable"), ("log file removal", "LogMgr::flush, LogManifest::removeLogFile")],
  HIST, KVNOTE, ["DB::getSN", "Iterator::initSN"])
COMP = "TLC trace validation of the component's recorded calls and results against an explicit TLA+ specification"
COMPNOTE = "Random and fixed call sequences of the real component, built with AddressSanitizer from the working tree; every event must be explained by "
p("C11", "Threads using one database at once see one consistent history",
  "Threads reading, writing, batching, iterating, taking snapshots and running any maintenance on the same database never lose or resurrect a write, never see part of a batch, never read a value older than one already returned as written, and never crash, hang or touch released memory. Every write takes effect at one moment between its call and its return, and every read, snapshot or iterator shows the contents of one such moment.",
  ["schedules", "histories", "configurations"], "Every interleaving, at the level of single memory accesses, of writers, readers, snapshot and iterator users, syncs, flushes, compactions, splits, merges and the library's own background workers.",
  ROOT_TESTS + "losing a record to a race needs a preemption inside a window of a few instructions.",
  ["src/log_mgr.cc", "src/log_mgr.h", "src/log_manifest.cc", "src/log_manifest.h", "src/log_iterator.cc", "src/memtable.cc", "src/jungle.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/flusher.cc", "src/compactor.cc"],
  [("visible sequence number of a reader", "LogMgr::get, LogMgr::getNearest, LogMgr::getMaxSeqNum"), ("flushed and synced marks moved only over what was written", "LogMgr::flush, LogMgr::syncInternal"), ("reference counts of log and table files", "LogFileInfo::done, TableFile, LogMgr::openSnapshot")],
  "The real library runs with every memory access a preemption point of a deterministic scheduler; the calls and returns of each run are validated by TLC against spec/ConcKV.tla",
  "Sequentially consistent interleavings, random and priority-based schedules of 3 to 6 threads plus background workers; weaker memory orders are not explored. ForestDB is the stand-in of /verif/fdbmodel. Released memory is never reused in a run, so an access to it is reported.",
  ["DB::set", "DB::get", "Iterator::init", "DB::openSnapshot", "DB::flushLogs"])
p("C12", "A crash loses at most the unsynced end of the history",
  "Whenever the process dies, or the machine loses power when everything moved to tables had been synced with fsync, the database opens again and holds exactly some first part of the history of updates: at least everything that a returned sync or checkpoint made durable, at most everything issued. From there it goes on as any database, with the same reads through every kind of access, sequence numbers that never repeat one still in use, and checkpoints that still show their contents.",
  ["crash_points", "histories", "configurations"], "Every history of updates, syncs, flushes, compactions and reopens, and every crash between two file operations of it or inside one, with any part of the unsynced writes of each file lost, also repeated during recovery.",
  "Tests copy a handful of directories at quiet moments; a crash inside an operation has a different on-disk state at each of its file operations.",
  ["src/log_mgr.cc", "src/log_manifest.cc", "src/log_file.cc", "src/memtable.cc", "src/table_mgr.cc", "src/table_manifest.cc", "src/table_file.cc", "src/internal_helper.h", "src/db_mgr.cc"],
  [("records written before the manifest that lists them", "LogFile::flushMemTable, LogManifest::store"), ("reading back what a crash left", "MemTable::load, LogManifest::load"), ("backup of manifests", "BackupRestore"), ("tables committed before logs are removed", "TableMgr::setBatch, LogMgr::flush")],
  "Every file operation of the real library is recorded; the directory as a crash would leave it is rebuilt and reopened, and the whole run is validated by TLC against spec/JungleCrash.tla, which extends JungleKV with crashes",
  "Crash points and losses are sampled. Creation and removal of files are taken as durable at once; ForestDB is the stand-in of /verif/fdbmodel, which syncs its files at commit. Flushes that bypass the log (beyondLastSync) are excluded, as they give up the order of durability.",
  ["DB::open", "DB::sync", "DB::checkpoint"])
p("F01", "Files hold exactly what was written, with plain and with direct I/O",
  "What is appended or written to a file is what later reads of it return, at every offset and length, with buffered and with direct I/O, across closing, reopening, truncation and removal; reported sizes agree with it. After a successful sync nothing written before it is left unsynced, and an operation whose system calls fail reports an error and changes nothing. A file backup is restored only when intact, and restoring yields exactly the backed-up file.",
  ["inputs", "histories", "fault_sequences"], "Every sequence of opens, appends, writes, reads, flushes, syncs, truncations, removals, backups and restores, with any sizes and alignments, short writes, interrupted and failing system calls, and damaged backups.",
  "Unit tests use a few sizes and never fail a system call; block boundaries, padding and partial writes have many cases.",
  ["src/fileops_posix.cc", "src/fileops_directio.cc", "src/internal_helper.h", "src/fileops_base.h"],
  [("aligned write buffer with flag padding", "FileOpsDirectIO::append/flush/pread"), ("retry of partial and interrupted calls", "FileOpsPosix::pread/pwrite/append"), ("backup with checksum", "BackupRestore")],
  COMP + " (FileOps), plus exhaustive TLC checking of the direct I/O buffer (MCFileOps)", COMPNOTE + "spec/FileOps.tla; system calls are interposed to fail, be interrupted, be short and to observe fsync.", ["FileOps", "BackupRestore"])
p("F03", "Serialized records decode to exactly what was encoded",
  "Whatever sequence of integers, buffers and strings is encoded, decoding in the same order returns the same values, in the documented big-endian layout. Reading past the end of the data is reported as an error, changes nothing and never touches memory outside the buffer; resizable buffers grow without losing content.",
  ["inputs"], "Every sequence of reads, writes, repositioning and appends over fixed, resizable and file-backed serializers of any size.",
  "Tests round-trip a few values; bounds and growth at every position are not enumerated.",
  ["src/internal_helper.h"], [("RwSerializer bounds check and growth", "RwSerializer::chkResize/available")],
  COMP + " (Codec)", COMPNOTE + "spec/Codec.tla, which keeps the bytes of the buffer.", ["RwSerializer"])
p("F04", "Checksums and hashes are the standard functions for every input",
  "The checksum of any byte string is its CRC-32 with the given initial value, independent of alignment and of which of the implementations computes it, and extends over concatenation. The hash is MurmurHash3 for every length and seed.",
  ["inputs"], "Every byte string, length, alignment, initial value and seed.",
  "Tests compare implementations on a few strings; files written with one value must verify with every later build.",
  ["src/crc32.cc", "src/murmurhash3.cc", "src/hex_dump.h"], [("table-driven CRC, 1/4/8 bytes at a time", "crc32_1, crc32_8, crc32_8_last8"), ("MurmurHash3", "MurmurHash3_x86_32")],
  COMP + " (Hash: bit-serial CRC-32 and MurmurHash3 defined in TLA+)", COMPNOTE + "spec/Hash.tla; fixed scripts exercise every entry of every CRC table.", ["crc32_*", "MurmurHash3"])
p("F05", "The bloom filter never denies a key that was added",
  "After adding any keys, the filter answers 'maybe' for each of them, also after it is written to disk and read back; it sets exactly the bits its hash functions name and no others. The bitmap sets, clears and reads exactly the addressed bits.",
  ["inputs", "histories"], "Every set of keys, filter size, bit count and sequence of operations, including export and import.",
  "A false negative needs a particular key and size; tests add a few keys.",
  ["src/bloomfilter.cc", "src/generic_bitmap.h", "src/murmurhash3.cc"], [("two hashes combined per bit", "BloomFilter::set/check"), ("bit masks and partial-byte handling", "GenericBitmap")],
  COMP + " (Bloom)", COMPNOTE + "spec/Bloom.tla, which computes the hash positions itself and keeps the whole bit map.", ["BloomFilter", "GenericBitmap"])
p("F06", "Buffers and records own, copy and compare their bytes correctly",
  "Cloning, copying, moving, referencing, resizing and freeing buffers and records never loses, aliases or leaks bytes: a clone is independent of its source, a reference shows its target, and every allocation is freed exactly once. Comparison is the total order of byte strings with shorter prefixes first, the empty buffer being smallest.",
  ["inputs", "histories"], "Every sequence of operations on buffers, key-value pairs and records of any content and size.",
  "Ownership mistakes appear for particular combinations of source kinds; tests check a few.",
  ["include/libjungle/sized_buf.h", "include/libjungle/keyvalue.h", "include/libjungle/record.h"], [("NEED_TO_FREE and ownership transfer", "SizedBuf"), ("three-way byte comparison", "SizedBuf::cmp")],
  COMP + " (Buffers)", COMPNOTE + "spec/Buffers.tla; AddressSanitizer's allocator reports what is owned.", ["SizedBuf", "KV", "Record"])
p("F07", "Ordered sets keep every element, in order, findable and balanced",
  "The skiplist and the AVL tree hold exactly the elements inserted and not removed; find, nearest searches, first, last, next and previous return the right element for every key, forward and backward scans show all in order, and duplicates are refused when asked. The tree stays balanced after every insertion and removal and the set's size is exact.",
  ["inputs", "histories"], "Every sequence of insertions, removals, searches and scans over any keys, fan-outs and layer counts (one thread).",
  "Rebalancing has many shapes; tests insert sequential and random keys and check the end result.",
  ["src/skiplist.cc", "src/skiplist.h", "src/avltree.cc", "src/avltree.h"], [("per-layer predecessor search", "_sl_insert, skiplist_find_*"), ("rotations", "avl_insert, avl_remove")],
  COMP + " (OrderedSet)", COMPNOTE + "spec/OrderedSet.tla; tree shape is checked against the AVL bound after every change.", ["skiplist_*", "avl_*"])
p("F08", "The ordered set stays correct when used by several threads",
  "Threads inserting, erasing, searching and walking the skiplist at the same time never make it lose, duplicate, reorder or resurrect an element, never hang and never touch a released node: every update takes effect at one moment between its call and its return, a search misses no element that was there all the while, and shows none that was not there at some moment.",
  ["schedules", "histories"], "Every interleaving of any operations of several threads on one list, including duplicates, erasing by handle and erasing a node another thread is erasing.",
  "Tests run one thread; a race needs a particular preemption between two memory accesses.",
  ["src/skiplist.cc", "src/skiplist.h"], [("node flags and write locks around link changes", "_sl_insert, skiplist_erase_node_passive"), ("reference counts of nodes", "_sl_next, skiplist_release_node")],
  "The real code runs with every memory access a preemption point of a deterministic scheduler; the calls and returns of each schedule are validated by TLC against spec/ConcSet.tla",
  "Sequentially consistent interleavings, uniformly random and priority-based schedules of 2 to 5 threads; memory orders weaker than sequential consistency are not explored. Released nodes are never reused in a run, so any access to one is reported.",
  ["skiplist_insert", "skiplist_erase_node", "skiplist_find", "skiplist_next", "skiplist_prev"])
