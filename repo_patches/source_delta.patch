From 3fee9781db79775b6d0c4c201bc70e8656b82a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:15 +0000
Subject: [PATCH 01/39] fix: do not dereference the logger when logging is
 disabled

Flushing into tables crashed when DBConfig::allowLogging is false.
---
 src/table_set_batch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_set_batch.cc b/src/table_set_batch.cc
index b8686aa..67eb5f0 100644
--- a/src/table_set_batch.cc
+++ b/src/table_set_batch.cc
@@ -39,7 +39,7 @@ void TableMgr::setTableFile( std::list<Record*>& batch,
                           target_hash,
                           bulk_load_mode );
 
-    if (myLog->debugAllowed()) {
+    if (myLog && myLog->debugAllowed()) {
         _log_debug( myLog,
                     "Set batch table num %zu, hash %zu, "
                     "key1: %s key2: %s",
-- 
2.43.0


From 9017e5a90e596fb24442c1ebf72b073c4204f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:27 +0000
Subject: [PATCH 02/39] fix: size the per-thread direct I/O read buffer by the
 current instance

---
 src/fileops_directio.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..ef90318 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -73,14 +73,18 @@ public:
 };
 
 struct AlignedMemoryHolder {
-    explicit AlignedMemoryHolder(void* _bufPtr) : bufPtr(_bufPtr) {}
-    ~AlignedMemoryHolder() {
+    AlignedMemoryHolder() : bufPtr(nullptr), bufSize(0), alignSize(0) {}
+    ~AlignedMemoryHolder() { reset(); }
+    void reset() {
         if (bufPtr) {
             free(bufPtr);
             bufPtr = nullptr;
         }
+        bufSize = alignSize = 0;
     }
     void* bufPtr;
+    size_t bufSize;
+    size_t alignSize;
 };
 
 static FileHandleDirectIO* getHandle(FileHandle* fhandle) {
@@ -287,16 +291,22 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     auto file_size = static_cast<size_t>(file_size_tmp);
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
-    // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
+    // Aligned buffer to direct read.
+    // NOTE: It is shared by all instances that this thread uses, so that
+    //       it should be re-allocated if their settings are different.
+    Status s;
+    thread_local AlignedMemoryHolder buf_holder;
+    if ( buf_holder.bufSize != bufferSize ||
+         buf_holder.alignSize != alignSize ) {
+        buf_holder.reset();
+        EP( allocAlignedBuf(&buf_holder.bufPtr) );
+        buf_holder.bufSize = bufferSize;
+        buf_holder.alignSize = alignSize;
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
     assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
 
-    Status s;
     size_t aligned_file_offset = offset;
     size_t need_align = offset % alignSize;
     if (need_align > 0) {
-- 
2.43.0


From cd27906bdde2f84a14a77f3795d95be6c155f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:55 +0000
Subject: [PATCH 03/39] fix: keep a migrated table file while older readers
 refer to it

---
 src/table_file.cc     |  1 +
 src/table_file.h      |  9 +++++++++
 src/table_manifest.cc |  2 ++
 src/table_manifest.h  | 10 ++++++----
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..72e71b5 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -240,6 +240,7 @@ TableFile::TableFile(const TableMgr* table_mgr)
     , fOps(nullptr)
     , tableMgr(table_mgr)
     , tableInfo(nullptr)
+    , numOwners(0)
     , writer(nullptr)
     , bfByKey(nullptr)
     , tlbByKey(nullptr)
diff --git a/src/table_file.h b/src/table_file.h
index 13d4097..56bf1d6 100644
--- a/src/table_file.h
+++ b/src/table_file.h
@@ -23,6 +23,7 @@ limitations under the License.
 #include <libjungle/jungle.h>
 #include <libforestdb/forestdb.h>
 
+#include <atomic>
 #include <list>
 #include <map>
 #include <mutex>
@@ -218,6 +219,11 @@ public:
 
     void setTableInfo(TableInfo* t_info) { tableInfo = t_info; }
 
+    // Table info instances that refer to this file.
+    void addOwner() { numOwners.fetch_add(1); }
+    // Returns `true` if the caller was the last owner.
+    bool releaseOwner() { return numOwners.fetch_sub(1) == 1; }
+
     SimpleLogger* getLogger() const { return myLog; }
 
     Status getStats(TableStats& stats_out);
@@ -420,6 +426,9 @@ private:
     // Corresponding table info.
     TableInfo* tableInfo;
 
+    // Number of table info instances that refer to this file.
+    std::atomic<uint64_t> numOwners;
+
     // ForestDB writer handles
     FdbHandle* writer;
 
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..16d385c 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -252,6 +252,7 @@ Status TableManifest::load(const std::string& path,
             }
 
             t_info->file = t_file;
+            t_info->file->addOwner();
             t_info->file->setTableInfo(t_info);
 
             bool add_to_skiplist = true;
@@ -475,6 +476,7 @@ Status TableManifest::addTableFile(size_t level,
     // New table corresponding to the number.
     TableInfo* t_info = new TableInfo(level, t_file->getNumber(), hash_num);
     t_info->file = t_file;
+    t_info->file->addOwner();
     t_info->file->setTableInfo(t_info);
     t_info->file->setLogger(myLog);
     min_key.copyTo(t_info->minKey);
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..0748ec9 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -98,10 +98,12 @@ struct TableInfo {
                       level, number, count, count-1, status.load(),
                       get_on_off_str(migration) );
             if (count == 1) {
-                // NOTE: We should not remove file object if this
-                //       table is being migrated to next level, as
-                //       next level's table info will reuse it.
-                if (!migration) {
+                // NOTE: If this table was migrated to the next level,
+                //       next level's table info reuses the file object.
+                //       Whichever is released last should remove it, as
+                //       readers opened before the migration may outlive
+                //       the next level's table info.
+                if (file->releaseOwner()) {
                     file->destroySelf();
                     delete file;
                 }
-- 
2.43.0


From b2a80e11a43c7cd2dbc811863f6275c373a7a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:42 +0000
Subject: [PATCH 04/39] fix: do not drop unsynced logs on flush with a sequence
 number

---
 src/log_mgr.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..5f95db5 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1412,6 +1412,11 @@ Status LogMgr::flush(const FlushOptions& options,
         seq_num_local = seq_barrier;
     }
 
+    if (ln_to < ln_from && seq_num_local == NOT_INITIALIZED) {
+        // Logs beyond the last synced log were already flushed or purged.
+        return Status::ALREADY_FLUSHED;
+    }
+
     if (seq_num_local == NOT_INITIALIZED) {
         // Purge all synced (checkpointed) logs.
 
@@ -1445,7 +1450,19 @@ Status LogMgr::flush(const FlushOptions& options,
         // Not all logs, need to adjust `ln_to`.
         seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
-        mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
+        uint64_t ln_by_seq = ln_to;
+        mani->getLogFileNumBySeq(seq_num_local, ln_by_seq, options.purgeOnly);
+        if ( !options.purgeOnly &&
+             !options.beyondLastSync &&
+             ln_by_seq > ln_to ) {
+            // WARNING:
+            //   Given sequence number is beyond the last synced log.
+            //   Logs that are not synced yet will not be written to table
+            //   files, so that they should not be removed either.
+        } else {
+            ln_to = ln_by_seq;
+        }
+        if (ln_to < ln_from) return Status::ALREADY_FLUSHED;
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
-- 
2.43.0


From c1c7412e32540e1d838bcd20c36028eddd94c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:54 +0000
Subject: [PATCH 05/39] fix: allow opening a snapshot on a checkpoint whose log
 was flushed

---
 src/log_mgr.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 5f95db5..3eff1f0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -404,8 +404,12 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     }
 
     // Get log file numbers.
-    EP( mani->getMinLogFileNum(l_num_min) );
-    EP( mani->getLogFileNumBySeq(checkpoint, l_num_max) );
+    // NOTE: If there is no such log file, all logs upto the checkpoint
+    //       were already flushed to tables. Let the list empty.
+    if ( !mani->getMinLogFileNum(l_num_min).ok() ||
+         !mani->getLogFileNumBySeq(checkpoint, l_num_max).ok() ) {
+        break;
+    }
 
     bool log_store_mode = getDbConfig()->logSectionOnly;
     bool retry_init = false;
-- 
2.43.0


From c01579d1568d67f05bb47b00fd04c9a8e04a7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 06/39] fix: do not lose merge sources in iterators when a seek
 falls back

---
 src/db_internal.h     |  3 ++-
 src/iterator.cc       | 62 +++++++++++++++++++++++--------------------
 src/log_iterator.cc   | 62 +++++++++++++++++++++++--------------------
 src/log_mgr.h         |  3 ++-
 src/table_iterator.cc | 62 +++++++++++++++++++++++--------------------
 src/table_mgr.h       |  3 ++-
 6 files changed, 105 insertions(+), 90 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..aec1012 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -212,6 +212,7 @@ public:
             none = 0x0,
             no_more_prev = 0x1,
             no_more_next = 0x2,
+            seek_failed = 0x4,
         };
         inline static int cmpSeq(avl_node *a, avl_node *b, void *aux) {
             ItrItem* aa = _get_entry(a, ItrItem, an);
@@ -264,7 +265,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(bool skip_no_more = false);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..f6536b5 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -189,13 +189,14 @@ Status Iterator::prev() {
     avl_node* cursor = avl_last(&p->curWindow);
     while (cursor) {
         ItrInt::ItrItem* item = _get_entry(cursor, ItrInt::ItrItem, an);
+        if ( p->type == ItrInt::BY_SEQ &&
+             item->lastRec.seqNum < cur_seq ) break;
+        if ( p->type == ItrInt::BY_KEY &&
+             p->cmpSizedBuf(item->lastRec.kv.key, cur_key) < 0 ) break;
+
         if (item->flags & ItrInt::ItrItem::no_more_prev) {
             s = Status::ERROR;
         } else {
-            if ( p->type == ItrInt::BY_SEQ &&
-                 item->lastRec.seqNum < cur_seq ) break;
-            if ( p->type == ItrInt::BY_KEY &&
-                 p->cmpSizedBuf(item->lastRec.kv.key, cur_key) < 0 ) break;
 
             if (item->logItr) s = item->logItr->prev();
             if (item->tableItr) s = item->tableItr->prev();
@@ -297,13 +298,14 @@ Status Iterator::next() {
     avl_node* cursor = avl_first(&p->curWindow);
     while (cursor) {
         ItrInt::ItrItem* item = _get_entry(cursor, ItrInt::ItrItem, an);
+        if ( p->type == ItrInt::BY_SEQ &&
+             item->lastRec.seqNum > cur_seq ) break;
+        if ( p->type == ItrInt::BY_KEY &&
+             p->cmpSizedBuf(item->lastRec.kv.key, cur_key) > 0 ) break;
+
         if (item->flags & ItrInt::ItrItem::no_more_next) {
             s = Status::ERROR;
         } else {
-            if ( p->type == ItrInt::BY_SEQ &&
-                 item->lastRec.seqNum > cur_seq ) break;
-            if ( p->type == ItrInt::BY_KEY &&
-                 p->cmpSizedBuf(item->lastRec.kv.key, cur_key) > 0 ) break;
 
             if (item->logItr) s = item->logItr->next();
             if (item->tableItr) s = item->tableItr->next();
@@ -401,7 +403,7 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
+Status Iterator::IteratorInternal::moveToLastValid(bool skip_no_more) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -410,13 +412,19 @@ Status Iterator::IteratorInternal::moveToLastValid() {
         //  ... Del K9 (seq 100), Ins K9 (seq 99)
         //  We should pick up `Del K9`.
         ItrInt::ItrItem* item = _get_entry(windowCursor, ItrInt::ItrItem, an);
+        if (skip_no_more && item->flags != ItrItem::none) {
+            // The position of this item doesn't satisfy the seek option.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
 
         if (type == ItrInt::BY_KEY) {
             ItrInt::ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
             if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
 
-            if (prev_item) {
+            if ( prev_item &&
+                 !(skip_no_more && prev_item->flags != ItrItem::none) ) {
                 int cmp = cmpSizedBuf( item->lastRec.kv.key,
                                        prev_item->lastRec.kv.key );
                 if (cmp == 0) {
@@ -513,7 +521,8 @@ Status Iterator::IteratorInternal::seekInternal
             }
         } else {
             item->flags = ItrInt::ItrItem::no_more_prev |
-                          ItrInt::ItrItem::no_more_next;
+                          ItrInt::ItrItem::no_more_next |
+                          ItrInt::ItrItem::seek_failed;
         }
 
         avl_cmp_func* cmp_func = (type == ItrInt::BY_SEQ)
@@ -534,12 +543,12 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
@@ -576,28 +585,23 @@ bool Iterator::IteratorInternal::checkValidBySeq(ItrInt::ItrItem* item,
                                                  const uint64_t cur_seq,
                                                  const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrInt::ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrInt::ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrInt::ItrItem::seek_failed) return false;
+    // NOTE:
+    //   `no_more_next` (`no_more_prev`) means that there is no record next
+    //   (previous) to where the item is. If the item itself is beyond the
+    //   current position, it is still valid.
+    return is_prev ? (item->lastRec.seqNum < cur_seq)
+                   : (item->lastRec.seqNum > cur_seq);
 }
 
 bool Iterator::IteratorInternal::checkValidByKey(ItrInt::ItrItem* item,
                                                  const SizedBuf& cur_key,
                                                  const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrInt::ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrInt::ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrInt::ItrItem::seek_failed) return false;
+    // NOTE: Refer to the comment in `checkValidBySeq()`.
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return is_prev ? (cmp < 0) : (cmp > 0);
 }
 
 Status Iterator::close() {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..4c27e5e 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -254,13 +254,14 @@ Status LogMgr::Iterator::prev() {
     avl_node* cursor = avl_last(&curWindow);
     while (cursor) {
         ItrItem* item = _get_entry(cursor, ItrItem, an);
+        if ( type == BY_SEQ &&
+             item->lastRec.seqNum < cur_seq ) break;
+        if ( type == BY_KEY &&
+             cmpSizedBuf(item->lastRec.kv.key, cur_key) < 0 ) break;
+
         if (item->flags & ItrItem::no_more_prev) {
             s = Status::ERROR;
         } else {
-            if ( type == BY_SEQ &&
-                 item->lastRec.seqNum < cur_seq ) break;
-            if ( type == BY_KEY &&
-                 cmpSizedBuf(item->lastRec.kv.key, cur_key) < 0 ) break;
             // Include tombstone.
             s = item->lItr->prev(true);
         }
@@ -330,13 +331,14 @@ Status LogMgr::Iterator::next() {
     avl_node* cursor = avl_first(&curWindow);
     while (cursor) {
         ItrItem* item = _get_entry(cursor, ItrItem, an);
+        if ( type == BY_SEQ &&
+             item->lastRec.seqNum > cur_seq ) break;
+        if ( type == BY_KEY &&
+             cmpSizedBuf(item->lastRec.kv.key, cur_key) > 0 ) break;
+
         if (item->flags & ItrItem::no_more_next) {
             s = Status::ERROR;
         } else {
-            if ( type == BY_SEQ &&
-                 item->lastRec.seqNum > cur_seq ) break;
-            if ( type == BY_KEY &&
-                 cmpSizedBuf(item->lastRec.kv.key, cur_key) > 0 ) break;
             // Include tombstone.
             s = item->lItr->next(true);
         }
@@ -409,7 +411,7 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
+Status LogMgr::Iterator::moveToLastValid(bool skip_no_more) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -418,13 +420,19 @@ Status LogMgr::Iterator::moveToLastValid() {
         //  ... Del K9 (seq 100), Ins K9 (seq 99)
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
+        if (skip_no_more && item->flags != ItrItem::none) {
+            // The position of this item doesn't satisfy the seek option.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
 
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
             if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
 
-            if (prev_item) {
+            if ( prev_item &&
+                 !(skip_no_more && prev_item->flags != ItrItem::none) ) {
                 int cmp = cmpSizedBuf( item->lastRec.kv.key,
                                        prev_item->lastRec.kv.key );
                 if (cmp == 0) {
@@ -504,7 +512,8 @@ Status LogMgr::Iterator::seekInternal
             }
         } else {
             item->flags = ItrItem::no_more_prev |
-                          ItrItem::no_more_next;
+                          ItrItem::no_more_next |
+                          ItrItem::seek_failed;
         }
 
         avl_cmp_func* cmp_func = (type == BY_SEQ)
@@ -524,12 +533,12 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
@@ -566,28 +575,23 @@ bool LogMgr::Iterator::checkValidBySeq(ItrItem* item,
                                        const uint64_t cur_seq,
                                        const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrItem::seek_failed) return false;
+    // NOTE:
+    //   `no_more_next` (`no_more_prev`) means that there is no record next
+    //   (previous) to where the item is. If the item itself is beyond the
+    //   current position, it is still valid.
+    return is_prev ? (item->lastRec.seqNum < cur_seq)
+                   : (item->lastRec.seqNum > cur_seq);
 }
 
 bool LogMgr::Iterator::checkValidByKey(ItrItem* item,
                                        const SizedBuf& cur_key,
                                        const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrItem::seek_failed) return false;
+    // NOTE: Refer to the comment in `checkValidBySeq()`.
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return is_prev ? (cmp < 0) : (cmp > 0);
 }
 
 Status LogMgr::Iterator::close() {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..b5265df 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -307,6 +307,7 @@ public:
                 none = 0x0,
                 no_more_prev = 0x1,
                 no_more_next = 0x2,
+                seek_failed = 0x4,
             };
             inline static int cmpSeq(avl_node *a, avl_node *b, void *aux) {
                 ItrItem* aa = _get_entry(a, ItrItem, an);
@@ -356,7 +357,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_no_more = false);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..6abb34d 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -199,13 +199,14 @@ Status TableMgr::Iterator::prev() {
     avl_node* cursor = avl_last(&curWindow);
     while (cursor) {
         ItrItem* item = _get_entry(cursor, ItrItem, an);
+        if ( type == BY_SEQ &&
+             item->lastRec.seqNum < cur_seq) break;
+        if ( type == BY_KEY &&
+             cmpSizedBuf(item->lastRec.kv.key, cur_key) < 0 ) break;
+
         if (item->flags & ItrItem::no_more_prev) {
             s = Status::ERROR;
         } else {
-            if ( type == BY_SEQ &&
-                 item->lastRec.seqNum < cur_seq) break;
-            if ( type == BY_KEY &&
-                 cmpSizedBuf(item->lastRec.kv.key, cur_key) < 0 ) break;
             s = item->tItr->prev();
         }
 
@@ -284,13 +285,14 @@ Status TableMgr::Iterator::next() {
     avl_node* cursor = avl_first(&curWindow);
     while (cursor) {
         ItrItem* item = _get_entry(cursor, ItrItem, an);
+        if ( type == BY_SEQ &&
+             item->lastRec.seqNum > cur_seq) break;
+        if ( type == BY_KEY &&
+             cmpSizedBuf(item->lastRec.kv.key, cur_key) > 0 ) break;
+
         if (item->flags & ItrItem::no_more_next) {
             s = Status::ERROR;
         } else {
-            if ( type == BY_SEQ &&
-                 item->lastRec.seqNum > cur_seq) break;
-            if ( type == BY_KEY &&
-                 cmpSizedBuf(item->lastRec.kv.key, cur_key) > 0 ) break;
             s = item->tItr->next();
         }
 
@@ -369,7 +371,7 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
+Status TableMgr::Iterator::moveToLastValid(bool skip_no_more) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -378,13 +380,19 @@ Status TableMgr::Iterator::moveToLastValid() {
         //  ... Del K9 (seq 100), Ins K9 (seq 99)
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
+        if (skip_no_more && item->flags != ItrItem::none) {
+            // The position of this item doesn't satisfy the seek option.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
 
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
             if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
 
-            if (prev_item) {
+            if ( prev_item &&
+                 !(skip_no_more && prev_item->flags != ItrItem::none) ) {
                 int cmp = cmpSizedBuf( item->lastRec.kv.key,
                                        prev_item->lastRec.kv.key );
                 if (cmp == 0) {
@@ -466,7 +474,8 @@ Status TableMgr::Iterator::seekInternal
             }
         } else {
             item->flags = ItrItem::no_more_prev |
-                          ItrItem::no_more_next;
+                          ItrItem::no_more_next |
+                          ItrItem::seek_failed;
         }
 
         avl_cmp_func* cmp_func = (type == BY_SEQ)
@@ -487,12 +496,12 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
@@ -514,28 +523,23 @@ bool TableMgr::Iterator::checkValidBySeq(ItrItem* item,
                                          const uint64_t cur_seq,
                                          const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrItem::seek_failed) return false;
+    // NOTE:
+    //   `no_more_next` (`no_more_prev`) means that there is no record next
+    //   (previous) to where the item is. If the item itself is beyond the
+    //   current position, it is still valid.
+    return is_prev ? (item->lastRec.seqNum < cur_seq)
+                   : (item->lastRec.seqNum > cur_seq);
 }
 
 bool TableMgr::Iterator::checkValidByKey(ItrItem* item,
                                          const SizedBuf& cur_key,
                                          const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrItem::seek_failed) return false;
+    // NOTE: Refer to the comment in `checkValidBySeq()`.
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return is_prev ? (cmp < 0) : (cmp > 0);
 }
 
 
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..94edf76 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -368,6 +368,7 @@ public:
                 none = 0x0,
                 no_more_prev = 0x1,
                 no_more_next = 0x2,
+                seek_failed = 0x4,
             };
             inline static int cmpSeq(avl_node *a, avl_node *b, void *aux) {
                 ItrItem* aa = _get_entry(a, ItrItem, an);
@@ -427,7 +428,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool skip_no_more = false);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From 93a4e1a38589afa11b46413919db9f8bbe2b2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 07/39] fix: keep seek of an iterator within the range given at
 init

---
 src/db_internal.h |  8 ++++++++
 src/iterator.cc   | 23 +++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index aec1012..b9013b1 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -198,6 +198,8 @@ public:
         : db(nullptr)
         , windowCursor(nullptr)
         , parent(_parent)
+        , minSeq(0)
+        , maxSeq(NOT_INITIALIZED)
     {
         avl_init(&curWindow, nullptr);
     }
@@ -291,6 +293,12 @@ public:
 
     // Intolerable error detected. If set, we cannot proceed iteration.
     Status fatalError;
+
+    // Range of this iterator (inclusive, empty key: unbounded).
+    SizedBuf startKey;
+    SizedBuf endKey;
+    uint64_t minSeq;
+    uint64_t maxSeq;
 };
 
 struct GlobalBatchStatus {
diff --git a/src/iterator.cc b/src/iterator.cc
index f6536b5..c0a2834 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -39,6 +39,8 @@ Status Iterator::init(DB* dd,
         // Custom cmp mode.
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
+    p->startKey.alloc(start_key);
+    p->endKey.alloc(end_key);
 
     // LogMgr iterator
     ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
@@ -115,6 +117,8 @@ Status Iterator::initSN(DB* db,
         // Custom cmp mode.
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
+    p->minSeq = valid_number(min_seq) ? min_seq : 0;
+    p->maxSeq = max_seq;
 
     // LogMgr iterator
     ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
@@ -444,8 +448,8 @@ Status Iterator::IteratorInternal::moveToLastValid(bool skip_no_more) {
 }
 
 Status Iterator::IteratorInternal::seekInternal
-       ( const SizedBuf& key,
-         const uint64_t seqnum,
+       ( const SizedBuf& _key,
+         const uint64_t _seqnum,
          SeekOption opt,
          bool goto_end )
 {
@@ -454,6 +458,19 @@ Status Iterator::IteratorInternal::seekInternal
 
     Status s;
 
+    // The cursor shouldn't leave the range of this iterator.
+    SizedBuf key(_key.size, _key.data);
+    uint64_t seqnum = _seqnum;
+    if (type == ItrInt::BY_SEQ) {
+        seqnum = std::min( std::max(seqnum, minSeq), maxSeq );
+    } else if (!goto_end && !key.empty()) {
+        if (!startKey.empty() && cmpSizedBuf(key, startKey) < 0) {
+            key.referTo(startKey);
+        } else if (!endKey.empty() && cmpSizedBuf(key, endKey) > 0) {
+            key.referTo(endKey);
+        }
+    }
+
     // Remove current items from `curWindow`.
     std::vector<ItrInt::ItrItem*> items;
     avl_node* cursor = avl_first(&curWindow);
@@ -629,6 +646,8 @@ Status Iterator::close() {
         p->itrs.clear();
         p->db = nullptr;
         p->windowCursor = nullptr;
+        p->startKey.free();
+        p->endKey.free();
     }
     return Status();
 }
-- 
2.43.0


From a7149c2b5010fdf4d5540f67587936c96369f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 08/39] fix: use the custom comparator for the range of
 memtable iterators

---
 src/memtable.h           |  1 +
 src/memtable_iterator.cc | 25 +++++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..b050066 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -153,6 +153,7 @@ public:
             BY_SEQ = 1
         } type;
 
+        int cmpKeys(const SizedBuf& l, const SizedBuf& r) const;
         skiplist_node* findFirstValidNode(skiplist_node* seek_node,
                                           bool fwd_search);
 
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..7f2603b 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -16,6 +16,8 @@ limitations under the License.
 
 #include "memtable.h"
 
+#include "log_mgr.h"
+
 namespace jungle {
 
 MemTable::Iterator::Iterator()
@@ -31,6 +33,17 @@ MemTable::Iterator::~Iterator() {
     close();
 }
 
+int MemTable::Iterator::cmpKeys(const SizedBuf& l, const SizedBuf& r) const {
+    const DBConfig* db_config = mTable->logFile->logMgr->getDbConfig();
+    if (db_config->cmpFunc) {
+        // Custom cmp mode.
+        return db_config->cmpFunc( l.data, l.size,
+                                   r.data, r.size,
+                                   db_config->cmpFuncParam );
+    }
+    return SizedBuf::cmp(l, r);
+}
+
 Status MemTable::Iterator::init(const MemTable* m_table,
                                 const SizedBuf& start_key,
                                 const SizedBuf& end_key,
@@ -45,7 +58,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && cmpKeys(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +72,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && cmpKeys(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -160,7 +173,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -206,7 +219,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -317,7 +330,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -337,7 +350,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From 26a2e203d359156d555238740c67bb84d5575234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 09/39] fix: seek of memtable iterators at the edge of visible
 records

---
 src/memtable_iterator.cc | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 7f2603b..ce787c4 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -104,6 +104,10 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
     if (mTable->maxSeqNum == NOT_INITIALIZED)
         return Status::NOT_INITIALIZED;
 
+    // Sequence numbers may not be consecutive: no log in the given range.
+    if (valid_number(min_seq) && min_seq > mTable->maxSeqNum)
+        return Status::OUT_OF_RANGE;
+
     // Doesn't allow to access logs already purged.
     uint64_t min_local = min_seq;
     if (mTable->minSeqNum != NOT_INITIALIZED &&
@@ -140,6 +144,14 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
 
     maxSeq = max_local;
 
+    // Sequence numbers may not be consecutive.
+    RecNodeSeq* rn = _get_entry(cursor, RecNodeSeq, snode);
+    if (rn->rec->seqNum > maxSeq) {
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
+
     return Status();
 }
 
@@ -272,13 +284,13 @@ Status MemTable::Iterator::seek
     }
     RecNode query(query_key_ptr);
 
-    bool fwd_search = true;
-
     if (opt == GREATER) {
-        fwd_search = true; // Foward search.
+        // Forward search.
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, true);
         if (!seek_node) {
+            // If not found, backward search from the end.
             if (endKey.empty()) {
                 // End key is not given.
                 seek_node = skiplist_end(mTable->idxByKey);
@@ -288,33 +300,32 @@ Status MemTable::Iterator::seek
                 seek_node = skiplist_find_smaller_or_equal
                             ( mTable->idxByKey, &end_query.snode );
             }
-            // If not found, backward search from the end.
-            fwd_search = false;
+            seek_node = findFirstValidNode(seek_node, false);
         }
 
     } else if (opt == SMALLER) {
-        fwd_search = false;
+        // Backward search.
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, false);
         if (!seek_node) {
+            // If not found, forward search from the beginning.
             if (startKey.empty()) {
                 // Start key is not given.
                 seek_node = skiplist_begin(mTable->idxByKey);
             } else {
-                // End key is given.
+                // Start key is given.
                 RecNode start_query(&startKey);
                 seek_node = skiplist_find_greater_or_equal
                             ( mTable->idxByKey, &start_query.snode );
             }
-            // If not found, forward search from the beginning.
-            fwd_search = true;
+            seek_node = findFirstValidNode(seek_node, true);
         }
 
     } else {
         assert(0);
     }
 
-    seek_node = findFirstValidNode(seek_node, fwd_search);
     if (!seek_node) return Status::OUT_OF_RANGE;
 
     cursor = seek_node;
@@ -387,16 +398,30 @@ Status MemTable::Iterator::seekSN
 
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if (seek_node) {
+            RecNodeSeq* rn = _get_entry(seek_node, RecNodeSeq, snode);
+            if (rn->rec->seqNum > maxSeq) {
+                skiplist_release_node(seek_node);
+                seek_node = nullptr;
+            }
+        }
         if (!seek_node) {
             query.rec->seqNum = maxSeq;
             seek_node = skiplist_find_smaller_or_equal
                         ( mTable->idxBySeq, &query.snode );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if (seek_node) {
+            RecNodeSeq* rn = _get_entry(seek_node, RecNodeSeq, snode);
+            if (rn->rec->seqNum < minSeq) {
+                skiplist_release_node(seek_node);
+                seek_node = nullptr;
+            }
+        }
         if (!seek_node) {
             query.rec->seqNum = minSeq;
             seek_node = skiplist_find_greater_or_equal
-- 
2.43.0


From 28a463727c47559e156addadeb096734e41d5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 10/39] fix: read a snapshot from its own list of tables

---
 src/table_mgr.cc | 45 +++++++++++++++++++++++++++++++++++++--------
 src/table_mgr.h  |  4 ++++
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..b869908 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -521,9 +521,17 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     // If `checkpoint == 0`, take the latest one.
-    for (auto& entry: *t_list) {
-        TableInfo* info = entry;
-        info->file->openSnapshot(snap_handle, checkpoint);
+    auto entry = t_list->begin();
+    while (entry != t_list->end()) {
+        TableInfo* info = *entry;
+        s = info->file->openSnapshot(snap_handle, checkpoint);
+        if (s == Status::INVALID_CHECKPOINT) {
+            // This table contains nothing as of the checkpoint.
+            info->done();
+            entry = t_list->erase(entry);
+            continue;
+        }
+        entry++;
     }
 
     table_list_out = t_list;
@@ -556,6 +564,23 @@ Status TableMgr::storeManifest() {
     return Status();
 }
 
+bool TableMgr::getSnapshotTables(DB* snap_handle,
+                                 size_t level,
+                                 std::list<TableInfo*>& tables_out)
+{
+    if (!snap_handle || !snap_handle->sn || !snap_handle->sn->tableList) {
+        return false;
+    }
+    // Tables can be changed by compaction after the snapshot is opened, so that
+    // should search tables that the snapshot refers to, not the current ones.
+    for (TableInfo* table: *snap_handle->sn->tableList) {
+        if (table->level != level) continue;
+        table->grab();
+        tables_out.push_back(table);
+    }
+    return true;
+}
+
 Status TableMgr::get(DB* snap_handle,
                      Record& rec_inout,
                      bool meta_only)
@@ -571,8 +596,10 @@ Status TableMgr::get(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
-        if (!s) continue;
+        if (!getSnapshotTables(snap_handle, ii, tables)) {
+            s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+            if (!s) continue;
+        }
 
         TableInfo* sm_table = nullptr;
         // [Only for L0]
@@ -629,7 +656,7 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                if (!s.ok() && s != Status::KEY_NOT_FOUND) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
@@ -761,8 +788,10 @@ Status TableMgr::getPrefix(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPrefix(ii, prefix, tables);
-        if (!s) continue;
+        if (!getSnapshotTables(snap_handle, ii, tables)) {
+            s = mani->getTablesPrefix(ii, prefix, tables);
+            if (!s) continue;
+        }
 
         bool stopped = false;
         bool found_intolerable_error = false;
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 94edf76..dc88ded 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -498,6 +498,10 @@ protected:
                               TableFile*& table_file_out,
                               const TableFileOptions& t_opt);
 
+    bool getSnapshotTables(DB* snap_handle,
+                           size_t level,
+                           std::list<TableInfo*>& tables_out);
+
     TableInfo* getSmallestSrcTable(const std::list<TableInfo*>& tables,
                                    uint32_t target_hash_num = _SCU32(-1));
 
-- 
2.43.0


From dac4ceb89c632da98438fb223c320faea3c27ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 11/39] fix: find the nearest key and prefix across more than
 two tables

---
 src/table_manifest.cc | 88 ++++++++++++++++++++++---------------------
 src/table_mgr.cc      | 18 +++++++--
 2 files changed, 60 insertions(+), 46 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 16d385c..491e0c1 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -745,33 +745,41 @@ Status TableManifest::getTablesNearest(const size_t level,
         return getTablesByHash(l_info, num_partitions, tables_out);
 
     } else {
-        // Other levels: return 2 tables
-        //   greater: target, next
-        //   smaller: prev, target
+        // Other levels: return tables in the order of distance.
+        //   greater: target, next, next of next, ...
+        //   smaller: target, prev, prev of prev, ...
+        // There can be a table without any record on the searching side,
+        // caller should proceed to the next table in such a case.
         TableInfo query(level, 0, 0, true);
         query.minKey.referTo(key);
         skiplist_node* cursor = skiplist_find_smaller_or_equal
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_prev = s_opt.isSmaller()
+        if (cursor && s_opt.isGreater()) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            skiplist_node* cur_prev = t_info->prevTableSearchRequired
                                       ? skiplist_prev(l_info->tables, cursor)
                                       : nullptr;
-            skiplist_node* cur_next = s_opt.isGreater()
-                                      ? skiplist_next(l_info->tables, cursor)
-                                      : nullptr;
-
-            for (skiplist_node* cc: {cur_prev, cursor, cur_next}) {
-                if (!cc) continue;
+            if (cur_prev) {
+                TableInfo* t_prev = _get_entry(cur_prev, TableInfo, snode);
+                t_prev->grab();
+                pushTablesInStack(t_prev, tables_out);
+                tables_out.push_back(t_prev);
+                skiplist_release_node(cur_prev);
+            }
+        }
 
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
 
-                skiplist_release_node(cc);
-            }
+            cursor = s_opt.isGreater()
+                     ? skiplist_next(l_info->tables, cursor)
+                     : skiplist_prev(l_info->tables, cursor);
+            skiplist_release_node(&t_info->snode);
         }
     }
 
@@ -803,39 +811,33 @@ Status TableManifest::getTablesPrefix(const size_t level,
         return getTablesByHash(l_info, target_hash, tables_out);
 
     } else {
-        // Other levels: return 1 or 2 tables
-        //   If next table's min key has matched prefix,
-        //   return the next table as well.
+        // Other levels: return the target table, and the following tables
+        //   whose min key has matched prefix.
         TableInfo query(level, 0, 0, true);
         query.minKey.referTo(prefix);
         skiplist_node* cursor = skiplist_find_smaller_or_equal
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_next = skiplist_next(l_info->tables, cursor);
-            if (cur_next) {
-                TableInfo* t_info = _get_entry(cur_next, TableInfo, snode);
-                // Check if prefix matches.
-                if ( t_info->minKey.size < prefix.size ||
-                     SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
-                                    prefix ) != 0 ) {
-                    // Prefix doesn't match, don't need to search next table.
-                    // SHOULD RELEASE SKIPLIST NODE.
-                    skiplist_release_node(cur_next);
-                    cur_next = nullptr;
-                }
-            }
-
-            for (skiplist_node* cc: {cursor, cur_next}) {
-                if (!cc) continue;
-
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
 
-                skiplist_release_node(cc);
+            cursor = skiplist_next(l_info->tables, cursor);
+            skiplist_release_node(&t_info->snode);
+            if (!cursor) break;
+
+            // Check if prefix matches.
+            TableInfo* t_next = _get_entry(cursor, TableInfo, snode);
+            if ( t_next->minKey.size < prefix.size ||
+                 SizedBuf::cmp( SizedBuf(prefix.size, t_next->minKey.data),
+                                prefix ) != 0 ) {
+                // Prefix doesn't match, don't need to search next table.
+                // SHOULD RELEASE SKIPLIST NODE.
+                skiplist_release_node(cursor);
+                break;
             }
         }
     }
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index b869908..ecf43e8 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -738,12 +738,20 @@ Status TableMgr::getNearest(DB* snap_handle,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesNearest(ii, key, tables, s_opt);
-        if (!s) continue;
+        bool distance_ordered = false;
+        if (!getSnapshotTables(snap_handle, ii, tables)) {
+            s = mani->getTablesNearest(ii, key, tables, s_opt);
+            if (!s) continue;
+            // Tables in level-0 are not range-partitioned.
+            distance_ordered = (ii > 0);
+        }
 
         bool found_intolerable_error = false;
+        bool found_in_level = false;
+        size_t num_searched = 0;
         for (TableInfo* table: tables) {
-            if (found_intolerable_error) {
+            if ( found_intolerable_error ||
+                 ( distance_ordered && found_in_level && num_searched >= 2 ) ) {
                 table->done();
                 continue;
             }
@@ -758,10 +766,14 @@ Status TableMgr::getNearest(DB* snap_handle,
                                          meta_only );
             if (s) {
                 update_cur_nearest(returned_rec);
+                found_in_level = true;
             } else if (s != Status::KEY_NOT_FOUND) {
                 // This is intolerable error.
                 found_intolerable_error = true;
             }
+            // Count base tables only, as tables in the same stack cover
+            // the same key range.
+            if (table->baseTable) num_searched++;
             table->done();
         }
 
-- 
2.43.0


From de5ab3fe7d8410846a7f8ff35961444434e4ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 12/39] fix: nearest search in log section with invisible
 records

---
 src/log_mgr.cc  |  6 ++++--
 src/memtable.cc | 56 +++++++++++++++++++++++++++----------------------
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 3eff1f0..a4c5e3a 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -994,7 +994,8 @@ Status LogMgr::getNearest(const uint64_t chk,
                                          true, true, s_opt);
             if (s) {
                 update_cur_nearest(rec_out_local);
-                if (cmp_func(key, cur_nearest.kv.key) == 0) {
+                if ( s_opt.isExactMatchAllowed() &&
+                     cmp_func(key, cur_nearest.kv.key) == 0 ) {
                     rec_out_local.copyTo(rec_out);
                     return s;
                 }
@@ -1015,7 +1016,8 @@ Status LogMgr::getNearest(const uint64_t chk,
                                          false, true, s_opt);
                 if (s) {
                     update_cur_nearest(rec_out_local);
-                    if (cmp_func(key, cur_nearest.kv.key) == 0) {
+                    if ( s_opt.isExactMatchAllowed() &&
+                         cmp_func(key, cur_nearest.kv.key) == 0 ) {
                         rec_out_local.copyTo(rec_out);
                         return s;
                     }
diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..dcff81c 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -643,35 +643,41 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
     if (!cursor) return Status::KEY_NOT_FOUND;
 
     RecNode* node = _get_entry(cursor, RecNode, snode);
-    if (!s_opt.isExactMatchAllowed()) {
-        // Exact match is not allowed. Move the cursor if the current
+    Record* rec_ret = nullptr;
+    while (true) {
+        // Exact match is not allowed: move the cursor if the current
         // cursor is pointing to the same key.
-        while (SizedBuf::cmp(key, node->key) == 0) {
-            skiplist_node* prev_cursor = cursor;
-            if (s_opt == SearchOptions::GREATER) {
-                cursor = skiplist_next(idxByKey, prev_cursor);
-            } else {
-                cursor = skiplist_prev(idxByKey, prev_cursor);
+        bool skip_node = ( s_opt != SearchOptions::EQUAL &&
+                           !s_opt.isExactMatchAllowed() &&
+                           cmpKey(&query.snode, cursor, idxByKey->aux) == 0 );
+        if (!skip_node) {
+            rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
+            if ( rec_ret &&
+                 valid_number(flushedSeqNum) &&
+                 rec_ret->seqNum <= flushedSeqNum &&
+                 !allow_flushed_log ) {
+                // Already purged KV pair, go to table.
+                // (Tolerate if this is snapshot.)
+                rec_ret = nullptr;
             }
-            skiplist_release_node(prev_cursor);
-            if (!cursor) return Status::KEY_NOT_FOUND;
-
-            node = _get_entry(cursor, RecNode, snode);
+            if (rec_ret) break;
         }
-    }
-
-    Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-    if (!rec_ret) {
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
-    if ( valid_number(flushedSeqNum) &&
-         rec_ret->seqNum <= flushedSeqNum ) {
-        // Already purged KV pair, go to table.
-        if (!allow_flushed_log) {
-            skiplist_release_node(&node->snode);
+        if (!s_opt.isGreater() && !s_opt.isSmaller()) {
+            // Point search.
+            skiplist_release_node(cursor);
             return Status::KEY_NOT_FOUND;
-        } // Tolerate if this is snapshot.
+        }
+
+        // Nearest search: this key is not visible, go to the next closest key.
+        skiplist_node* prev_cursor = cursor;
+        if (s_opt.isGreater()) {
+            cursor = skiplist_next(idxByKey, prev_cursor);
+        } else {
+            cursor = skiplist_prev(idxByKey, prev_cursor);
+        }
+        skiplist_release_node(prev_cursor);
+        if (!cursor) return Status::KEY_NOT_FOUND;
+        node = _get_entry(cursor, RecNode, snode);
     }
 
     if ( !allow_tombstone && rec_ret->isDel() ) {
-- 
2.43.0


From 4aa683a9ba7d9739f432b8ac90b7f37e46eb6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:14 +0000
Subject: [PATCH 13/39] fix: prefix search of a snapshot should use the
 snapshot's logs

---
 src/jungle.cc  | 6 ++----
 src/log_mgr.cc | 5 ++---
 src/log_mgr.h  | 3 +--
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..a15ff04 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -846,9 +846,8 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     };
 
     Record rec_local;
-    uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
-    std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->getPrefix(chknum, l_list, prefix, cb_wrapper);
+    DB* snap_handle = (this->sn)?(this):(nullptr);
+    s = p->logMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if (s == Status::OPERATION_STOPPED) {
         // User wants to stop, return OK.
         return Status::OK;
@@ -858,7 +857,6 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     }
 
     // Key not found or user wants to continue, search tables.
-    DB* snap_handle = (this->sn)?(this):(nullptr);
     s = p->tableMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if ( !s.ok() &&
          s != Status::OPERATION_STOPPED &&
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index a4c5e3a..bf43d27 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1160,8 +1160,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
 
 #else
 // Iterator based implementation, which provides snapshot and key ordering.
-Status LogMgr::getPrefix(const uint64_t chk,
-                         std::list<LogFileInfo*>* l_list,
+Status LogMgr::getPrefix(DB* snap_handle,
                          const SizedBuf& prefix,
                          SearchCbFunc cb_func)
 {
@@ -1176,7 +1175,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
     };
 
     // Create an iterator, starting from prefix.
-    s = itr.init(nullptr, this, prefix, dummy);
+    s = itr.init(snap_handle, this, prefix, dummy);
     do {
         Record rec;
         s = itr.get(rec);
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b5265df..89bfb4a 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -196,8 +196,7 @@ public:
                       Record& rec_out,
                       SearchOptions s_opt);
 
-    Status getPrefix(const uint64_t chk,
-                     std::list<LogFileInfo*>* l_list,
+    Status getPrefix(DB* snap_handle,
                      const SizedBuf& prefix,
                      SearchCbFunc cb_func);
 
-- 
2.43.0


From f6fd54de972d98a7ed21f2537b674dc6de299efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:15 +0000
Subject: [PATCH 14/39] fix: do not return a record beyond a snapshot by
 sequence number

---
 src/jungle.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jungle.cc b/src/jungle.cc
index a15ff04..db5f742 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -675,6 +675,11 @@ Status DB::getSN(const uint64_t seq_num, KV& kv_out) {
     Status s;
     EP( p->checkHandleValidity() );
 
+    if (sn && seq_num > sn->chkNum) {
+        // Not visible in this snapshot.
+        return Status::KEY_NOT_FOUND;
+    }
+
     Record rec;
     Record::Holder h_rec(rec);
     s = p->logMgr->getSN(seq_num, rec);
@@ -690,6 +695,11 @@ Status DB::getRecord(const uint64_t seq_num, Record& rec_out) {
     Status s;
     EP( p->checkHandleValidity() );
 
+    if (sn && seq_num > sn->chkNum) {
+        // Not visible in this snapshot.
+        return Status::KEY_NOT_FOUND;
+    }
+
     Record rec;
     Record::Holder h_rec(rec);
     s = p->logMgr->getSN(seq_num, rec);
-- 
2.43.0


From 5f8a148d9935fe254526191ba99f1c839110c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:15 +0000
Subject: [PATCH 15/39] fix: add tombstones to the bloom filter

---
 src/table_file.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 72e71b5..c7b6e11 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -920,13 +920,13 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
-        // Set bloom filter if exists.
-        if (bfByKey) {
-            uint64_t hash_pair[2];
-            get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-            bfByKey->set(hash_pair);
-        }
+    // Set bloom filter if exists.
+    // NOTE: Tombstones should be set as well, otherwise they cannot hide
+    //       the older versions in the lower level tables.
+    if (bfByKey) {
+        uint64_t hash_pair[2];
+        get_hash_pair(db_config, rec.kv.key, false, hash_pair);
+        bfByKey->set(hash_pair);
     }
     // Put into booster if exists.
     if (tlbByKey) {
-- 
2.43.0


From dfe7a0ffa76b176646a08ec637aabb105c925407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:15 +0000
Subject: [PATCH 16/39] fix: snapshot iterator should see logs flushed after
 the snapshot

---
 src/log_iterator.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 4c27e5e..d98baf3 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -136,14 +136,16 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
         assert(snap_handle->sn->logList);
         for (auto& entry: *snap_handle->sn->logList) {
             LogFileInfo* l_info = entry;
+            if ( l_info->file->getMinSeqNum() > maxSeqSnap ||
+                 l_info->file->getMaxSeqNum() < minSeqSnap ) {
+                continue;
+            }
             if (lMgr->getDbConfig()->logSectionOnly) {
-                if ( l_info->file->getMinSeqNum() > maxSeqSnap ||
-                     l_info->file->getMaxSeqNum() < minSeqSnap ) {
-                    continue;
-                }
                 l_info->grab(true);
             }
-            addLogFileItr(l_info, lMgr->getDbConfig()->logSectionOnly);
+            // NOTE: Logs flushed after this snapshot was taken do not exist
+            //       in the tables of the snapshot, so that should be allowed.
+            addLogFileItr(l_info, true);
         }
         snapLogList = snap_handle->sn->logList;
     }
-- 
2.43.0


From 2362b93402ec826910d146e6e0a61a458f689d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:15 +0000
Subject: [PATCH 17/39] fix: do not expose stale logs already flushed to tables
 on loading

---
 src/memtable.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index dcff81c..6f5340d 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -923,6 +923,15 @@ Status MemTable::loadRecord(RwSerializer& rws,
         // skip by-key index update.
         return Status();
     }
+    if ( !db_config->logSectionOnly &&
+         !db_config->allowOverwriteSeqNum &&
+         valid_number(flushedSeqNum) &&
+         rec->seqNum <= flushedSeqNum ) {
+        // This record is already in tables, and there can be newer records
+        // in tables that do not exist in logs (flush beyond the last sync).
+        // It should not hide them.
+        return Status();
+    }
     addToByKeyIndex(rec);
 
     return Status();
-- 
2.43.0


From 7ae4eb37f3e11d015070eeaebf53e4a7bbaf3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:15 +0000
Subject: [PATCH 18/39] fix: do not reuse sequence numbers already flushed to
 tables

---
 src/memtable.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 6f5340d..d75a437 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1041,6 +1041,16 @@ Status MemTable::load(RwSerializer& rws,
         maxSeqNum = last_seq;
         seqNumAlloc = last_seq;
         syncedSeqNum = last_seq;
+
+        if ( valid_number(flushed_seq) &&
+             last_seq < flushed_seq ) {
+            // Logs that were not synced yet are already in tables.
+            // Sequence number should not go back, otherwise new records will
+            // be treated as flushed ones.
+            maxSeqNum = flushed_seq;
+            seqNumAlloc = flushed_seq;
+            syncedSeqNum = flushed_seq;
+        }
     }
 
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
-- 
2.43.0


From a6f5965ec5b12d49692a08d0567d5c4696d97cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:15 +0000
Subject: [PATCH 19/39] fix: batch as the first update after re-opening an
 empty DB

---
 src/log_mgr.cc  | 6 ++++++
 src/memtable.cc | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index bf43d27..886cc76 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -815,6 +815,12 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     } while (!lf_info || lf_info->isRemoved());
     LogFileInfoGuard g_li(lf_info);
 
+    // An immutable file (e.g., the last file loaded on re-open) should not
+    // be appended, same as the single record update.
+    if (g_li->file->isImmutable()) {
+        addNewLogFile(g_li, g_li);
+    }
+
     for (auto& entry: batch) {
         const Record& rr = entry;
         EP( g_li->file->setSN(rr) );
diff --git a/src/memtable.cc b/src/memtable.cc
index d75a437..99a4688 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -986,7 +986,9 @@ Status MemTable::load(RwSerializer& rws,
 
     flushedSeqNum = flushed_seq;
     minSeqNum = min_seq;
-    startSeqNum = min_seq;
+    // If the log file is empty, min seqnum is not valid.
+    // New seqnum (by batch) should start from the default one.
+    startSeqNum = valid_number(min_seq) ? min_seq : 0;
     seqNumAlloc = synced_seq;
     maxSeqNum = synced_seq;
     uint64_t padding_start_pos = NOT_INITIALIZED;
-- 
2.43.0


From 73efe9e5b2c6b4af5d4942dce12fef9c60ec818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:37 +0000
Subject: [PATCH 20/39] fix: size of a direct I/O file beyond 2 GiB

---
 src/fileops_directio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index ef90318..d02530d 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -435,7 +435,7 @@ cs_off_t FileOpsDirectIO::eof(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return -1;
     if (phandle->fd <= 0) return -1;
-    int r = ::lseek(phandle->fd, 0, SEEK_END);
+    cs_off_t r = ::lseek(phandle->fd, 0, SEEK_END);
     if (r < 0) {
         int n = errno;
         _log_err(myLog,
-- 
2.43.0


From 0bab093ddc4d8e7c3417177fe96d3c5d75d98b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:37 +0000
Subject: [PATCH 21/39] fix: fsync after truncation of a direct I/O file

---
 src/fileops_directio.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index d02530d..bfc0f3a 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -38,6 +38,7 @@ public:
         , filePos(0)
         , flushedFilePos(0)
         , fsyncedFilePos(0)
+        , truncated(false)
         , bufPtr(_alignedBuf)
         , bufPos(0)
     {
@@ -67,6 +68,7 @@ public:
     size_t filePos;
     size_t flushedFilePos;
     size_t fsyncedFilePos;
+    bool truncated;
     void* bufPtr;
     uint8_t* bufCharPtr;
     size_t bufPos;
@@ -521,7 +523,8 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
     if (!phandle) return Status::NULL_FILEOPS_HANDLE;
     if (phandle->fd <= 0) return Status::INVALID_FILE_DESCRIPTOR;
     // Avoid duplicate fsync
-    if (phandle->fsyncedFilePos >= phandle->flushedFilePos) {
+    if ( !phandle->truncated &&
+         phandle->fsyncedFilePos >= phandle->flushedFilePos ) {
         return Status();
     }
 
@@ -534,6 +537,7 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
         return Status::ERROR;
     }
     phandle->fsyncedFilePos = phandle->flushedFilePos;
+    phandle->truncated = false;
     return Status();
 }
 
@@ -568,6 +572,11 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         return Status::ERROR;
     }
 
+    // The truncation itself (and whatever is appended after it)
+    // should be synced by the next `fsync`.
+    phandle->fsyncedFilePos = 0;
+    phandle->truncated = true;
+
     // Set the aligned write buffer
     if (aligned_length == length) {
         phandle->filePos = aligned_length;
-- 
2.43.0


From 4e793183bc2c45033345268d1489483ebb9c6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:06 +0000
Subject: [PATCH 22/39] fix: bound check for a buffer reference in the
 serializer

---
 src/internal_helper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..edc39cb 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -183,6 +183,9 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
             s_buf_out.alloc(len);
             s = get(s_buf_out.data, len);
             if (!s) s_buf_out.free();
+        } else if (!dstPtr || !available(len)) {
+            // Reference to the buffer: memory mode only.
+            s = Status::READ_VIOLATION;
         } else {
             s_buf_out.data = dstPtr + curPos;
             s_buf_out.size = len;
-- 
2.43.0


From a2f6f963c19ace56f8de0fb2abd8f74efbe8b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:00:58 +0000
Subject: [PATCH 23/39] fix: resize of a buffer to zero

---
 include/libjungle/sized_buf.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index d849ba4..2496397 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -405,6 +405,12 @@ public:
             return;
         }
 
+        if (_size == 0) {
+            // `realloc` would deallocate the memory and return NULL.
+            free();
+            return;
+        }
+
         uint8_t* new_ptr = reinterpret_cast<uint8_t*>(::realloc(data, _size));
         if (new_ptr) {
             data = new_ptr;
-- 
2.43.0


From 23385db3f62cc92ffe989027483ab1017fc5269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:46 +0000
Subject: [PATCH 24/39] fix: skiplist insert and erase read the next node after
 releasing it

---
 src/skiplist.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..28ca6ae 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -455,14 +455,15 @@ insert_retry:
                 cur_node = next_node;
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node < node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node < node <= next_node
+            // Note: `next_node` should not be released while it is accessed
+            //       below, as it can be erased and then freed after that.
 
             if (no_dup && cmp == 0) {
                 // Duplicate key is not allowed.
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
+                ATM_FETCH_SUB(next_node->ref_count, 1);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
                 return -1;
             }
@@ -501,6 +502,7 @@ insert_retry:
                 if (error_code != 0) {
                     __SLD_RT_INS(error_code, node, top_layer, cur_layer);
                     _sl_clr_flags(prevs, locked_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto insert_retry;
@@ -518,11 +520,13 @@ insert_retry:
                     // clear including the current layer
                     // as we already set modification flag above.
                     _sl_clr_flags(prevs, cur_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto insert_retry;
                 }
             }
+            ATM_FETCH_SUB(next_node->ref_count, 1);
 
             if (cur_layer) {
                 // non-bottom layer => go down
@@ -774,10 +778,10 @@ erase_node_retry:
                 } )
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node <= node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node <= node <= next_node
+            // Note: `next_node` should not be released while it is accessed
+            //       below, as it can be erased and then freed after that.
 
             if (cur_layer <= top_layer) {
                 prevs[cur_layer] = cur_node;
@@ -812,6 +816,7 @@ erase_node_retry:
                 if (error_code != 0) {
                     __SLD_RT_RMV(error_code, node, top_layer, cur_layer);
                     _sl_clr_flags(prevs, locked_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto erase_node_retry;
@@ -824,11 +829,13 @@ erase_node_retry:
                     // `next` pointer has been changed, retry.
                     __SLD_NC_RMV(cur_node, nexts[cur_layer], top_layer, cur_layer);
                     _sl_clr_flags(prevs, cur_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto erase_node_retry;
                 }
             }
+            ATM_FETCH_SUB(next_node->ref_count, 1);
             if (cur_layer == 0) found_node_to_erase = true;
             // go down
             break;
-- 
2.43.0


From 0a32b9ba4972df9ffcdca941d6078d5eff1505c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:46 +0000
Subject: [PATCH 25/39] fix: skiplist erase does not find the links of a node
 above the list's top layer

---
 src/skiplist.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 28ca6ae..bef7fbf 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -744,7 +744,10 @@ erase_node_retry:
     __SLD_(size_t nh = 0);
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
+    // Note: `slist->top_layer` may not reflect this node, if it is updated
+    //       by multiple threads at the same time.
     int cur_layer = slist->top_layer;
+    if (top_layer > cur_layer) cur_layer = top_layer;
     for (; cur_layer >= 0; --cur_layer) {
         do {
             __SLD_( history[nh++] = cur_node );
-- 
2.43.0


From f2f4c44413b8d6cd2fd4f7bce48e8f19e25e53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:46 +0000
Subject: [PATCH 26/39] fix: skiplist erase clears the removed flag of a node
 erased by another thread

---
 src/skiplist.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index bef7fbf..ce3fd82 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -730,7 +730,7 @@ erase_node_retry:
     ATM_LOAD(node->is_fully_linked, is_fully_linked);
     if (!is_fully_linked) {
         // already unlinked .. remove is done by other thread
-        ATM_STORE(node->removed, bool_false);
+        // (`removed` flag should be kept, that thread may wait for it).
         ATM_STORE(node->being_modified, bool_false);
         return -3;
     }
-- 
2.43.0


From 9bf7a3c70019a1ac1d9e76170532d954ccd47aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:30 +0000
Subject: [PATCH 27/39] fix: skiplist leaves a node locked when its insertion
 is refused

---
 src/skiplist.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index ce3fd82..d2da564 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -465,6 +465,7 @@ insert_retry:
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(next_node->ref_count, 1);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
+                _sl_write_unlock_an(node);
                 return -1;
             }
 
-- 
2.43.0


From bd0491c2598ed94d70e5d69cbaee11639d90103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:07 +0000
Subject: [PATCH 28/39] fix: skiplist_next returns the given node itself while
 its next node is being erased

---
 src/skiplist.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index d2da564..7c08d64 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -984,7 +984,15 @@ skiplist_node* skiplist_next(skiplist_raw *slist,
     // In this case, start over from the top layer,
     // to find valid link (same as in prev()).
 
+    //
+    // If `node` itself is still valid (only its next node was being removed),
+    // just try again: searching by its key would return `node` itself.
+
     skiplist_node *next = _sl_next(slist, node, 0, NULL, NULL);
+    while (!next && _sl_valid_node(node)) {
+        YIELD();
+        next = _sl_next(slist, node, 0, NULL, NULL);
+    }
     if (!next) next = _sl_find(slist, node, GT);
 
     if (next == &slist->tail) return NULL;
-- 
2.43.0


From 4579b860d5f4220381eb67a9e17775cd707d433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:04:31 +0000
Subject: [PATCH 29/39] fix: readers and checkpoints could see a part of a
 batch in progress

The barrier read after the max sequence number is already cleared when the
batch ends in between, while the number is in the middle of the batch. An
empty latest log file made readers and iterators unlimited.
---
 src/log_mgr.cc | 72 ++++++++++++++++++++++++--------------------------
 src/log_mgr.h  |  4 +++
 2 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 886cc76..59aa31b 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -763,6 +763,23 @@ uint64_t LogMgr::getVisibleSeqBarrier() {
     return visibleSeqBarrier.load(MOR);
 }
 
+uint64_t LogMgr::getVisibleMaxSeqNum(const LogFile* l_file) {
+    for (;;) {
+        uint64_t max_seq = l_file->getMaxSeqNum();
+        if (!valid_number(max_seq)) return max_seq; // Empty.
+
+        // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
+        //          fetching max seq number.
+        uint64_t visible_seq_barrier = getVisibleSeqBarrier();
+        if (visible_seq_barrier) return std::min(max_seq, visible_seq_barrier);
+
+        // WARNING: No barrier now, but `max_seq` can be the middle of a batch
+        //          that is finished in the meantime. In that case the max seq
+        //          number has been changed, retry.
+        if (l_file->getMaxSeqNum() == max_seq) return max_seq;
+    }
+}
+
 Status LogMgr::checkBatchValidity(const std::list<Record>& batch)
 {
     Status s;
@@ -923,14 +940,9 @@ Status LogMgr::get(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                // If the file is still empty, there is nothing to read.
+                chk_local = getVisibleMaxSeqNum(l_info->file);
+                if (!valid_number(chk_local)) continue;
 
                 s = l_info->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
@@ -1044,14 +1056,9 @@ Status LogMgr::getNearest(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                // If the file is still empty, there is nothing to read.
+                chk_local = getVisibleMaxSeqNum(l_info->file);
+                if (!valid_number(chk_local)) continue;
 
                 s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                              false, true, s_opt);
@@ -1140,14 +1147,9 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 if (l_info->isRemoved()) continue;
 
                 // Reserve max seq number as a temporary snapshot.
-                chk_local = l_info->file->getMaxSeqNum();
-
-                // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
-                //          fetching max seq number.
-                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                // If the file is still empty, there is nothing to read.
+                chk_local = getVisibleMaxSeqNum(l_info->file);
+                if (!valid_number(chk_local)) continue;
 
                 s = l_info->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) {
@@ -1784,6 +1786,9 @@ Status LogMgr::checkpoint(uint64_t& seq_num_out, bool call_fsync) {
     Status s;
     uint64_t log_file_num = 0;
 
+   {
+    // Checkpoint should not be in the middle of a batch.
+    std::lock_guard<std::recursive_mutex> wm(writeMutex);
    for(;;) {
     // Get latest log file.
     EP(mani->getMaxLogFileNum(log_file_num));
@@ -1793,6 +1798,7 @@ Status LogMgr::checkpoint(uint64_t& seq_num_out, bool call_fsync) {
     // If this file is already immutable: force append.
     EP(g_li->file->checkpoint(seq_num_out));
     break;
+   }
    }
     // Durable sync all.
     s = sync(call_fsync);
@@ -1847,18 +1853,10 @@ Status LogMgr::getAvailSeqRange(uint64_t& min_seq,
     break;
    }
 
-    // Note: if max file doesn't exist, it means there is no log.
-    //       Return failure in that case.
-    uint64_t ln_max = NOT_INITIALIZED;
-   for (;;) {
-    EP( mani->getMaxLogFileNum(ln_max) );
-    LogFileInfoGuard li_max(mani->getLogFileInfoP(ln_max, true));
-    if (li_max.empty() || li_max.ptr->isRemoved()) continue;
-    max_seq = li_max->file->getMaxSeqNum();
-    break;
-   }
-
-    return Status();
+    // Note: if there is no update in log files, it means there is no log.
+    //       Return failure in that case. Updates of a batch in progress
+    //       should not be included.
+    return getMaxSeqNum(max_seq);
 }
 
 Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
@@ -1882,7 +1880,7 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
         if (li.empty() || li.ptr->isRemoved()) {
             break;
         }
-        max_seq = li->file->getMaxSeqNum();
+        max_seq = getVisibleMaxSeqNum(li->file);
         if (max_seq != NOT_INITIALIZED) {
             succ = true;
             break;
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 89bfb4a..db183e3 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -174,6 +174,10 @@ public:
 
     uint64_t getVisibleSeqBarrier();
 
+    // Max seq number of the given log file, except for updates of a batch
+    // in progress.
+    uint64_t getVisibleMaxSeqNum(const LogFile* l_file);
+
     Status checkBatchValidity(const std::list<Record>& batch);
 
     Status setMultiInternal(const std::list<Record>& batch,
-- 
2.43.0


From 2357ec11c7e609f3f2658cb91fb109c8ce9640d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:04:31 +0000
Subject: [PATCH 30/39] fix: flush and sync concurrent with updates lose
 records or expose a part of a batch

With a batch in progress flush went on with the given (unlimited) sequence
number instead of the barrier, and marked everything appended meanwhile as
flushed.
---
 src/log_mgr.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 59aa31b..5277908 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1271,7 +1271,6 @@ Status LogMgr::syncInternal(bool call_fsync) {
           num_suppressed);
 
     uint64_t last_synced_log = ln_from;
-    uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
         LogFileInfoGuard li(mani->getLogFileInfoP(ii));
@@ -1279,8 +1278,10 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
-                                     after_sync ) );
+        uint64_t seq_upto = getVisibleMaxSeqNum(li->file);
+        if (valid_number(seq_upto)) {
+            EP( li->file->flushMemTable(seq_upto, after_sync) );
+        } // Otherwise: no update in this file yet.
         if (call_fsync) {
             EP( li->file->sync() );
         }
@@ -1291,7 +1292,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
         //   risk that the manifest might write an incorrect syncedSeqNum in
         //   another call stack (e.g., addNewLogFile()). This could lead to
         //   data loss in the event of a crash.
-        li->file->setSyncedSeqNum(after_sync);
+        if (valid_number(seq_upto)) li->file->setSyncedSeqNum(after_sync);
         _log_( log_level, myLog, "synced log file %zu, min seq %s, "
                "flush seq %s, sync seq %s -> %s, max seq %s",
                ii,
@@ -1440,7 +1441,7 @@ Status LogMgr::flush(const FlushOptions& options,
         while (true) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
             if (options.beyondLastSync) {
-                seq_num_local = ll->file->getMaxSeqNum();
+                seq_num_local = getVisibleMaxSeqNum(ll->file);
             } else {
                 seq_num_local = ll->file->getSyncedSeqNum();
             }
@@ -1461,7 +1462,6 @@ Status LogMgr::flush(const FlushOptions& options,
 
     } else {
         // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
         uint64_t ln_by_seq = ln_to;
         mani->getLogFileNumBySeq(seq_num_local, ln_by_seq, options.purgeOnly);
@@ -1476,6 +1476,20 @@ Status LogMgr::flush(const FlushOptions& options,
             ln_to = ln_by_seq;
         }
         if (ln_to < ln_from) return Status::ALREADY_FLUSHED;
+
+        if (!options.purgeOnly) {
+            // WARNING:
+            //   Updates can be appended or synced while this flush is going
+            //   on. They should not be treated as flushed, thus
+            //   `seq_num_local` should not exceed what we will read.
+            LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+            uint64_t seq_limit = options.beyondLastSync
+                                 ? getVisibleMaxSeqNum(ll->file)
+                                 : ll->file->getSyncedSeqNum();
+            if (valid_number(seq_limit) && seq_limit < seq_num_local) {
+                seq_num_local = seq_limit;
+            }
+        }
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
-- 
2.43.0


From 8202d72303301d7f12a968a8aae0c5fe0d552a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:09:23 +0000
Subject: [PATCH 31/39] fix: the first batch on an empty log is not hidden from
 readers while in progress

---
 src/global_batch.cc |  4 ++--
 src/log_mgr.cc      | 20 ++++++++++++++++----
 src/log_mgr.h       | 10 +++++++++-
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..7ddf274 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -77,7 +77,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
         const GlobalBatch::BatchPair& pair = entry;
         uint64_t max_seq = 0;
         pair.db->p->logMgr->getMaxSeqNum(max_seq);
-        pair.db->p->logMgr->setVisibleSeqBarrier(max_seq);
+        pair.db->p->logMgr->setBatchBarrier(max_seq);
     }
 
     // Auto unlock + clearing barrier.
@@ -86,7 +86,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->clearBatchBarrier();
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 5277908..a121ee2 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -40,6 +40,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
     , visibleSeqBarrier(0)
+    , hideAllUpdates(false)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -710,9 +711,9 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
 
     uint64_t max_seq = 0;
     getMaxSeqNum(max_seq); // empty log should be tolerated.
-    setVisibleSeqBarrier(max_seq);
+    setBatchBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        clearBatchBarrier();
     } );
 
     EP( checkBatchValidity(batch) );
@@ -727,8 +728,16 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     return Status();
 }
 
-void LogMgr::setVisibleSeqBarrier(uint64_t to) {
-    visibleSeqBarrier.store(to, MOR);
+void LogMgr::setBatchBarrier(uint64_t max_seq) {
+    // Zero barrier means no barrier, thus needs a separate flag if there is
+    // no update before the batch.
+    if (!max_seq) hideAllUpdates.store(true, MOR);
+    visibleSeqBarrier.store(max_seq, MOR);
+}
+
+void LogMgr::clearBatchBarrier() {
+    visibleSeqBarrier.store(0, MOR);
+    hideAllUpdates.store(false, MOR);
 }
 
 void LogMgr::setGlobalBatch(uint64_t fwd_barrier,
@@ -773,6 +782,9 @@ uint64_t LogMgr::getVisibleMaxSeqNum(const LogFile* l_file) {
         uint64_t visible_seq_barrier = getVisibleSeqBarrier();
         if (visible_seq_barrier) return std::min(max_seq, visible_seq_barrier);
 
+        // The first batch is in progress.
+        if (hideAllUpdates.load(MOR)) return NOT_INITIALIZED;
+
         // WARNING: No barrier now, but `max_seq` can be the middle of a batch
         //          that is finished in the meantime. In that case the max seq
         //          number has been changed, retry.
diff --git a/src/log_mgr.h b/src/log_mgr.h
index db183e3..ff82a3b 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -167,7 +167,9 @@ public:
 
     Status setMulti(const std::list<Record>& batch);
 
-    void setVisibleSeqBarrier(uint64_t to);
+    void setBatchBarrier(uint64_t max_seq);
+
+    void clearBatchBarrier();
 
     void setGlobalBatch(uint64_t fwd_barrier,
                         std::shared_ptr<GlobalBatchStatus> status);
@@ -443,6 +445,12 @@ protected:
      */
     std::atomic<uint64_t> visibleSeqBarrier;
 
+    /**
+     * `true` if a batch on the log without any update is in progress,
+     * so that nothing should be visible to user.
+     */
+    std::atomic<bool> hideAllUpdates;
+
     /**
      * Global batch.
      */
-- 
2.43.0


From 08759993d89a61373fe2abbae76b73e4f6adcfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:09:23 +0000
Subject: [PATCH 32/39] fix: retry of opening a snapshot releases log files
 twice

---
 src/log_mgr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index a121ee2..11ca662 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -440,6 +440,7 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                     l_info->done();
                 }
             }
+            l_list->clear();
 
             retry_init = true;
             break;
-- 
2.43.0


From db8d2dad13957e0e5436e1ac5b8ecfa74e4bf816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 33/39] fix: DB could not be opened after a crash during the
 initial setup of the log section

---
 src/log_mgr.cc | 54 +++++++++++++++++++++++++++++++++++++++++---------
 src/log_mgr.h  |  4 ++++
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 11ca662..ce00556 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -69,11 +69,7 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
     reclaimSema.enabled = true;
 
     Status s;
-    mani = new LogManifest(this,
-                           opt.fOps,
-                           opt.dbConfig->directIoOpt.enabled
-                               && FileOps::supportDirectIO()
-                           ? opt.fDirectOps : opt.fOps);
+    mani = new LogManifest(this, opt.fOps, getLogFileOps());
     if (!mani) return Status::ALLOCATION_FAILURE;
     mani->setLogger(myLog);
 
@@ -105,18 +101,32 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
         _log_info(myLog, "open custom manifest: %s", m_filename.c_str());
     }
 
-    if (opt.fOps->exist(m_filename.c_str())) {
+    bool previous_exists = opt.fOps->exist(m_filename.c_str());
+    if (previous_exists) {
         // Manifest file already exists, load it.
         s = mani->load(opt.path, m_filename, opt.prefixNum);
         if (!s) {
             // Error happened, try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-            TC(BackupRestore::restore(opt.fOps, m_filename));
-            s = mani->load(opt.path, m_filename, opt.prefixNum);
+            s = BackupRestore::restore(opt.fOps, m_filename);
+            if (s) s = mani->load(opt.path, m_filename, opt.prefixNum);
+        }
+        if (!s && isInitialSetupIncomplete()) {
+            // The initial setup was interrupted (e.g., crash) while the very
+            // first manifest file was being written, and no log file has been
+            // created yet. Do it again from the beginning.
+            _log_warn(myLog, "previous initial setup was not completed, do it again");
+            delete mani;
+            mani = new LogManifest(this, opt.fOps, getLogFileOps());
+            mani->setLogger(myLog);
+            opt.fOps->remove(m_filename);
+            previous_exists = false;
+            s = Status();
         }
         if (!s) throw s;
+    }
 
-    } else {
+    if (!previous_exists) {
         // Not exist, initial setup phase.
 
         // If `m_filename` is from custom path, should return error.
@@ -202,6 +212,32 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
    }
 }
 
+FileOps* LogMgr::getLogFileOps() const {
+    return opt.dbConfig->directIoOpt.enabled && FileOps::supportDirectIO()
+           ? opt.fDirectOps : opt.fOps;
+}
+
+bool LogMgr::isInitialSetupIncomplete() const {
+    if (opt.dbConfig->readOnly || !opt.dbConfig->customManifestPath.empty()) {
+        return false;
+    }
+
+    // There is at least one log file once the initial setup is done.
+    std::vector<std::string> files;
+    FileMgr::scan(opt.path, files);
+
+    char prefix[64];
+    sprintf(prefix, "log%04" PRIu64 "_", opt.prefixNum);
+    const std::string m_filename = getManifestFilename();
+    for (auto& entry: files) {
+        if ( entry.find(prefix) != std::string::npos &&
+             entry.find(m_filename) == std::string::npos ) {
+            return false;
+        }
+    }
+    return true;
+}
+
 void LogMgr::logMgrSettings() {
     DBMgr* mgr = DBMgr::getWithoutInit();
     // NOTE: `DBMgr` may not be initialized if `LogMgr` is being
diff --git a/src/log_mgr.h b/src/log_mgr.h
index ff82a3b..05de0af 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -143,6 +143,10 @@ public:
 
     Status init(const LogMgrOptions& lm_opt);
 
+    FileOps* getLogFileOps() const;
+
+    bool isInitialSetupIncomplete() const;
+
     void logMgrSettings();
 
     Status rollback(uint64_t seq_upto);
-- 
2.43.0


From b500c96dcee12bbf01d7d8734c0cf8235dda8b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 34/39] fix: log file created when none is valid was not known
 by its number

---
 src/log_mgr.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ce00556..9c46abf 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -182,8 +182,16 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
     if (mani->getNumLogFiles() == 0) {
         // No valid log file exists. Start from zero.
         _log_warn(myLog, "no valid log file exists, start from 0");
+
+        // NOTE: New updates will find the log file by the max log file number,
+        //       which does not exist if the manifest was stored before the
+        //       very first log file was created.
+        uint64_t log_num = 0;
+        if (!mani->getMaxLogFileNum(log_num)) {
+            TC(mani->issueLogFileNumber(log_num));
+        }
         std::string l_filename =
-                LogFile::getLogFileName(opt.path, opt.prefixNum, 0);
+                LogFile::getLogFileName(opt.path, opt.prefixNum, log_num);
         LogFile* l_file = new LogFile(this);
         l_file->setLogger(myLog);
 
@@ -192,9 +200,9 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
                           opt.dbConfig->directIoOpt.enabled
                               && FileOps::supportDirectIO()
                           ? opt.fDirectOps : opt.fOps,
-                          0,
+                          log_num,
                           0));
-        TC(mani->addNewLogFile(0, l_file, 1));
+        TC(mani->addNewLogFile(log_num, l_file, 1));
 
        } catch (Status s) {
         delete l_file;
-- 
2.43.0


From c9834ce907e349275e00c1b8bd644c396ac345b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 35/39] fix: DB could not be opened after a crash during the
 initial setup of the table section

---
 src/table_mgr.cc | 46 ++++++++++++++++++++++++++++++++++++++++------
 src/table_mgr.h  |  2 ++
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index ecf43e8..3fa56b3 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -198,17 +198,31 @@ Status TableMgr::init(const TableMgrOptions& _options) {
     }
 
    try {
-    if (opt.fOps->exist(m_filename.c_str())) {
+    bool previous_exists = opt.fOps->exist(m_filename.c_str());
+    if (previous_exists) {
         // Manifest file already exists, load it.
         s = mani->load(opt.path, opt.prefixNum, m_filename);
         if (!s) {
             // Error happened, try again using backup file.
             _log_err(myLog, "loading manifest error: %d, try again", s);
-            TC(BackupRestore::restore(opt.fOps, m_filename));
-            s = mani->load(opt.path, opt.prefixNum, m_filename);
+            s = BackupRestore::restore(opt.fOps, m_filename);
+            if (s) s = mani->load(opt.path, opt.prefixNum, m_filename);
+        }
+        if (!s && isInitialSetupIncomplete()) {
+            // The initial setup was interrupted (e.g., crash) before the
+            // manifest file was synced, do it again from the beginning.
+            _log_warn(myLog, "previous initial setup was not completed, do it again");
+            delete mani;
+            mani = new TableManifest(this, opt.fOps);
+            mani->setLogger(myLog);
+            opt.fOps->remove(m_filename);
+            previous_exists = false;
+            s = Status();
         }
         if (!s) throw s;
+    }
 
+    if (previous_exists) {
         // Check & adjust num level-0 partitions.
         size_t ii = 0;
         size_t num_tables = 0;
@@ -270,9 +284,12 @@ Status TableMgr::init(const TableMgrOptions& _options) {
             throw Status(Status::MANIFEST_NOT_EXIST);
         }
 
+        // There can be table files remaining, if previous
+        // initial setup was not completed.
+        removeStaleFiles();
+
         // Create manifest file.
-        s = mani->create(opt.path, m_filename);
-        if (!s) return s;
+        TC(mani->create(opt.path, m_filename));
 
         numL0Partitions = db_config->numL0Partitions;
         if ( !db_config->logSectionOnly &&
@@ -316,10 +333,26 @@ Status TableMgr::init(const TableMgrOptions& _options) {
    } catch (Status s) {
     _log_err(myLog, "init manifest error: %d", s);
     DELETE(mani);
+    // `compactStatus` is not initialized yet.
+    numL0Partitions = compactStatus.size();
     return s;
    }
 }
 
+bool TableMgr::isInitialSetupIncomplete() const {
+    if (opt.dbConfig->readOnly || !opt.dbConfig->customManifestPath.empty()) {
+        return false;
+    }
+
+    // Both log and table sections are set up before the very first update,
+    // so that no record exists in the log section, and also no record has
+    // been flushed into tables.
+    LogMgr* log_mgr = parentDb->p->logMgr;
+    uint64_t seqnum = 0;
+    return !log_mgr->getMaxSeqNum(seqnum) &&
+           !log_mgr->getLastFlushedSeqNum(seqnum);
+}
+
 Status TableMgr::adjustNumL0Partitions() {
     Status s;
     const DBConfig* db_config = getDbConfig();
@@ -327,7 +360,8 @@ Status TableMgr::adjustNumL0Partitions() {
     _log_info(myLog, "adjust numL0 partitions: %zu -> %zu",
               numL0Partitions, db_config->numL0Partitions);
 
-    if (!db_config->nextLevelExtension) {
+    // NOTE: If there is no L0 table, the initial setup was not completed.
+    if (!db_config->nextLevelExtension && numL0Partitions) {
         _log_err(myLog, "[adjust numL0] not allowed in L0 only mode");
         throw Status(Status::INVALID_CONFIG);
     }
diff --git a/src/table_mgr.h b/src/table_mgr.h
index dc88ded..79d25b0 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -492,6 +492,8 @@ protected:
     using SnapMap = std::unordered_map<DB*, TableList*>;
 
 // === FUNCTIONS
+    bool isInitialSetupIncomplete() const;
+
     void logTableSettings(const DBConfig* db_config);
 
     Status createNewTableFile(size_t level,
-- 
2.43.0


From 09ee1006c977de5b721bd7847d95baed8b1ddb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 36/39] fix: sequence numbers went back after a crash between
 writing a log file and its manifest

---
 src/log_manifest.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..d651699 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -453,6 +453,18 @@ Status LogManifest::load(const std::string& path,
                    _seq_str(purged_seq).c_str(),
                    _seq_str(synced_seq).c_str() );
 
+        // WARNING:
+        //   If crash happened before updating the manifest, the file may
+        //   contain records newer than the synced seq number. The next file
+        //   should start from the actual last record, otherwise sequence
+        //   numbers will go back.
+        uint64_t loaded_max_seq = l_file->getMaxSeqNum();
+        if ( valid_number(loaded_max_seq) &&
+             ( !valid_number(last_synced_seq) ||
+               last_synced_seq < loaded_max_seq ) ) {
+            last_synced_seq = loaded_max_seq;
+        }
+
         addNewLogFile(l_file_num, l_file, min_seq);
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
-- 
2.43.0


From 0a3c656f4e8bff9a2a43e2746ae943600fb5c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 37/39] fix: log files left empty by a crash hid the records of
 newer log files

---
 src/log_manifest.cc |  9 +++++++--
 src/log_manifest.h  |  5 +++++
 src/log_mgr.cc      |  6 +++++-
 src/memtable.cc     | 12 ++++++++++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index d651699..ccdd352 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -465,7 +465,10 @@ Status LogManifest::load(const std::string& path,
             last_synced_seq = loaded_max_seq;
         }
 
-        addNewLogFile(l_file_num, l_file, min_seq);
+        // The actual min seq number may differ as well.
+        min_seq = l_file->getMinSeqNum();
+        addNewLogFile( l_file_num, l_file,
+                       valid_number(min_seq) ? min_seq : 0 );
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
             lastSyncedLog.store(l_file_num);
@@ -756,7 +759,9 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
                                         bool force_not_load_memtable,
                                         bool allow_non_exact_match)
 {
-    LogFileInfo query(0);
+    // If there are multiple files starting from the same seq number
+    // (all of them except for the last one are empty), find the last one.
+    LogFileInfo query(NOT_INITIALIZED);
     query.startSeq = seq_num;
     skiplist_node* cursor = skiplist_find_smaller_or_equal
                             ( &logFilesBySeq, &query.snodeBySeq );
diff --git a/src/log_manifest.h b/src/log_manifest.h
index 82a247b..1bfaf95 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -71,6 +71,11 @@ struct LogFileInfo {
 
         if (aa->startSeq < bb->startSeq) return -1;
         if (aa->startSeq > bb->startSeq) return 1;
+
+        // NOTE: If a log file is empty, the next file starts from
+        //       the same seq number.
+        if (aa->logFileNum < bb->logFileNum) return -1;
+        if (aa->logFileNum > bb->logFileNum) return 1;
         return 0;
     }
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 9c46abf..ebf04c5 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -561,7 +561,11 @@ Status LogMgr::addNewLogFile(LogFileInfoGuard& cur_log_file_info,
                 LogFile::getLogFileName(opt.path, opt.prefixNum, new_log_num);
         LogFile* l_new_file = new LogFile(this);
         l_new_file->setLogger(myLog);
-        uint64_t start_seqnum = cur_log_file_info->file->getMaxSeqNum() + 1;
+        // If the current file is empty, start from the same seq number.
+        uint64_t cur_max_seqnum = cur_log_file_info->file->getMaxSeqNum();
+        uint64_t start_seqnum = valid_number(cur_max_seqnum)
+                                ? cur_max_seqnum + 1
+                                : cur_log_file_info.ptr->startSeq;
         l_new_file->create( l_filename,
                             opt.dbConfig->directIoOpt.enabled
                                 && FileOps::supportDirectIO()
diff --git a/src/memtable.cc b/src/memtable.cc
index 99a4688..ac748d1 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -997,6 +997,7 @@ Status MemTable::load(RwSerializer& rws,
     size_t filesize = rws.size();
     size_t last_valid_size = rws.pos();
     uint64_t num_record = 0, num_flush = 0, num_chk = 0;
+    uint64_t first_seq = NOT_INITIALIZED;
     uint64_t last_seq = NOT_INITIALIZED;
     std::string m;
 
@@ -1013,6 +1014,7 @@ Status MemTable::load(RwSerializer& rws,
         if (type == FlagType::RECORD) {
             uint64_t seq = 0;
             EB( loadRecord(rws, flags, seq),  "failed to load record" )
+            if (NOT_INITIALIZED == first_seq) first_seq = seq;
             last_seq = seq;
             num_record++;
             last_valid_size = rws.pos();
@@ -1039,6 +1041,16 @@ Status MemTable::load(RwSerializer& rws,
         }
     }
 
+    // WARNING:
+    //   If crash happened before updating the manifest, the min seq number
+    //   given by the manifest may not exist (while records exist), or may be
+    //   that of a record that was not written.
+    if (NOT_INITIALIZED != last_seq) {
+        if (!valid_number(minSeqNum)) minSeqNum = first_seq;
+    } else if (!valid_number(flushed_seq)) {
+        minSeqNum = valid_number(synced_seq) ? synced_seq + 1 : NOT_INITIALIZED;
+    }
+
     if (NOT_INITIALIZED != last_seq) {
         maxSeqNum = last_seq;
         seqNumAlloc = last_seq;
-- 
2.43.0


From e69a3bfc093a6ddc3bc4939ac527c360daf40043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 38/39] fix: snapshot on a checkpoint in logs saw newer records
 left in tables by a crashed flush

---
 src/table_file.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/table_file.cc b/src/table_file.cc
index c7b6e11..4387cbe 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -576,6 +576,17 @@ Status TableFile::openSnapshot(DB* snap_handle,
             snap_seqnum = entry->second;
         }
     }
+    if (clone_from_latest && checkpoint) {
+        // If the last flush was interrupted by a crash, this table may contain
+        // records newer than the checkpoint, that are still in log section.
+        uint64_t latest = 0, upto = 0;
+        if ( getLatestSnapMarker(latest) &&
+             latest > checkpoint &&
+             getSnapMarkerUpto(checkpoint, upto) ) {
+            clone_from_latest = false;
+            snap_seqnum = upto;
+        }
+    }
     if (!clone_from_latest && !snap_seqnum) return Status::INVALID_CHECKPOINT;
 
     fdb_status fs;
-- 
2.43.0


From 7e33024384b3d75502fd8bebda7d9b1bcd64136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:58 +0000
Subject: [PATCH 39/39] fix: checkpoint flushed again after a crash contained
 newer records

---
 src/table_file.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4387cbe..6c3ee5d 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -662,6 +662,16 @@ Status TableFile::setCheckpoint(Record* rec,
             // Commit for the checkpoint.
             fdb_seqnum_t commit_seqnum;
             fdb_get_kvs_seqnum(writer->db, &commit_seqnum);
+            uint64_t prev_commit = 0;
+            if ( commit_seqnum > chk &&
+                 getSnapMarkerUpto(chk, prev_commit) ) {
+                // This table already contains newer records, which means that
+                // the previous flush was interrupted by a crash. A new commit
+                // will not represent the status as of the checkpoint,
+                // use the one done by the previous flush.
+                addCheckpoint(chk, prev_commit);
+                continue;
+            }
             EP( writer->commit() );
 
             addCheckpoint(chk, commit_seqnum);
-- 
2.43.0

