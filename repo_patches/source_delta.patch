From 1211ddc0235c74eecc0372247ca0d983c0a8f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 01/54] fix: SearchUnique must not skip the element before the
 probe

The upper bound is exclusive, so continuing with high = i - 1 dropped element
i-1 from the search and keys in it were reported as not found.
---
 util/sliceu/sliceu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sliceu/sliceu.go b/util/sliceu/sliceu.go
index 6916104..19dcd6c 100644
--- a/util/sliceu/sliceu.go
+++ b/util/sliceu/sliceu.go
@@ -104,7 +104,7 @@ func SearchUnique[S ~[]E, E, T any](x S, target T, cmp func(E, T) int) (int, boo
 		if cmpValue < 0 {
 			low = i + 1
 		} else {
-			high = i - 1
+			high = i
 		}
 	}
 
-- 
2.43.0


From 98308c3caaf0a68196c07c7ef130fe864b43d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:01 +0000
Subject: [PATCH 02/54] fix: SortedCache.Push must not count a replaced value
 twice

Pushing a value that is already cached replaced it in the tree but added its
length to byteSize again, so the cache filled up without holding more.
---
 util/ds/sorted_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index e8fc497..719378e 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -22,8 +22,11 @@ func NewSortedCache(maxSizeBytes uint64) *SortedCache {
 }
 
 func (s *SortedCache) Push(addValue []byte) {
+	replaced, ok := s.tree.ReplaceOrInsert(addValue)
+	if ok {
+		s.byteSize -= uint64(len(replaced))
+	}
 	s.byteSize += uint64(len(addValue))
-	s.tree.ReplaceOrInsert(addValue)
 }
 
 func (s *SortedCache) Pop() (min []byte, ok bool) {
-- 
2.43.0


From 073f92a8b9d7d11d4b5ad8801e21c4a3ca71898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 03/54] fix: a late batch time-out must not flush the next
 batch of a ReorderFetcher

---
 batching/reorder_fetcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index fc35a81..7cc6c83 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -43,8 +43,8 @@ func NewReorderFetcher[T, R any](ctx context.Context, params NewReorderFetcherPa
 	go func() {
 		for {
 			select {
-			case <-rf.batcher.BatchTimedOut:
-				rf.flush(ctx, CurrentBatch)
+			case token := <-rf.batcher.BatchTimedOut:
+				rf.flush(ctx, token)
 			case <-ctx.Done():
 				return
 			}
-- 
2.43.0


From f3b75092c8718958fcc14b4b1c5bc2ee60c13961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:37 +0000
Subject: [PATCH 04/54] fix: ReorderFetcher must not emit later results in the
 place of a failed fetch

---
 batching/reorder_fetcher.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 7cc6c83..791f936 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -14,7 +14,14 @@ type ReorderFetcher[T, R any] struct {
 	batcher    *EventBatcher[T]
 	fetchBatch BatchFetcher[T, R]
 	errChan    chan error
-	buffer     *ReorderBuffer[[]R]
+	buffer     *ReorderBuffer[fetched[R]]
+	failed     bool // set while draining: a fetch failed, nothing after it may be emitted
+}
+
+// fetched is the outcome of one FetchBatch call.
+type fetched[R any] struct {
+	results []R
+	err     error
 }
 
 type NewReorderFetcherParams[T, R any] struct {
@@ -36,7 +43,7 @@ func NewReorderFetcher[T, R any](ctx context.Context, params NewReorderFetcherPa
 		fetchBatch: params.FetchBatch,
 		Output:     make(chan R, params.BufferSize),
 		errChan:    params.ErrChan,
-		buffer:     NewReorderBuffer[[]R](reorderBufferSize),
+		buffer:     NewReorderBuffer[fetched[R]](reorderBufferSize),
 	}
 
 	// Process batch timeouts
@@ -83,9 +90,14 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 		if err != nil {
 			d.errChan <- err
 		}
-		d.buffer.Add(seqNum, result)
+		d.buffer.Add(seqNum, fetched[R]{result, err})
 		for resp := range d.buffer.Drain() {
-			for _, result := range resp {
+			// Later results must not take the place of the ones that are missing.
+			d.failed = d.failed || resp.err != nil
+			if d.failed {
+				continue
+			}
+			for _, result := range resp.results {
 				d.Output <- result
 			}
 		}
-- 
2.43.0


From 44fd34156484cf9e0dbb55ff46837ccda78e2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 05/54] fix: ReorderFetcher must reserve output slots in the
 order batches were flushed

---
 batching/reorder_fetcher.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 791f936..ce60567 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -2,6 +2,7 @@ package batching
 
 import (
 	"context"
+	"sync"
 )
 
 type BatchFetcher[T, R any] func(ctx context.Context, events []T) ([]R, error)
@@ -12,6 +13,7 @@ type ReorderFetcher[T, R any] struct {
 	Output chan R
 
 	batcher    *EventBatcher[T]
+	flushMu    sync.Mutex // Keeps reservations in the order of the flushed batches
 	fetchBatch BatchFetcher[T, R]
 	errChan    chan error
 	buffer     *ReorderBuffer[fetched[R]]
@@ -76,15 +78,11 @@ func (d *ReorderFetcher[T, R]) Flush(ctx context.Context) {
 
 // flush the current batch and then asynchronously run the `FetchBatch` callback.
 func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
-	events := d.batcher.Flush(token)
-	if d.batcher == nil {
-		panic("batcher became nil")
-	}
+	events, seqNum := d.flushAndReserve(token)
 	if len(events) == 0 {
 		return
 	}
 
-	seqNum := d.buffer.Reserve()
 	go func() {
 		result, err := d.fetchBatch(ctx, events)
 		if err != nil {
@@ -103,3 +101,16 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 		}
 	}()
 }
+
+// flushAndReserve takes the current batch and reserves its place in the output.
+// The size and time-out flushers run concurrently, so both happen under one lock.
+func (d *ReorderFetcher[T, R]) flushAndReserve(token BatchToken) ([]T, uint64) {
+	d.flushMu.Lock()
+	defer d.flushMu.Unlock()
+
+	events := d.batcher.Flush(token)
+	if len(events) == 0 {
+		return nil, 0
+	}
+	return events, d.buffer.Reserve()
+}
-- 
2.43.0


From 2d65091a931f4414e8a65de1a82cafb994054d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 06/54] fix: table descriptors must keep binary keys

Key ranges were serialised as JSON strings, which replace every byte that is
not valid UTF-8. A table re-opened from its descriptor then had another key
range and its keys were not found.
---
 dkv/sst/table.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index baa830a..db220e5 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -66,8 +66,8 @@ func NewTable(file storage.File) *Table {
 }
 
 type TableDocument struct {
-	StartKey    string
-	EndKey      string
+	StartKey    []byte // Bytes so that keys which aren't valid UTF-8 survive JSON
+	EndKey      []byte
 	Size        uint64
 	EntriesSize uint64
 	URI         string
@@ -85,8 +85,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		file:        fs.Open(doc.URI),
 		size:        int64(doc.Size),
 		entriesSize: int64(doc.EntriesSize),
-		startKey:    []byte(doc.StartKey),
-		endKey:      []byte(doc.EndKey),
+		startKey:    doc.StartKey,
+		endKey:      doc.EndKey,
 		startSeqNum: doc.StartSeqNum,
 		endSeqNum:   doc.EndSeqNum,
 	}
@@ -101,8 +101,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 	params := CleanupParams{
 		deleteFunc:    t.file.CreateDeleteFunc(),
 		dataOwnership: dataOwnership,
-		startKey:      []byte(doc.StartKey),
-		endKey:        []byte(doc.EndKey),
+		startKey:      doc.StartKey,
+		endKey:        doc.EndKey,
 		uri:           doc.URI,
 	}
 
@@ -351,8 +351,8 @@ func (t *Table) ensureMetadataLoaded() {
 
 func (t *Table) Document() TableDocument {
 	return TableDocument{
-		StartKey:    string(t.startKey),
-		EndKey:      string(t.endKey),
+		StartKey:    t.startKey,
+		EndKey:      t.endKey,
 		Size:        uint64(t.size),
 		EntriesSize: uint64(t.entriesSize),
 		URI:         t.file.URI(),
-- 
2.43.0


From 36cac79b39e957d46c2f3314b824b55a9f804273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 07/54] fix: a table's sequence number range must cover all its
 entries

The range was taken from the first and last key, so a table could hold newer
entries than its recorded end and a restored database reused their numbers.
---
 dkv/sst/table_writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 0176881..732fa1e 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -66,7 +66,9 @@ func writeEntry(t *Table, entry kv.Entry) {
 	}
 	// Set ending entry values
 	t.endKey = entry.Key()
-	t.endSeqNum = entry.SeqNum()
+	// Entries are in key order, not in the order they were written
+	t.startSeqNum = min(t.startSeqNum, entry.SeqNum())
+	t.endSeqNum = max(t.endSeqNum, entry.SeqNum())
 
 	// Add to metadata
 	t.searchIndex.IndexOffset(t.size)
-- 
2.43.0


From aec55b16a4bb69648b207d5859d81cb619fffd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 08/54] fix: looking up a key before a table's first key must
 not panic

---
 dkv/sst/search_index.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/search_index.go b/dkv/sst/search_index.go
index 09bb3a3..6cc8e0d 100644
--- a/dkv/sst/search_index.go
+++ b/dkv/sst/search_index.go
@@ -49,8 +49,9 @@ func (si *SearchIndex) Search(targetKey []byte, readKey func(offset int64) ([]by
 	}
 
 	// BinarySearch returns the _greater_ index when we don't find an exact match
-	// so subtract one here to start searching from the earlier index.
-	if !isExact {
+	// so subtract one here to start searching from the earlier index. Keys before
+	// the first entry have no earlier index.
+	if !isExact && foundIndex > 0 {
 		foundIndex--
 	}
 
-- 
2.43.0


From 48bc58d4a396ae283651bcdec16e84a5f1ec83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 09/54] fix: a table without entries must not read its footer
 as entries

---
 dkv/storage/cursor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dkv/storage/cursor.go b/dkv/storage/cursor.go
index 5ca5799..3e19004 100644
--- a/dkv/storage/cursor.go
+++ b/dkv/storage/cursor.go
@@ -10,16 +10,17 @@ type Cursor struct {
 	File       io.ReaderAt
 	offset     int64
 	debug      bool
+	bounded    bool
 	startBound uint64
 	endBound   uint64
 }
 
 func NewBoundedCursor(reader io.ReaderAt, start, end uint64) *Cursor {
-	return &Cursor{File: reader, startBound: start, endBound: end}
+	return &Cursor{File: reader, bounded: true, startBound: start, endBound: end}
 }
 
 func (c *Cursor) Move(offset int64) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if offset < int64(c.startBound) {
 			panic(fmt.Sprintf("cursor move to %d before start bound %d", offset, c.startBound))
 		}
@@ -34,7 +35,7 @@ func (c *Cursor) Move(offset int64) {
 
 // Read implements io.Reader.
 func (c *Cursor) Read(p []byte) (n int, err error) {
-	if c.endBound != 0 {
+	if c.bounded {
 		if c.offset >= int64(c.endBound) {
 			return 0, io.EOF
 		}
-- 
2.43.0


From c326063e4424dd42788c599c9361282b9b1de3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 10/54] fix: WriteRun must not end a run with an empty table

A trailing empty table has no key range, which breaks the search for the
tables of a sorted level.
---
 dkv/sst/table_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 732fa1e..62f719f 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -100,6 +100,9 @@ func (c *TableWriter) WriteRun(entries iter.Seq[kv.Entry], targetSize uint64) ([
 		// Iterate through entries until we reach the ideal table size
 		for buffer.size < int(targetSize) {
 			entry, ok := next()
+			if !ok && len(buffer.entries) == 0 {
+				return tables, nil // Everything was flushed, don't write an empty table
+			}
 			if !ok {
 				t, err := c.Write(buffer.all())
 				if err != nil {
-- 
2.43.0


From 6a263330c5132b20db5a43f2d5f55f7ac2bb2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 11/54] fix: rotated WAL segments must keep their sequence
 numbers

Carried over segments had sequence number zero, so the next truncation dropped
entries that were not in any table yet.
---
 dkv/wal/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dkv/wal/writer.go b/dkv/wal/writer.go
index 8656180..ccf2b06 100644
--- a/dkv/wal/writer.go
+++ b/dkv/wal/writer.go
@@ -92,9 +92,9 @@ func (w *Writer) Rotate(fs storage.FileSystem) *Writer {
 
 	// Include all data from previous buffers
 	for i, b := range w.sealedBuffers {
-		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf}
+		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf, latestSeqNum: b.latestSeqNum}
 	}
-	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf}
+	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf, latestSeqNum: w.latestSeqNum}
 
 	// And initialize a new active buffer
 	nextLog.activeBuffer = &bufferSegment{}
-- 
2.43.0


From f67d447b4c06fee319858f28b25e9298c2e3fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 12/54] fix: memtable reads must prefer the newest table

---
 dkv/memtable/list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dkv/memtable/list.go b/dkv/memtable/list.go
index 4651c6d..016ce1e 100644
--- a/dkv/memtable/list.go
+++ b/dkv/memtable/list.go
@@ -3,6 +3,7 @@ package memtable
 import (
 	"fmt"
 	"iter"
+	"slices"
 	"strings"
 	"sync"
 
@@ -72,7 +73,8 @@ func (l *List) Put(key []byte, value []byte, seqNum uint64) (full bool) {
 }
 
 func (l *List) Get(key []byte) (kv.Entry, error) {
-	for _, t := range l.tablesSnap() {
+	// Search from the newest table to the oldest
+	for _, t := range slices.Backward(l.tablesSnap()) {
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
-- 
2.43.0


From 9b0f8a3c567174cbb8212cad72a0d2c6fd563f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 13/54] fix: deletes in memtables must mask older flushed
 entries in scans

Memtable scans dropped deleted entries before they were merged with older
memtables and tables, so deleted keys reappeared.
---
 dkv/db.go                | 13 ++++++++++++-
 dkv/memtable/memtable.go |  7 ++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index aa86028..40a26c1 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -202,7 +202,18 @@ func (db *DB) Get(key []byte) (kv.Entry, error) {
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	sstables := db.currentSSTables()
 	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
-	return kv.MergeEntries(iters)
+
+	// Return the merged entries without deleted records
+	return func(yield func(kv.Entry) bool) {
+		for entry := range kv.MergeEntries(iters) {
+			if entry.IsDelete() {
+				continue
+			}
+			if !yield(entry) {
+				return
+			}
+		}
+	}
 }
 
 // Checkpoint initiates a DB checkpoint associated with the caller's provided
diff --git a/dkv/memtable/memtable.go b/dkv/memtable/memtable.go
index 4f015d7..1f3dc70 100644
--- a/dkv/memtable/memtable.go
+++ b/dkv/memtable/memtable.go
@@ -55,14 +55,11 @@ func (t *MemTable) Delete(key []byte, seqNum uint64) (full bool) {
 	return t.size > uint64(t.memSize)
 }
 
-// ScanPrefix returns all entries matching the prefix in ascending order. This
-// method transparently omits deleted entries.
+// ScanPrefix returns all entries matching the prefix in ascending order. Deleted
+// entries are included because they mask older entries in other tables.
 func (t *MemTable) ScanPrefix(prefix []byte) iter.Seq[kv.Entry] {
 	return func(yield func(kv.Entry) bool) {
 		for node := range t.zt.AscendPrefix(prefix) {
-			if isDeleteOp(node) {
-				continue
-			}
 			if !yield(newEntryFromNode(node)) {
 				return
 			}
-- 
2.43.0


From 2699e4bb7cdea11b6610a21f391394b45a930770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 14/54] fix: reads must not miss entries that are flushed while
 they run

---
 dkv/db.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 40a26c1..226d248 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -183,25 +183,26 @@ func (db *DB) Delete(key []byte) {
 }
 
 func (db *DB) Get(key []byte) (kv.Entry, error) {
-	sstables := db.currentSSTables()
-
 	// First try to get from the memtables
 	v, err := db.mtables.Get(key)
 	if err == nil {
 		return v, nil
 	}
 
-	// Then try the SSTables
+	// Then try the SSTables. The tables must be obtained after reading the
+	// memtables to find entries that were flushed in the meantime.
 	if err == kv.ErrNotFound {
-		return sstables.Get(key)
+		return db.currentSSTables().Get(key)
 	}
 
 	return nil, err
 }
 
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
+	// Obtain the sstables last so that entries flushed in the meantime aren't missed
+	memIter := db.mtables.ScanPrefix(prefix, errOut)
 	sstables := db.currentSSTables()
-	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
+	iters := []iter.Seq[kv.Entry]{memIter, sstables.ScanPrefix(prefix, errOut)}
 
 	// Return the merged entries without deleted records
 	return func(yield func(kv.Entry) bool) {
-- 
2.43.0


From bdcbb1e71da128fcd989487f6d1811f31c4e0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 15/54] fix: table lookups must return the newest entry for a
 key

Level 0 tables overlap and were searched oldest first.
---
 dkv/sst/level_list.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index 9d5eb7c..0fc4e08 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -81,7 +81,12 @@ func NewLevelListFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwners
 }
 
 func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
+	var newest kv.Entry
 	for t := range ll.AllTablesForKey(key) {
+		// Skip tables that only have older entries
+		if newest != nil && t.endSeqNum <= newest.SeqNum() {
+			continue
+		}
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
@@ -89,9 +94,14 @@ func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
 			}
 			return nil, fmt.Errorf("table %#v, %w", t, err)
 		}
-		return v, nil
+		if newest == nil || v.SeqNum() > newest.SeqNum() {
+			newest = v
+		}
+	}
+	if newest == nil {
+		return nil, kv.ErrNotFound
 	}
-	return nil, kv.ErrNotFound
+	return newest, nil
 }
 
 func (ll *LevelList) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-- 
2.43.0


From 74686ee8392b487c00cfc2b2e4e0600bba8863f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 16/54] fix: major compaction must not merge newer data beneath
 older tables

---
 dkv/sst/compaction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/compaction.go b/dkv/sst/compaction.go
index 5bfeef4..7a81e6e 100644
--- a/dkv/sst/compaction.go
+++ b/dkv/sst/compaction.go
@@ -53,6 +53,7 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 	// Go through all non-base levels from oldest to newest and pick tables to
 	// merge into base level.
 	var tablesToMerge []*Table
+picking:
 	for level := range levels.AscendLevels(1) {
 		tableIter := slices.SortedFunc(level.AllTables(), OrderOldToNew)
 
@@ -62,7 +63,9 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 			sar = sar.WithCompactedBytes(int64(candidate.Size()))
 			tablesToMerge = append(tablesToMerge, candidate)
 			if sar.Percentage() < c.MaxSizeAmplificationPercent {
-				break
+				// Stop picking altogether: merging tables from newer levels would
+				// put them beneath older entries that stay where they are.
+				break picking
 			}
 		}
 	}
-- 
2.43.0


From c0c28de4ebd9c700afe9e3734703d44b238f08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:59 +0000
Subject: [PATCH 17/54] fix: a reopened database must not overwrite existing
 table files

---
 dkv/db.go               |  5 +++++
 dkv/sst/table_writer.go | 21 ++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 226d248..236c59e 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/segmentio/ksuid"
 	"reduction.dev/reduction/dkv/bg"
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/memtable"
@@ -132,6 +133,10 @@ func (db *DB) Start(initCheckpoints []recovery.CheckpointHandle) error {
 		return nil
 	}
 
+	// The directory may already have tables, which a retained checkpoint needs
+	// or which a previous instance is still going to delete.
+	db.tableWriter.SetInstanceID(ksuid.New().String())
+
 	latestCP := db.checkpoints.Latest()
 	db.sstables = latestCP.Levels
 	db.seqNum = latestCP.Levels.LatestSeqNum
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 62f719f..00458f1 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -18,8 +18,9 @@ const conservativeBytesPerEntry = 500
 
 // Table writer is a factory for creating tables that keeps track of the table ID.
 type TableWriter struct {
-	fs storage.FileSystem
-	id *atomic.Int64
+	fs         storage.FileSystem
+	id         *atomic.Int64
+	instanceID string // Optional part of the file names to tell instances apart
 }
 
 // Create a TableWriter with a given file system and starting table ID.
@@ -29,9 +30,23 @@ func NewTableWriter(fs storage.FileSystem, id int64) *TableWriter {
 	return &TableWriter{fs: fs, id: atomicNum}
 }
 
+// SetInstanceID makes the names of the written files unique to an instance. It's
+// needed when writing to a directory where another instance already wrote
+// tables. Must be called before the first write.
+func (c *TableWriter) SetInstanceID(id string) {
+	c.instanceID = id
+}
+
+func (c *TableWriter) fileName(num int64) string {
+	if c.instanceID == "" {
+		return fmt.Sprintf("%06d.sst", num)
+	}
+	return fmt.Sprintf("%06d-%s.sst", num, c.instanceID)
+}
+
 func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
-	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
+	f := c.fs.New(c.fileName(reservedNum))
 
 	table := NewTable(f)
 	for e := range entries {
-- 
2.43.0


From e0f7977961327bd9216c3e70d38b13e6a06e1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 18/54] fix: concurrent checkpoints and retention updates must
 not lose checkpoints

---
 dkv/db.go                       |  3 +-
 dkv/recovery/checkpoint.go      | 12 ++++++-
 dkv/recovery/checkpoint_list.go | 60 ++++++++++++++++++++++++++++-----
 3 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 236c59e..2db3d85 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -229,13 +229,14 @@ func (db *DB) Checkpoint(ckptID uint64) (wait func() (recovery.CheckpointHandle,
 	db.mu.Lock()
 	prevWAL := db.wal
 	db.wal = db.wal.Rotate(db.fs)
-	db.checkpoints.Add(ckptID, db.sstables, prevWAL, db.seqNum)
+	ckpt := db.checkpoints.Add(ckptID, db.sstables, prevWAL, db.seqNum)
 	db.mu.Unlock()
 
 	return bg.Task2(func() (recovery.CheckpointHandle, error) {
 		if err := prevWAL.Save(); err != nil {
 			return recovery.CheckpointHandle{}, err
 		}
+		ckpt.SetWALSaved()
 		uri, err := db.checkpoints.Save(db.fs)
 		if err != nil {
 			return recovery.CheckpointHandle{}, err
diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 75981c5..02fa024 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -2,6 +2,7 @@ package recovery
 
 import (
 	"iter"
+	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -22,6 +23,8 @@ type Checkpoint struct {
 	tableURIset map[string]struct{}
 	// The last sequence number written as of this checkpoint
 	LastSeqNum uint64
+	// Whether the WAL files are in storage
+	walSaved atomic.Bool
 }
 
 func newCheckpointFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership, doc checkpointDocument) *Checkpoint {
@@ -42,13 +45,20 @@ func newCheckpointFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwner
 		}
 	}
 
-	return &Checkpoint{
+	cp := &Checkpoint{
 		ID:          uint64(doc.ID),
 		WALs:        walHandles,
 		Levels:      sst.NewLevelListFromDocument(fs, dataOwnership, doc.Levels),
 		tableURIset: tableURISet,
 		LastSeqNum:  doc.LastSeqNum,
 	}
+	cp.SetWALSaved()
+	return cp
+}
+
+// SetWALSaved records that the checkpoint's WAL files are in storage.
+func (cp *Checkpoint) SetWALSaved() {
+	cp.walSaved.Store(true)
 }
 
 func (cp *Checkpoint) Destroy() error {
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index eba92ae..39a4ed0 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"sync"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -19,6 +20,8 @@ const checkpointsFileName = "checkpoints"
 type CheckpointList struct {
 	checkpoints               []*Checkpoint
 	checkpointsPendingRemoval []*Checkpoint // Track removed checkpoints so they can be destroyed on Save
+	mu                        sync.Mutex    // Protects the lists of checkpoints
+	saveMu                    sync.Mutex    // Keeps an older list from replacing a newer one in storage
 }
 
 func NewCheckpointList() *CheckpointList {
@@ -33,17 +36,41 @@ type CheckpointHandle struct {
 
 // Add creates a new checkpoint, taking ownership of the LevelList reference.
 // Checkpoint is responsible for the LevelList and WAL cleanup when destroyed.
-func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) {
+//
+// The checkpoint is kept at least until its WAL is saved, which the caller
+// reports with SetWALSaved.
+func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) *Checkpoint {
 	cp := &Checkpoint{
 		ID:         ckptID,
 		Levels:     ll,
 		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
 		LastSeqNum: lastSeqNum,
 	}
+
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	cl.checkpoints = append(cl.checkpoints, cp)
+	return cp
 }
 
-func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
+func (cl *CheckpointList) Save(fs storage.FileSystem) (uri string, err error) {
+	cl.saveMu.Lock()
+	defer cl.saveMu.Unlock()
+
+	// The checkpoints which aren't referenced by the saved list
+	cl.mu.Lock()
+	pendingRemoval := cl.checkpointsPendingRemoval
+	cl.checkpointsPendingRemoval = nil
+
+	// Keep checkpoints pending until they are destroyed
+	defer func() {
+		if len(pendingRemoval) > 0 {
+			cl.mu.Lock()
+			defer cl.mu.Unlock()
+			cl.checkpointsPendingRemoval = append(pendingRemoval, cl.checkpointsPendingRemoval...)
+		}
+	}()
+
 	// Collect a list of checkpoint docs for serialization
 	checkpointDocs := make([]checkpointDocument, len(cl.checkpoints))
 	for i, ckpt := range cl.checkpoints {
@@ -52,6 +79,7 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	doc := checkpointListDocument{
 		Checkpoints: checkpointDocs,
 	}
+	cl.mu.Unlock()
 
 	// Serialize the checkpoint list document
 	data, err := json.Marshal(doc)
@@ -69,33 +97,47 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	}
 
 	// Call cp.Destroy() to delete WAL files
-	for _, cp := range cl.checkpointsPendingRemoval {
-		if err := cp.Destroy(); err != nil {
+	for len(pendingRemoval) > 0 {
+		if err := pendingRemoval[0].Destroy(); err != nil {
 			return "", err
 		}
+		pendingRemoval = pendingRemoval[1:]
 	}
 
-	// Clear the list of pending checkpoints
-	cl.checkpointsPendingRemoval = nil
-
 	return file.URI(), nil
 }
 
 func (cl *CheckpointList) IsEmpty() bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return len(cl.checkpoints) == 0
 }
 
 func (cl *CheckpointList) Latest() *Checkpoint {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
 // RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
 // aren't really removed until the next successful Save.
+//
+// Checkpoints that are newer than all the specified IDs are kept because the
+// caller may not know about their completion yet, and so are checkpoints whose
+// WAL is still being saved.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
+
+	var newestID uint64
+	for _, id := range ids {
+		newestID = max(newestID, id)
+	}
+
 	idsSet := ds.SetOf(ids...)
 	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
 	for _, cp := range cl.checkpoints {
-		if idsSet.Has(cp.ID) {
+		if idsSet.Has(cp.ID) || cp.ID > newestID || !cp.walSaved.Load() {
 			nextCheckpoints = append(nextCheckpoints, cp)
 		} else {
 			cl.checkpointsPendingRemoval = append(cl.checkpointsPendingRemoval, cp)
@@ -109,6 +151,8 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	for _, cp := range cl.checkpoints {
 		if cp.IncludesTable(uri) {
 			return true
-- 
2.43.0


From 42800dc295b3d4ac1e6397ad3033150b952c19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 19/54] fix: a checkpoint merged from several instances must be
 searchable and serializable

---
 dkv/recovery/checkpoint.go      |  8 +++---
 dkv/recovery/checkpoint_list.go | 47 ++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 02fa024..d9cb9d4 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -72,16 +72,14 @@ func (cp *Checkpoint) Destroy() error {
 }
 
 func (cp *Checkpoint) Document() checkpointDocument {
-	if len(cp.WALs) > 1 {
-		panic("should not serialize a checkpoint with multiple WALs")
-	}
 	doc := checkpointDocument{
 		ID:         cp.ID,
 		Levels:     cp.Levels.Document(),
 		LastSeqNum: cp.LastSeqNum,
 	}
-	if len(cp.WALs) == 1 {
-		doc.WALs = []wal.HandleDocument{cp.WALs[0].Document()}
+	// A checkpoint that was merged from several instances has many WALs
+	for _, w := range cp.WALs {
+		doc.WALs = append(doc.WALs, w.Document())
 	}
 
 	return doc
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 39a4ed0..2f5f3d8 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -202,21 +202,48 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 		checkpointDocs[i] = doc.Checkpoints[ckptIndex]
 	}
 
-	// Merge the checkpoint documents into the first
-	compositeCheckpointDoc, rest := checkpointDocs[0], checkpointDocs[1:]
-	for _, doc := range rest {
-		// Merge WAL handles
-		compositeCheckpointDoc.WALs = append(compositeCheckpointDoc.WALs, doc.WALs...)
+	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, mergeCheckpointDocuments(checkpointDocs))
 
-		// Merge level list
+	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
+}
+
+// mergeCheckpointDocuments combines the documents of the DKV instances which
+// took part in the same checkpoint.
+func mergeCheckpointDocuments(docs []checkpointDocument) checkpointDocument {
+	if len(docs) == 1 {
+		return docs[0]
+	}
+
+	merged := checkpointDocument{ID: docs[0].ID}
+	walURIs := make(map[string]struct{})
+	tableURIs := make(map[string]struct{})
+	for _, doc := range docs {
+		merged.LastSeqNum = max(merged.LastSeqNum, doc.LastSeqNum)
+
+		// Instances restored from the same checkpoint may share files
+		for _, walDoc := range doc.WALs {
+			if _, ok := walURIs[walDoc.URI]; !ok {
+				walURIs[walDoc.URI] = struct{}{}
+				merged.WALs = append(merged.WALs, walDoc)
+			}
+		}
+
+		// The key ranges of tables from different instances may overlap, which
+		// is only allowed in L0.
 		for levelIndex, level := range doc.Levels {
-			compositeCheckpointDoc.Levels[levelIndex] = append(compositeCheckpointDoc.Levels[levelIndex], level...)
+			if levelIndex >= len(merged.Levels) {
+				merged.Levels = append(merged.Levels, []sst.TableDocument{})
+			}
+			for _, tableDoc := range level {
+				if _, ok := tableURIs[tableDoc.URI]; !ok {
+					tableURIs[tableDoc.URI] = struct{}{}
+					merged.Levels[0] = append(merged.Levels[0], tableDoc)
+				}
+			}
 		}
 	}
 
-	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, compositeCheckpointDoc)
-
-	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
+	return merged
 }
 
 // Example format:
-- 
2.43.0


From 9dd71c9a8bd2dc6d0219714e0693776194c10adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 20/54] fix: deleting a WAL that another instance already
 deleted must not fail checkpoints

---
 dkv/storage/local_filesystem.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dkv/storage/local_filesystem.go b/dkv/storage/local_filesystem.go
index a1a70ba..e1ff8b0 100644
--- a/dkv/storage/local_filesystem.go
+++ b/dkv/storage/local_filesystem.go
@@ -181,7 +181,7 @@ func (d *DiskFile) Delete() error {
 		panic("tried to delete a file being written")
 	}
 
-	return os.Remove(filepath.Join(d.dir, d.name))
+	return removeFile(filepath.Join(d.dir, d.name))
 }
 
 func (d *DiskFile) Size() int64 {
@@ -204,8 +204,17 @@ func (d *DiskFile) URI() string {
 func (d *DiskFile) CreateDeleteFunc() func() error {
 	uri := d.URI()
 	return func() error {
-		return os.Remove(uri)
+		return removeFile(uri)
 	}
 }
 
+// Like with the other filesystems, it's not an error when there is no file
+// because several DKV instances may delete a file that they shared.
+func removeFile(path string) error {
+	if err := os.Remove(path); err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
 var _ File = (*DiskFile)(nil)
-- 
2.43.0


From 04c63aca0f40e7a79899042398daf8dcb42f1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 21/54] fix: dropping a database must not delete the files of
 its checkpoints

---
 dkv/db.go               | 19 ++++++++++++++++++-
 dkv/sst/table.go        | 14 +++++++++++++-
 dkv/sst/table_writer.go |  4 +++-
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 2db3d85..ec97495 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -6,6 +6,7 @@ import (
 	"log/slog"
 	"strings"
 	"sync"
+	"weak"
 
 	"github.com/segmentio/ksuid"
 	"reduction.dev/reduction/dkv/bg"
@@ -119,9 +120,25 @@ func New(options DBOptions) *DB {
 	return db
 }
 
+// liveDataOwnership is the data ownership of a DB for as long as it's in use.
+// When a DB is garbage collected along with its tables there can be another
+// instance or a retained checkpoint which needs the table files.
+type liveDataOwnership struct {
+	kv.DataOwnership
+	db weak.Pointer[DB]
+}
+
+func (o liveDataOwnership) ExclusivelyOwnsTable(uri string, startKey, endKey []byte) (bool, error) {
+	if o.db.Value() == nil {
+		return false, nil
+	}
+	return o.DataOwnership.ExclusivelyOwnsTable(uri, startKey, endKey)
+}
+
 // Prepare the database. This loads the WAL entries into the memtable.
 func (db *DB) Start(initCheckpoints []recovery.CheckpointHandle) error {
-	checkpoints, err := recovery.LoadCheckpointList(db.fs, db.dataOwnership, initCheckpoints)
+	ownership := liveDataOwnership{db.dataOwnership, weak.Make(db)}
+	checkpoints, err := recovery.LoadCheckpointList(db.fs, ownership, initCheckpoints)
 	if err != nil {
 		return fmt.Errorf("read checkpoint: %v", err)
 	}
diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index db220e5..31099a9 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -47,8 +47,15 @@ type Table struct {
 	metadataMu     sync.Mutex // Protects metadataLoaded field and loadFooter calls
 }
 
-// NewTable initializes a new, empty table
+// NewTable initializes a new, empty table. The file is deleted when the table
+// is garbage collected.
 func NewTable(file storage.File) *Table {
+	return newTable(file, func() bool { return true })
+}
+
+// newTable initializes a new, empty table. When the table is garbage collected
+// the file is deleted if the owner of the table is still alive.
+func newTable(file storage.File, ownerAlive func() bool) *Table {
 	t := &Table{
 		file:        file,
 		searchIndex: &SearchIndex{},
@@ -57,6 +64,11 @@ func NewTable(file storage.File) *Table {
 	}
 
 	runtime.AddCleanup(t, func(f func() error) {
+		// When the whole database was dropped, as opposed to this table being
+		// dropped by the database, checkpoints may still need the file.
+		if !ownerAlive() {
+			return
+		}
 		if err := f(); err != nil {
 			slog.Error("table cleanup", "err", err)
 		}
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 00458f1..22de5c9 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"slices"
 	"sync/atomic"
+	"weak"
 
 	"reduction.dev/reduction/dkv/fields"
 	"reduction.dev/reduction/dkv/kv"
@@ -48,7 +49,8 @@ func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(c.fileName(reservedNum))
 
-	table := NewTable(f)
+	owner := weak.Make(c)
+	table := newTable(f, func() bool { return owner.Value() != nil })
 	for e := range entries {
 		writeEntry(table, e)
 	}
-- 
2.43.0


From 85fa684fe507529222498354bda88b4f24ec5332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:23 +0000
Subject: [PATCH 22/54] fix: tables shared with neighboring operators must not
 be deleted while needed

---
 dkv/recovery/checkpoint_list.go        | 16 +++++++++----
 dkv/sst/table.go                       |  1 +
 workers/operator/operator_partition.go | 32 +++++++++-----------------
 3 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 2f5f3d8..fd97da2 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -40,11 +40,19 @@ type CheckpointHandle struct {
 // The checkpoint is kept at least until its WAL is saved, which the caller
 // reports with SetWALSaved.
 func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) *Checkpoint {
+	tableURISet := make(map[string]struct{})
+	for level := range ll.DescendLevels() {
+		for t := range level.AllTables() {
+			tableURISet[t.URI()] = struct{}{}
+		}
+	}
+
 	cp := &Checkpoint{
-		ID:         ckptID,
-		Levels:     ll,
-		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
-		LastSeqNum: lastSeqNum,
+		ID:          ckptID,
+		Levels:      ll,
+		WALs:        []wal.Handle{w.Handle(ll.LatestSeqNum)},
+		tableURIset: tableURISet,
+		LastSeqNum:  lastSeqNum,
 	}
 
 	cl.mu.Lock()
diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 31099a9..0265099 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -122,6 +122,7 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		canDelete, err := p.dataOwnership.ExclusivelyOwnsTable(p.uri, p.startKey, p.endKey)
 		if err != nil {
 			slog.Error("failed determining exclusive ownership, not deleting", "err", err, "uri", p.uri)
+			return
 		}
 
 		if canDelete {
diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index 91a04f5..1752787 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -27,12 +27,9 @@ func (o *OperatorPartition) OwnsKey(key []byte) bool {
 }
 
 func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, endKey []byte) (bool, error) {
-	// If this partition owns the entire key range then there's no need to check
-	// other operators.
-	otherRange := partitioning.KeyGroupRangeFromBytes(startKey[:2], endKey[:2])
-	if o.keyGroupRange.Contains(otherRange) {
-		return true, nil
-	}
+	// Always check the other operators. Even when all of the table's keys belong
+	// to this partition, an operator that was restored from the same checkpoint
+	// has the table in its levels and reads it in compactions.
 
 	// Setup context to race the NeedsTable calls.
 	ctx, cancel := context.WithCancel(context.Background())
@@ -46,7 +43,7 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 	results := make(chan result, len(o.neighbors))
 	for _, neighbor := range o.neighbors {
 		go func() {
-			needsTable, err := neighbor.NeedsTable(ctx, uri, startKey, endKey)
+			needsTable, err := neighbor.NeedsTable(ctx, uri)
 			results <- result{needsTable, err}
 			if needsTable {
 				cancel() // Can cancel the other NeedsTable calls
@@ -69,7 +66,12 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 		}
 	}
 
-	return !neighborNeedsTable, err
+	// Without an answer from every neighbor the table may still be needed
+	if err != nil && !neighborNeedsTable {
+		return false, err
+	}
+
+	return !neighborNeedsTable, nil
 }
 
 var _ kv.DataOwnership = &OperatorPartition{}
@@ -79,18 +81,6 @@ type neighborPartition struct {
 	operator      proto.Operator
 }
 
-func (o *neighborPartition) NeedsTable(ctx context.Context, filePath string, startKey []byte, endKey []byte) (bool, error) {
-	// Derive the key group range from the start and end keys of a table.
-	tableKeyGroupRange := partitioning.KeyGroupRange{
-		Start: int(partitioning.KeyGroupFromBytes(startKey[:2])),
-		End:   int(partitioning.KeyGroupFromBytes(endKey[:2])) + 1,
-	}
-
-	// If the neighboring operator's key group range doesn't intersect with the
-	// table's key range then we don't need to ask if it needs the table.
-	if !o.keyGroupRange.Overlaps(tableKeyGroupRange) {
-		return false, nil
-	}
-
+func (o *neighborPartition) NeedsTable(ctx context.Context, filePath string) (bool, error) {
 	return o.operator.NeedsTable(ctx, filePath)
 }
-- 
2.43.0


From 5bcb0a5f4c5f207efaf4f52d2fadc5937474aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 23/54] fix: redeployed operators must not overwrite the files
 of earlier deployments

---
 workers/operator/operator.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 835de06..3fa1749 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -201,8 +201,10 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.status.LoadingStarted()
 	dkvOpenStart := time.Now()
 
-	// Initialize the DKV filesystem using the ID for a prefix
-	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id))
+	// Initialize the DKV filesystem using the ID for a prefix. Every deployment
+	// gets its own directory because the files of earlier deployments may belong
+	// to a retained checkpoint.
+	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id, ksuid.New().String()))
 	if err != nil {
 		return fmt.Errorf("creating filesystem: %w", err)
 	}
@@ -232,6 +234,13 @@ func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.Up
 }
 
 func (o *Operator) HandleNeedsTable(fileURI string) bool {
+	o.mu.RLock()
+	defer o.mu.RUnlock()
+
+	// An operator which isn't deployed yet can't rule out that it will need the table
+	if o.db == nil {
+		return true
+	}
 	return o.db.NeedsTable(fileURI)
 }
 
-- 
2.43.0


From 5bbbcc6b3926c94b987d4d0d6830e8533104670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 24/54] fix: AssignRanges must not depend on the order of the
 checkpointed ranges

---
 partitioning/key_space.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/partitioning/key_space.go b/partitioning/key_space.go
index 93c79c5..68c4353 100644
--- a/partitioning/key_space.go
+++ b/partitioning/key_space.go
@@ -92,21 +92,14 @@ func keyGroupRanges(keyGroupCount, rangeCount int) []KeyGroupRange {
 
 // Return a slice where each slice index corresponds to an item in `to` where
 // the value is a list of KegGroup indices assigned from the `from`
-// KeyGroupRanges.
+// KeyGroupRanges. Neither list needs to be ordered.
 func AssignRanges(to []KeyGroupRange, from []KeyGroupRange) [][]int {
 	assignments := make([][]int, len(to))
-	fromIdx := 0
 	for toIdx, toRange := range to {
-		// Advance fromIdx to the first possible overlap
-		for fromIdx < len(from) && from[fromIdx].End <= toRange.Start {
-			fromIdx++
-		}
-		j := fromIdx
-		for j < len(from) && from[j].Start < toRange.End {
-			if toRange.Overlaps(from[j]) {
-				assignments[toIdx] = append(assignments[toIdx], j)
+		for fromIdx, fromRange := range from {
+			if toRange.Overlaps(fromRange) {
+				assignments[toIdx] = append(assignments[toIdx], fromIdx)
 			}
-			j++
 		}
 	}
 	return assignments
-- 
2.43.0


From 90d7e4531d5e12ff430fe1bd3ffc13e12c577d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 25/54] fix: timers evicted from or not fitting the cache must
 still fire, in order

---
 util/ds/sorted_cache.go         |  4 ++++
 workers/operator/timer_store.go | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index 719378e..5f961bb 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -49,6 +49,10 @@ func (s *SortedCache) Peek() (min []byte, ok bool) {
 	return s.tree.Min()
 }
 
+func (s *SortedCache) PeekLast() (max []byte, ok bool) {
+	return s.tree.Max()
+}
+
 func (s *SortedCache) Delete(key []byte) {
 	deleted, ok := s.tree.Delete(key)
 	if ok {
diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 3f2ab50..cc1fee6 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -145,6 +145,15 @@ func (pq *KeyGroupPriorityQueue) Pop() ([]byte, bool) {
 
 func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 	pq.loadFromDB()
+	pq.db.Put(data, nil) // write-through cache to db
+
+	// When some items are only in the DB, an item past the end of the cache may
+	// sort after them and has to wait for the next load.
+	if !pq.allDataInCache {
+		if last, ok := pq.cache.PeekLast(); !ok || bytes.Compare(data, last) > 0 {
+			return
+		}
+	}
 	pq.cache.Push(data)
 
 	// If pushing the item exceeded the cache capacity, evict items until we're back under the limit
@@ -152,8 +161,6 @@ func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 		pq.cache.PopLast()
 		pq.allDataInCache = false // evicted item is now only in the DB
 	}
-
-	pq.db.Put(data, nil) // write-through cache to db
 }
 
 func (pq *KeyGroupPriorityQueue) AssignIndex(i int) {
@@ -187,16 +194,18 @@ func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	prefix[2] = 0x01 // Schema byte
 
 	var err error
+	loadedAll := true
 	for entry := range pq.db.ScanPrefix(prefix, &err) {
 		pq.cache.Push(entry.Key())
 		if pq.cache.IsFull() {
+			loadedAll = false // there may be more items in the DB
 			break
 		}
 	}
 	if err != nil {
 		panic(err)
 	}
-	pq.allDataInCache = true
+	pq.allDataInCache = loadedAll
 }
 
 var _ ds.QueuePartition[[]byte] = &KeyGroupPriorityQueue{}
-- 
2.43.0


From 14604a347d2c7cab3e5b0d2bf79f9104af21c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 26/54] fix: the operator watermark must start at the epoch

---
 workers/operator/timer_registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/workers/operator/timer_registry.go b/workers/operator/timer_registry.go
index 3f42798..633660e 100644
--- a/workers/operator/timer_registry.go
+++ b/workers/operator/timer_registry.go
@@ -32,6 +32,7 @@ func NewTimerRegistry(store *TimerStore, srIDs []string) *TimerRegistry {
 
 	return &TimerRegistry{
 		upstreams: upstreams,
+		watermark: time.Unix(0, 0), // Upstreams which haven't reported count as the epoch
 		store:     store,
 	}
 }
-- 
2.43.0


From a0e0b6612e6e446b1115428b2b5e69d684b7fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 27/54] fix: timers before the epoch must sort before later
 timers

---
 util/binu/binu.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/binu/binu.go b/util/binu/binu.go
index 3e41efd..dc13ebb 100644
--- a/util/binu/binu.go
+++ b/util/binu/binu.go
@@ -21,13 +21,15 @@ func IntBytes(num uint64) []byte {
 	return buf
 }
 
+// PutTimeBytes writes 8 bytes which sort in the order of the encoded times. The
+// sign bit is flipped so that times before the epoch sort first.
 func PutTimeBytes(b []byte, t time.Time) int {
-	binary.BigEndian.PutUint64(b, uint64(t.UnixNano()))
+	binary.BigEndian.PutUint64(b, uint64(t.UnixNano())^(1<<63))
 	return 8
 }
 
 func TimeFromBytes(b []byte) time.Time {
-	nanoSeconds := binary.BigEndian.Uint64(b)
+	nanoSeconds := binary.BigEndian.Uint64(b) ^ (1 << 63)
 	return time.Unix(0, int64(nanoSeconds))
 }
 
-- 
2.43.0


From 3946aff14e6df6ce4dc1d329c04863e459fe813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 28/54] fix: namespaces longer than 255 bytes must not collide
 with other state entries

---
 workers/operator/keyed_state_store.go | 33 ++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/workers/operator/keyed_state_store.go b/workers/operator/keyed_state_store.go
index b2c6c54..5920528 100644
--- a/workers/operator/keyed_state_store.go
+++ b/workers/operator/keyed_state_store.go
@@ -23,6 +23,10 @@ func NewKeyedStateStore(db *dkv.DB, keySpace *partitioning.KeySpace) *KeyedState
 	return &KeyedStateStore{db: db, keySpace: keySpace}
 }
 
+// longNamespace is the namespace length byte of namespaces whose length doesn't
+// fit in one byte.
+const longNamespace = 255
+
 // GetState gets all the state entries for a given subject key.
 func (s *KeyedStateStore) GetState(key []byte) ([]*handlerpb.StateEntryNamespace, error) {
 	var ret []*handlerpb.StateEntryNamespace
@@ -76,8 +80,14 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 // Schema is 0x00, subject-key and namespace are length encoded and data is the
 // data bytes as-is.
 func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data []byte) []byte {
-	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + 1 namespace length byte + namespace + data
-	buf := make([]byte, 2+1+4+len(subjectKey)+1+len(namespace)+len(data))
+	// A namespace length byte of 255 is followed by 4 bytes with the actual length
+	namespaceLenSize := 1
+	if len(namespace) >= longNamespace {
+		namespaceLenSize = 5
+	}
+
+	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + namespace length bytes + namespace + data
+	buf := make([]byte, 2+1+4+len(subjectKey)+namespaceLenSize+len(namespace)+len(data))
 	offset := 0
 
 	// Key group prefix
@@ -97,8 +107,13 @@ func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data
 	offset += copy(buf[offset:], subjectKey)
 
 	// Namespace length
-	buf[offset] = uint8(len(namespace))
-	offset += 1
+	if len(namespace) >= longNamespace {
+		buf[offset] = longNamespace
+		binary.BigEndian.PutUint32(buf[offset+1:], uint32(len(namespace)))
+	} else {
+		buf[offset] = uint8(len(namespace))
+	}
+	offset += namespaceLenSize
 
 	// Namespace content
 	offset += copy(buf[offset:], namespace)
@@ -139,10 +154,16 @@ func (s *KeyedStateStore) decodeKey(compositeKey []byte) (namespace, data []byte
 	}
 
 	// Read the namespace value
-	var namespaceLen uint8
-	if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+	var shortLen uint8
+	if err := binary.Read(r, binary.BigEndian, &shortLen); err != nil {
 		panic(err)
 	}
+	namespaceLen := uint32(shortLen)
+	if shortLen == longNamespace {
+		if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+			panic(err)
+		}
+	}
 	namespace = make([]byte, namespaceLen)
 	if err := binary.Read(r, binary.BigEndian, &namespace); err != nil {
 		panic(err)
-- 
2.43.0


From 1d3374dedf40200d0714da08a3bb44cf10cce59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 29/54] fix: a checkpoint must not complete when flushing the
 pending events failed

---
 workers/operator/operator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 3fa1749..801b8a8 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -352,7 +352,10 @@ func (o *Operator) handleCheckpointBarrier(ctx context.Context, senderID string,
 	}
 
 	if o.checkpoint.hasAllBarriers() {
-		o.processEventBatch(ctx, batching.CurrentBatch) // Must flush any pending events before checkpointing
+		// Must flush any pending events before checkpointing
+		if err := o.processEventBatch(ctx, batching.CurrentBatch); err != nil {
+			return err
+		}
 		cp, err := o.db.Checkpoint(o.checkpoint.checkpointID)()
 		if err != nil {
 			return err
-- 
2.43.0


From d8d313c489aeae37bd406045adcf942f5e8bc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 30/54] fix: a redeployed operator must drop the events and
 barriers of its earlier deployment

---
 workers/operator/checkpoint.go | 10 ++++++++
 workers/operator/operator.go   | 46 +++++++++++++++++++++++++++++-----
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/workers/operator/checkpoint.go b/workers/operator/checkpoint.go
index ec58ef9..94b3488 100644
--- a/workers/operator/checkpoint.go
+++ b/workers/operator/checkpoint.go
@@ -25,6 +25,9 @@ func (c *checkpoint) registerBarrier(senderID string, barrier *workerpb.Checkpoi
 	if barrier.CheckpointId != c.checkpointID {
 		return fmt.Errorf("checkpoint ID mismatch, had %d got %d", c.checkpointID, barrier.CheckpointId)
 	}
+	if _, ok := c.srIDs[senderID]; !ok {
+		return fmt.Errorf("unexpected barrier for checkpoint %d from %s", c.checkpointID, senderID)
+	}
 	delete(c.srIDs, senderID)
 	if len(c.srIDs) == 0 {
 		close(c.allBarriersReceived)
@@ -32,6 +35,13 @@ func (c *checkpoint) registerBarrier(senderID string, barrier *workerpb.Checkpoi
 	return nil
 }
 
+// cancel releases the senders which wait for the remaining barriers.
+func (c *checkpoint) cancel() {
+	if c != nil && !c.hasAllBarriers() {
+		close(c.allBarriersReceived)
+	}
+}
+
 func (c *checkpoint) hasAllBarriers() bool {
 	return len(c.srIDs) == 0
 }
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 801b8a8..e21e5cd 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -55,6 +55,13 @@ type Operator struct {
 	sourceRunners  *upstreams
 
 	checkpoint *checkpoint
+
+	// Held while processing an event and while a deployment replaces the members
+	// that event processing uses.
+	processMu sync.Mutex
+
+	// Incremented for each deployment to detect events received by an earlier one
+	deployment uint64
 }
 
 // Events bound for the user's handler
@@ -156,6 +163,8 @@ func (o *Operator) Halt() {
 }
 
 func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperatorRequest, sink connectors.SinkWriter) error {
+	o.processMu.Lock()
+	defer o.processMu.Unlock()
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
@@ -164,6 +173,15 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		"keyGroupCount", req.KeyGroupCount,
 		"checkpoints", req.Checkpoints)
 
+	// Drop everything that belongs to an earlier deployment. Its unflushed events
+	// and its unfinished checkpoint must not become part of this one.
+	o.deployment++
+	if o.eventBatcher != nil {
+		o.eventBatcher.Flush(batching.CurrentBatch)
+	}
+	o.checkpoint.cancel()
+	o.checkpoint = nil
+
 	// Locate own index by in the list of provided operator IDs
 	ownIndex := slices.IndexFunc(req.Operators, func(op *jobpb.NodeIdentity) bool {
 		return op.Id == o.id
@@ -245,7 +263,9 @@ func (o *Operator) HandleNeedsTable(fileURI string) bool {
 }
 
 func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *workerpb.Event) error {
+	o.mu.RLock()
 	if !o.status.IsReady() {
+		o.mu.RUnlock()
 		err := fmt.Errorf("operator not ready to handle events (status: %s)", o.status)
 		o.Logger.Debug("HandleEvent", "sender", senderID, "event", req.Event, "status", o.status, "err", err)
 		return connect.NewError(connect.CodeUnavailable, err)
@@ -254,29 +274,38 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 	o.Logger.Debug("handling", "sender", senderID, "event", req.Event)
 
 	// Block the sender to align checkpoint barriers if needed
-	o.mu.RLock()
+	deployment := o.deployment
 	waitOnAlignment := o.checkpoint.alignSender(senderID)
 	o.mu.RUnlock()
 	waitOnAlignment()
 
 	// Collect the err response from the queued event.
 	respErr := make(chan error)
+
+	// Don't apply events of an earlier deployment to the state of the current one.
+	inDeployment := func(handle func() error) error {
+		if o.deployment != deployment {
+			return connect.NewError(connect.CodeAborted, fmt.Errorf("operator was redeployed"))
+		}
+		return handle()
+	}
+
 	switch typedEvent := req.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
 		o.events <- func() {
-			respErr <- o.handleUserEvent(ctx, typedEvent.KeyedEvent)
+			respErr <- inDeployment(func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) })
 		}
 	case *workerpb.Event_Watermark:
 		o.events <- func() {
-			respErr <- o.handleWatermark(ctx, senderID, typedEvent.Watermark)
+			respErr <- inDeployment(func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) })
 		}
 	case *workerpb.Event_CheckpointBarrier:
 		o.events <- func() {
-			respErr <- o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier)
+			respErr <- inDeployment(func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) })
 		}
 	case *workerpb.Event_SourceComplete:
 		o.events <- func() {
-			respErr <- o.handleSourceComplete(senderID)
+			respErr <- inDeployment(func() error { return o.handleSourceComplete(senderID) })
 		}
 	default:
 		return fmt.Errorf("unknown event to handle %v", typedEvent)
@@ -293,12 +322,17 @@ func (o *Operator) processEvents(ctx context.Context) error {
 			if !ok {
 				return nil
 			}
+			o.processMu.Lock()
 			event()
+			o.processMu.Unlock()
 		case batchToken, ok := <-o.eventBatcher.BatchTimedOut:
 			if !ok {
 				return nil
 			}
-			if err := o.processEventBatch(ctx, batchToken); err != nil {
+			o.processMu.Lock()
+			err := o.processEventBatch(ctx, batchToken)
+			o.processMu.Unlock()
+			if err != nil {
 				return err
 			}
 		case <-ctx.Done():
-- 
2.43.0


From 7b40795fe83553a93c8273b82c820e167d21783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 31/54] fix: an operator which lost the events of a failed
 batch must not checkpoint

---
 workers/operator/operator.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index e21e5cd..23b880c 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -62,6 +62,10 @@ type Operator struct {
 
 	// Incremented for each deployment to detect events received by an earlier one
 	deployment uint64
+
+	// Set when the events of a batch were lost because processing it failed. No
+	// event is accepted afterward, until the operator is deployed again.
+	batchErr error
 }
 
 // Events bound for the user's handler
@@ -176,6 +180,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	// Drop everything that belongs to an earlier deployment. Its unflushed events
 	// and its unfinished checkpoint must not become part of this one.
 	o.deployment++
+	o.batchErr = nil
 	if o.eventBatcher != nil {
 		o.eventBatcher.Flush(batching.CurrentBatch)
 	}
@@ -287,6 +292,9 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 		if o.deployment != deployment {
 			return connect.NewError(connect.CodeAborted, fmt.Errorf("operator was redeployed"))
 		}
+		if o.batchErr != nil {
+			return fmt.Errorf("operator lost events, needs redeploy: %w", o.batchErr)
+		}
 		return handle()
 	}
 
@@ -428,11 +436,12 @@ func (o *Operator) handleSourceComplete(sourceRunnerID string) error {
 	return nil
 }
 
-func (o *Operator) processEventBatch(ctx context.Context, batchToken batching.BatchToken) error {
+func (o *Operator) processEventBatch(ctx context.Context, batchToken batching.BatchToken) (err error) {
 	batchEvents := o.eventBatcher.Flush(batchToken)
 	if len(batchEvents) == 0 {
 		return nil
 	}
+	defer func() { o.batchErr = err }()
 
 	// Create a map to cache KeyStates by key in this batch
 	keyStateMap := make(map[string]*handlerpb.KeyState)
-- 
2.43.0


From cd15897b69fbb34fb9cc744067d37c49c09b1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 32/54] fix: a redeployed source runner must not send what its
 earlier deployment read

---
 workers/sourcerunner/operator_cluster.go |  35 +++--
 workers/sourcerunner/source_runner.go    | 169 +++++++++++++++++------
 2 files changed, 149 insertions(+), 55 deletions(-)

diff --git a/workers/sourcerunner/operator_cluster.go b/workers/sourcerunner/operator_cluster.go
index 6a9df88..ff2a3ac 100644
--- a/workers/sourcerunner/operator_cluster.go
+++ b/workers/sourcerunner/operator_cluster.go
@@ -3,6 +3,7 @@ package sourcerunner
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	gproto "google.golang.org/protobuf/proto"
 	"reduction.dev/reduction/batching"
@@ -22,12 +23,13 @@ type newClusterParams struct {
 	operators      []proto.Operator
 	batchingParams batching.EventBatcherParams
 	errChan        chan<- error
+	loops          *sync.WaitGroup // Tracks the goroutines sending to the operators
 }
 
 func newOperatorCluster(ctx context.Context, params *newClusterParams) *operatorCluster {
 	operators := make([]*batchingOperator, len(params.operators))
 	for i, op := range params.operators {
-		operators[i] = newBatchingOperator(ctx, op, params.batchingParams, params.errChan)
+		operators[i] = newBatchingOperator(ctx, op, params)
 	}
 	return &operatorCluster{
 		keyGroupCount: params.keyGroupCount,
@@ -64,31 +66,35 @@ func (c *operatorCluster) flush() {
 type batchingOperator struct {
 	op      proto.Operator
 	batcher *batching.EventBatcher[*workerpb.Event]
-	errChan chan<- error
+	ctx     context.Context
 	batches chan []*workerpb.Event
 }
 
-func newBatchingOperator(ctx context.Context, op proto.Operator, params batching.EventBatcherParams, errChan chan<- error) *batchingOperator {
+func newBatchingOperator(ctx context.Context, op proto.Operator, params *newClusterParams) *batchingOperator {
 	o := &batchingOperator{
 		op:      op,
-		batcher: batching.NewEventBatcher[*workerpb.Event](ctx, params),
+		batcher: batching.NewEventBatcher[*workerpb.Event](ctx, params.batchingParams),
 		batches: make(chan []*workerpb.Event),
-		errChan: errChan,
+		ctx:     ctx,
 	}
 
+	params.loops.Add(1)
 	go func() {
+		defer params.loops.Done()
 		for {
+			var batch []*workerpb.Event
 			select {
 			case <-ctx.Done():
 				return
 			case batchToken := <-o.batcher.BatchTimedOut:
-				if err := o.op.HandleEventBatch(ctx, o.batcher.Flush(batchToken)); err != nil {
-					o.errChan <- err
-				}
-			case batch := <-o.batches:
-				if err := o.op.HandleEventBatch(ctx, batch); err != nil {
-					o.errChan <- err
-				}
+				batch = o.batcher.Flush(batchToken)
+			case batch = <-o.batches:
+			}
+
+			// Nothing may be sent after a batch that failed
+			if err := o.op.HandleEventBatch(ctx, batch); err != nil {
+				sendErr(ctx, params.errChan, err)
+				return
 			}
 		}
 	}()
@@ -104,5 +110,8 @@ func (o *batchingOperator) HandleEvent(event *workerpb.Event) {
 }
 
 func (o *batchingOperator) Flush() {
-	o.batches <- o.batcher.Flush(batching.CurrentBatch)
+	select {
+	case o.batches <- o.batcher.Flush(batching.CurrentBatch):
+	case <-o.ctx.Done():
+	}
 }
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 6a9b555..c7dffb7 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"math"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -60,6 +61,9 @@ type SourceRunner struct {
 	startSourceChannelCh chan struct{} // signal to start the source channel
 
 	splitsWereAssigned chan []*workerpb.SourceSplit // channel for split assignment requests
+
+	mu    sync.Mutex     // Guards the members which a deployment replaces
+	loops sync.WaitGroup // Goroutines of the current deployment
 }
 
 type NewParams struct {
@@ -87,7 +91,6 @@ func New(params NewParams) *SourceRunner {
 		watermarker:         &wmark.Watermarker{},
 		watermarkTicker:     time.NewTicker(math.MaxInt64), // initialize with ticker that never ticks
 		userHandler:         params.UserHandler,
-		checkpointBarrier:   make(chan *workerpb.CheckpointBarrier, 1),
 		Logger:              log,
 		clock:               params.Clock,
 		stopLoop:            func() {},          // initialize with noop
@@ -96,9 +99,7 @@ func New(params NewParams) *SourceRunner {
 		sourceReaderFactory: params.SourceReaderFactory,
 		errChan:             make(chan error),
 		batchingParams:      params.EventBatching,
-		outputStream:        make(chan *workerpb.Event, 1_000),
 		initDone:            make(chan struct{}),
-		splitsWereAssigned:  make(chan []*workerpb.SourceSplit, 1),
 	}
 
 	if sr.sourceReaderFactory == nil {
@@ -145,15 +146,6 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 		cancel(result)
 	}()
 
-	r.keyEventChannel = batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
-		Batcher: batching.NewEventBatcher[[]byte](ctx, r.batchingParams),
-		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
-			return r.userHandler.KeyEventBatch(ctx, events)
-		},
-		ErrChan:    r.errChan,
-		BufferSize: r.batchingParams.MaxSize,
-	})
-
 	close(r.initDone) // Signal that initialization is done
 
 	<-ctx.Done() // Afterward begin shutdown process
@@ -161,8 +153,10 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 	r.Logger.Info("starting shutdown")
 	defer r.Logger.Info("shutdown complete")
 
+	r.mu.Lock()
 	r.stopLoop()
 	r.watermarkTicker.Stop()
+	r.mu.Unlock()
 	r.registerPoller.Stop()
 
 	if !r.isHalting.Load() {
@@ -198,11 +192,33 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 		panic("exactly one source required")
 	}
 
-	r.watermarkTicker = time.NewTicker(time.Millisecond * 200)
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
+	// Stop the loops of an earlier deployment. Nothing they read, and nothing which
+	// was requested from them, may become part of this deployment.
+	r.stopLoop()
+	r.loops.Wait()
+	r.watermarkTicker.Stop()
 
 	deploymentCtx, cancel := context.WithCancel(context.Background())
 	r.stopLoop = cancel
 	r.ctx = deploymentCtx // assign loopCtx to r.ctx for later use
+	errChan := r.deploymentErrChan(deploymentCtx)
+
+	r.watermarker = &wmark.Watermarker{}
+	r.watermarkTicker = time.NewTicker(time.Millisecond * 200)
+	r.checkpointBarrier = make(chan *workerpb.CheckpointBarrier, 1)
+	r.splitsWereAssigned = make(chan []*workerpb.SourceSplit, 1)
+	r.outputStream = make(chan *workerpb.Event, 1_000)
+	r.keyEventChannel = batching.NewReorderFetcher(deploymentCtx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
+		Batcher: batching.NewEventBatcher[[]byte](deploymentCtx, r.batchingParams),
+		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
+			return r.userHandler.KeyEventBatch(ctx, events)
+		},
+		ErrChan:    errChan,
+		BufferSize: r.batchingParams.MaxSize,
+	})
 
 	r.sourceReader = r.sourceReaderFactory(msg.Sources[0])
 	r.sourceChannel = connectors.NewReadSourceChannel(r.sourceReader)
@@ -211,23 +227,32 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	for i, op := range msg.Operators {
 		ops[i] = r.operatorFactory(r.ID, op)
 	}
-	r.operators = newOperatorCluster(r.ctx, &newClusterParams{
+	r.operators = newOperatorCluster(deploymentCtx, &newClusterParams{
 		keyGroupCount:  int(msg.KeyGroupCount),
 		operators:      ops,
 		batchingParams: r.batchingParams,
-		errChan:        r.errChan,
+		errChan:        errChan,
+		loops:          &r.loops,
 	})
 
+	r.loops.Add(2)
 	go func() {
-		if err := r.processEvents(r.ctx); err != nil {
+		defer r.loops.Done()
+		if err := r.processEvents(deploymentCtx); err != nil {
 			r.Logger.Error("processEvents stopped with error", "err", err)
+			sendErr(deploymentCtx, errChan, err)
 		}
-		cancel()
 	}()
 	go func() {
-		for opEvent := range r.outputStream {
-			if err := r.sendOperatorEvent(opEvent); err != nil {
-				r.errChan <- err
+		defer r.loops.Done()
+		for {
+			select {
+			case <-deploymentCtx.Done():
+				return
+			case opEvent := <-r.outputStream:
+				if err := r.sendOperatorEvent(deploymentCtx, opEvent); err != nil {
+					sendErr(deploymentCtx, errChan, err)
+				}
 			}
 		}
 	}()
@@ -235,7 +260,43 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	return nil
 }
 
+// deploymentErrChan forwards errors to the source runner until the deployment
+// is stopped. Stopping a deployment isn't an error of the source runner.
+func (r *SourceRunner) deploymentErrChan(ctx context.Context) chan error {
+	errChan := make(chan error)
+	r.loops.Add(1)
+	go func() {
+		defer r.loops.Done()
+		for {
+			select {
+			case <-ctx.Done():
+				return
+			case err := <-errChan:
+				if ctx.Err() == nil {
+					sendErr(ctx, r.errChan, err)
+				}
+			}
+		}
+	}()
+	return errChan
+}
+
+func sendErr(ctx context.Context, errChan chan<- error, err error) {
+	select {
+	case errChan <- err:
+	case <-ctx.Done():
+	}
+}
+
+func (r *SourceRunner) emit(ctx context.Context, event *workerpb.Event) {
+	select {
+	case r.outputStream <- event:
+	case <-ctx.Done():
+	}
+}
+
 func (r *SourceRunner) processEvents(ctx context.Context) error {
+	sourceChannel := r.sourceChannel.C
 	for {
 		select {
 		case <-ctx.Done():
@@ -246,29 +307,28 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 				return err
 			}
 			if len(splits) > 0 {
-				if r.sourceChannel == nil {
-					return fmt.Errorf("sourceChannel is nil")
-				}
-				r.sourceChannel.Start(r.ctx)
+				r.sourceChannel.Start(ctx)
 			}
 		case <-r.watermarkTicker.C:
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}}
+			r.emit(ctx, &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
 		case barrier := <-r.checkpointBarrier:
-			if err := r.createCheckpoint(barrier.CheckpointId); err != nil {
+			if err := r.createCheckpoint(ctx, barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}}
-		case readFunc, ok := <-r.sourceChannel.C:
+			r.emit(ctx, &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}})
+		case readFunc, ok := <-sourceChannel:
 			if !ok {
 				// Channel closed, Flush events, Send watermark, send source complete event
 				r.keyEventChannel.Flush(ctx)
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{
+				r.emit(ctx, &workerpb.Event{Event: &workerpb.Event_Watermark{
 					Watermark: &workerpb.Watermark{},
-				}}
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_SourceComplete{}}
+				}})
+				r.emit(ctx, &workerpb.Event{Event: &workerpb.Event_SourceComplete{
+					SourceComplete: &workerpb.SourceCompleteEvent{},
+				}})
 
 				// Stop reading from sourceChannel
-				r.sourceChannel = nil
+				sourceChannel = nil
 				continue
 			}
 
@@ -292,14 +352,34 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 }
 
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
-	r.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}
+	deploymentCtx, barriers, _ := r.requestChannels()
+	if deploymentCtx == nil {
+		return
+	}
+	select {
+	case barriers <- &workerpb.CheckpointBarrier{CheckpointId: id}:
+	case <-deploymentCtx.Done():
+	}
+}
+
+// requestChannels returns the context of the current deployment, which is nil
+// before the first one, and the channels for sending it requests.
+func (r *SourceRunner) requestChannels() (context.Context, chan<- *workerpb.CheckpointBarrier, chan<- []*workerpb.SourceSplit) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.ctx, r.checkpointBarrier, r.splitsWereAssigned
 }
 
-func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
+func (r *SourceRunner) sendOperatorEvent(ctx context.Context, event *workerpb.Event) error {
 	switch typedEvent := event.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
 		// Get the async result for this placeholder event
-		asyncResult := <-r.keyEventChannel.Output
+		var asyncResult []*handlerpb.KeyedEvent
+		select {
+		case asyncResult = <-r.keyEventChannel.Output:
+		case <-ctx.Done():
+			return nil
+		}
 		for _, event := range asyncResult {
 			r.watermarker.AdvanceTime(event.Timestamp.AsTime())
 			r.operators.routeEvent(event.Key, &workerpb.Event{
@@ -328,14 +408,14 @@ func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
 func (r *SourceRunner) sendKeyEvent(ctx context.Context, event []byte) {
 	// Put a placeholder on the output stream that will be joined with the async
 	// KeyEvent result.
-	r.outputStream <- &workerpb.Event{Event: &workerpb.Event_KeyedEvent{}}
+	r.emit(ctx, &workerpb.Event{Event: &workerpb.Event_KeyedEvent{}})
 	r.keyEventChannel.Add(ctx, event)
 }
 
 // createCheckpoint gets checkpoint data from the source reader and notifies the job.
-func (r *SourceRunner) createCheckpoint(id uint64) error {
+func (r *SourceRunner) createCheckpoint(ctx context.Context, id uint64) error {
 	data := r.sourceReader.Checkpoint()
-	return r.job.OnSourceRunnerCheckpointComplete(context.Background(), &jobpb.SourceRunnerCheckpointCompleteRequest{
+	return r.job.OnSourceRunnerCheckpointComplete(ctx, &jobpb.SourceRunnerCheckpointCompleteRequest{
 		CheckpointId:   id,
 		SplitStates:    data,
 		SourceRunnerId: r.ID,
@@ -344,9 +424,14 @@ func (r *SourceRunner) createCheckpoint(id uint64) error {
 
 // HandleAssignSplits is invoked to assign new splits and start reading from them.
 func (r *SourceRunner) HandleAssignSplits(splits []*workerpb.SourceSplit) error {
-	if r.sourceReader == nil {
-		return fmt.Errorf("sourceReader is not initialized")
+	deploymentCtx, _, assigned := r.requestChannels()
+	if deploymentCtx == nil {
+		return fmt.Errorf("source runner is not deployed")
+	}
+	select {
+	case assigned <- splits:
+		return nil
+	case <-deploymentCtx.Done():
+		return fmt.Errorf("source runner was stopped: %w", context.Cause(deploymentCtx))
 	}
-	r.splitsWereAssigned <- splits
-	return nil
 }
-- 
2.43.0


From 61a31a462edfa53063b03e38e12a96282d51ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 33/54] fix: operators must not be deployed while source
 runners still send old events

---
 jobs/assembly.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 9d2bcd6..577f7cb 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -78,6 +78,14 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		})
 	}
 
+	// Deploying a source runner stops its previous deployment. Wait for that before
+	// deploying the operators, so that no operator applies an event read by an
+	// earlier deployment to its restored state.
+	if err := eg.Wait(); err != nil {
+		return err
+	}
+	eg, gctx = errgroup.WithContext(context.Background())
+
 	// Create list of ranges from checkpoints
 	ckptRanges := make([]partitioning.KeyGroupRange, len(ckpt.GetOperatorCheckpoints()))
 	for i, opCkpt := range ckpt.GetOperatorCheckpoints() {
-- 
2.43.0


From 853e7b02e932113b19047b2b8257ed1750211434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 34/54] fix: operators must reject events of source runners
 outside of their deployment

---
 workers/operator/operator.go  | 6 ++++++
 workers/operator/upstreams.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 23b880c..d667777 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -276,6 +276,12 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 		return connect.NewError(connect.CodeUnavailable, err)
 	}
 
+	// A source runner which isn't part of this deployment may still be running
+	if !o.sourceRunners.isMember(senderID) {
+		o.mu.RUnlock()
+		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("source runner %s is not an upstream of this operator", senderID))
+	}
+
 	o.Logger.Debug("handling", "sender", senderID, "event", req.Event)
 
 	// Block the sender to align checkpoint barriers if needed
diff --git a/workers/operator/upstreams.go b/workers/operator/upstreams.go
index 6f11c78..6b442c9 100644
--- a/workers/operator/upstreams.go
+++ b/workers/operator/upstreams.go
@@ -22,6 +22,10 @@ func (u *upstreams) deactivate(id string) {
 	u.active = sliceu.Without(u.active, id)
 }
 
+func (u *upstreams) isMember(id string) bool {
+	return slices.Contains(u.all, id)
+}
+
 func (u *upstreams) hasActive() bool {
 	return len(u.active) > 0
 }
-- 
2.43.0


From 17b7f9a5102aecd6592107c5cc3b52f44fb61789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 35/54] fix: events of a canceled request must not be applied

---
 workers/operator/checkpoint.go | 16 +++++++++++-----
 workers/operator/operator.go   | 31 ++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/workers/operator/checkpoint.go b/workers/operator/checkpoint.go
index 94b3488..85547c4 100644
--- a/workers/operator/checkpoint.go
+++ b/workers/operator/checkpoint.go
@@ -1,6 +1,7 @@
 package operator
 
 import (
+	"context"
 	"fmt"
 
 	"reduction.dev/reduction/proto/workerpb"
@@ -48,15 +49,20 @@ func (c *checkpoint) hasAllBarriers() bool {
 
 // alignSender returns a waiter function that will block requests from senders
 // until all barriers have been received.
-func (c *checkpoint) alignSender(senderID string) (wait func()) {
+func (c *checkpoint) alignSender(senderID string) (wait func(context.Context) error) {
 	if c == nil {
-		return func() {} // no-op if there is no checkpoint
+		return func(context.Context) error { return nil } // no-op if there is no checkpoint
 	}
 
 	if _, ok := c.srIDs[senderID]; !ok {
-		return func() {
-			<-c.allBarriersReceived
+		return func(ctx context.Context) error {
+			select {
+			case <-c.allBarriersReceived:
+				return nil
+			case <-ctx.Done():
+				return ctx.Err()
+			}
 		}
 	}
-	return func() {}
+	return func(context.Context) error { return nil }
 }
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index d667777..0a38e6d 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -288,13 +288,19 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 	deployment := o.deployment
 	waitOnAlignment := o.checkpoint.alignSender(senderID)
 	o.mu.RUnlock()
-	waitOnAlignment()
+	if err := waitOnAlignment(ctx); err != nil {
+		return err
+	}
 
 	// Collect the err response from the queued event.
 	respErr := make(chan error)
 
 	// Don't apply events of an earlier deployment to the state of the current one.
+	// A sender which canceled its request may have been redeployed as well.
 	inDeployment := func(handle func() error) error {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 		if o.deployment != deployment {
 			return connect.NewError(connect.CodeAborted, fmt.Errorf("operator was redeployed"))
 		}
@@ -304,27 +310,26 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 		return handle()
 	}
 
+	var handle func() error
 	switch typedEvent := req.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
-		o.events <- func() {
-			respErr <- inDeployment(func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) })
-		}
+		handle = func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) }
 	case *workerpb.Event_Watermark:
-		o.events <- func() {
-			respErr <- inDeployment(func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) })
-		}
+		handle = func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) }
 	case *workerpb.Event_CheckpointBarrier:
-		o.events <- func() {
-			respErr <- inDeployment(func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) })
-		}
+		handle = func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) }
 	case *workerpb.Event_SourceComplete:
-		o.events <- func() {
-			respErr <- inDeployment(func() error { return o.handleSourceComplete(senderID) })
-		}
+		handle = func() error { return o.handleSourceComplete(senderID) }
 	default:
 		return fmt.Errorf("unknown event to handle %v", typedEvent)
 	}
 
+	select {
+	case o.events <- func() { respErr <- inDeployment(handle) }:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+
 	return <-respErr
 }
 
-- 
2.43.0


From 709bedc8c1f8e0bb8c86e54b1ba0db583a69da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 36/54] fix: deploying an operator must not race with starting
 it

---
 workers/operator/operator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 0a38e6d..631291d 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -130,7 +130,9 @@ func (o *Operator) Start(ctx context.Context) error {
 	}, "register")
 	o.registerPoller.Trigger() // Try to register immediately
 
+	o.processMu.Lock()
 	o.eventBatcher = batching.NewEventBatcher[RxnHandlerEvent](ctx, o.eventBatchingParams)
+	o.processMu.Unlock()
 
 	go func() {
 		if err := o.processEvents(ctx); err != nil {
-- 
2.43.0


From 6498c45e007eb34b4fbf13ad837cb6aae2781d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 37/54] fix: a stopped reorder fetcher must not block its
 flushers

---
 batching/reorder_fetcher.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index ce60567..2f19d45 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -86,7 +86,10 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 	go func() {
 		result, err := d.fetchBatch(ctx, events)
 		if err != nil {
-			d.errChan <- err
+			select {
+			case d.errChan <- err:
+			case <-ctx.Done():
+			}
 		}
 		d.buffer.Add(seqNum, fetched[R]{result, err})
 		for resp := range d.buffer.Drain() {
@@ -96,7 +99,13 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 				continue
 			}
 			for _, result := range resp.results {
-				d.Output <- result
+				select {
+				case d.Output <- result:
+				case <-ctx.Done():
+					// Nobody may be receiving anymore, but flushers still wait for
+					// their turn until the buffer is drained.
+					d.failed = true
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 627e616c1acda0b773b7372a77460cc2e1129213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 38/54] fix: a local file must never be seen half written, and
 removal must not stop at a missing file

---
 storage/locations/local_directory.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 83f95ad..fec91dc 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"io/fs"
 	"iter"
+	"math/rand/v2"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -32,27 +33,35 @@ func (d *LocalDirectory) Write(fname string, reader io.Reader) (string, error) {
 		return "", fmt.Errorf("Directory.Write error creating directory %s: %w", d.Path, err)
 	}
 
-	targetFile, err := os.Create(fullPath)
+	// Write to a temporary file first so that an interrupted write never leaves
+	// an incomplete file behind at the path.
+	tmpPath := filepath.Join(destDir, fmt.Sprintf(".%s.%x.tmp", filepath.Base(fullPath), rand.Uint64()))
+	tmpFile, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return "", fmt.Errorf("Directory.Write creating file %s: %w", fullPath, err)
 	}
+	defer os.Remove(tmpPath) // Fails after the rename
 
-	_, err = io.Copy(targetFile, reader)
+	_, err = io.Copy(tmpFile, reader)
 	if err != nil {
+		tmpFile.Close()
 		return "", err
 	}
-	err = targetFile.Close()
+	err = tmpFile.Close()
 	if err != nil {
 		return "", err
 	}
+	if err := os.Rename(tmpPath, fullPath); err != nil {
+		return "", fmt.Errorf("Directory.Write renaming file %s: %w", fullPath, err)
+	}
 
 	for _, s := range d.subscriptions {
 		s <- FileEvent{
-			Path: targetFile.Name(),
+			Path: fullPath,
 			Op:   OpCreate,
 		}
 	}
-	return targetFile.Name(), nil
+	return fullPath, nil
 }
 
 // Read accepts both relative and absolute paths or URIs.
@@ -93,7 +102,7 @@ func (d *LocalDirectory) Remove(paths ...string) error {
 			if errors.As(err, &pathErr) {
 				// Ignore path errors to match how S3 doesn't error if a file
 				// doesn't exist.
-				return nil
+				continue
 			}
 			return fmt.Errorf("removing file %s: %w", fullPath, err)
 		}
-- 
2.43.0


From 52d12c64347f221bb7a0ffe8704fd695da0683e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 39/54] fix: a restarted job must continue from its newest
 checkpoint

---
 storage/snapshots/savepoint_artifact.go |  4 +-
 storage/snapshots/store.go              | 51 ++++++++++++++++---------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index c8fc41c..742f561 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -104,8 +104,8 @@ func parseDKVURI(uri string) (opID, base string, err error) {
 	return opPrefix, baseFileName, nil
 }
 
-// Create a URL safe encoding to create a path segment. Lexicographic order will
-// be descending such that later checkpoints will appear first in a file list.
+// Create a URL safe encoding to create a path segment. The order of the
+// segments in a file list is not the order of the ids.
 func pathSegment(id uint64) string {
 	reversed := math.MaxUint64 - id
 	buf := make([]byte, 8)
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 8759f1c..1fc531e 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -255,6 +255,33 @@ func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 	return nil
 }
 
+// latestSnapshot returns the snapshot with the highest ID in the file store or
+// nil if there is none.
+func (s *Store) latestSnapshot() (*snapshotpb.JobCheckpoint, error) {
+	var latest *snapshotpb.JobCheckpoint
+	for filePath, err := range s.fileStore.List() {
+		if err != nil {
+			return nil, err
+		}
+		if filepath.Ext(filePath) != ".snapshot" {
+			continue
+		}
+		data, err := s.fileStore.Read(filePath)
+		if err != nil {
+			return nil, fmt.Errorf("reading snapshot %s: %w", filePath, err)
+		}
+		snap := &snapshotpb.JobCheckpoint{}
+		if err := proto.Unmarshal(data, snap); err != nil || len(snap.SourceCheckpoints) == 0 {
+			s.log.Warn("ignoring incomplete snapshot", "path", filePath, "err", err)
+			continue
+		}
+		if latest == nil || snap.Id > latest.Id {
+			latest = snap
+		}
+	}
+	return latest, nil
+}
+
 // LoadCheckpoint loads the latest checkpoint from disk and stores it in
 // memory.
 func (s *Store) LoadCheckpoint() error {
@@ -278,28 +305,14 @@ func (s *Store) LoadCheckpoint() error {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
 	} else {
-		// For a new job, check the file store for first (latest) snapshot file.
-		// Checkpoint IDs are encoded so that files will be in reverse chronological
-		// order.
-		var latestCheckpointFile string
-		for filePath, err := range s.fileStore.List() {
-			if err != nil {
-				return err
-			}
-			if filepath.Ext(filePath) == ".snapshot" {
-				latestCheckpointFile = filePath
-				break
-			}
-		}
-
-		if latestCheckpointFile == "" {
-			return nil // No checkpoint to load
-		}
-
-		snap, err := s.SnapshotForURI(latestCheckpointFile)
+		// For a new job, check the file store for the latest snapshot file.
+		snap, err := s.latestSnapshot()
 		if err != nil {
 			return err
 		}
+		if snap == nil {
+			return nil // No checkpoint to load
+		}
 		loadedCheckpoint = snap
 	}
 
-- 
2.43.0


From 11c94923accc65d492bc6870560ccd6539971333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 40/54] fix: a repeated source runner acknowledgement must not
 add its split states twice

---
 storage/snapshots/snapshot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index eedb3fb..30e13c9 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -78,6 +78,7 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 	}
 	if wasCompleted {
 		slog.Warn("received another source runner checkpoint from same id", "id", ckpt.SourceRunnerId)
+		return nil // Already has the source runner's split states
 	}
 
 	s.sourceRunnerIDsComplete[ckpt.SourceRunnerId] = true
-- 
2.43.0


From 71acfa8fca7b0070838039f4e41768fd42353457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 41/54] fix: job checkpoints must be published, and their
 retention announced, in order

---
 storage/snapshots/store.go | 46 +++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 1fc531e..a48c399 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -30,6 +30,16 @@ type Store struct {
 	state                      storeState
 	stateMu                    sync.Mutex
 	sourceSplitters            []connectors.SourceSplitter
+
+	// Closed when the last finished snapshot, and so all before it, are
+	// published. Nil when there's been none.
+	published chan struct{}
+
+	// IDs of the latest retained checkpoints notification which wasn't sent yet.
+	retainedIDs []uint64
+
+	// Whether a goroutine is sending retained checkpoints notifications.
+	notifyingRetained bool
 }
 
 type storeState struct {
@@ -174,9 +184,19 @@ func (s *Store) finishSnapshot(snap *jobSnapshot) {
 	}
 	snap.splitterState = s.sourceSplitters[0].Checkpoint()
 
+	// Publish snapshots in the order they finished
+	prevPublished := s.published
+	published := make(chan struct{})
+	s.published = published
+
 	go func() {
+		if prevPublished != nil {
+			<-prevPublished
+		}
 		uri, err := s.finishSnapshotAsync(snap)
+		close(published)
 		if err != nil {
+			s.log.Error("failed to publish snapshot", "id", snap.id, "err", err)
 			s.errChan <- err
 			return
 		}
@@ -222,9 +242,11 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 
 		// Notify subscribers of new list of checkpoints to retain (just the completed one)
 		if s.retainedCheckpointsUpdated != nil {
-			go func() {
-				s.retainedCheckpointsUpdated <- []uint64{snap.id}
-			}()
+			s.retainedIDs = []uint64{snap.id}
+			if !s.notifyingRetained {
+				s.notifyingRetained = true
+				go s.notifyRetained()
+			}
 		}
 	}
 
@@ -244,6 +266,24 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 	return uri, nil
 }
 
+// notifyRetained sends the retained checkpoint IDs one after another, skipping
+// those that became obsolete before they were sent.
+func (s *Store) notifyRetained() {
+	for {
+		s.stateMu.Lock()
+		ids := s.retainedIDs
+		s.retainedIDs = nil
+		if ids == nil {
+			s.notifyingRetained = false
+			s.stateMu.Unlock()
+			return
+		}
+		s.stateMu.Unlock()
+
+		s.retainedCheckpointsUpdated <- ids
+	}
+}
+
 // CurrentCheckpoint returns the latest checkpoint from memory.
 func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 	s.stateMu.Lock()
-- 
2.43.0


From 50666cb428be2c14da2579eaa3cc0f6560a5dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 42/54] fix: checkpoint ids must keep increasing when starting
 from a savepoint

---
 storage/snapshots/store.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index a48c399..3cb87ea 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -326,6 +326,7 @@ func (s *Store) latestSnapshot() (*snapshotpb.JobCheckpoint, error) {
 // memory.
 func (s *Store) LoadCheckpoint() error {
 	var loadedCheckpoint *snapshotpb.JobCheckpoint
+	var checkpointID uint64 // The highest used ID
 
 	// For now let savepoint always override using local checkpoints. Later will
 	// want to be able to start the job with an out-of-date savepoint to make
@@ -344,6 +345,13 @@ func (s *Store) LoadCheckpoint() error {
 		if err != nil {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
+
+		// There may be newer checkpoints than the savepoint already
+		latest, err := s.latestSnapshot()
+		if err != nil {
+			return err
+		}
+		checkpointID = max(snap.Id, latest.GetId())
 	} else {
 		// For a new job, check the file store for the latest snapshot file.
 		snap, err := s.latestSnapshot()
@@ -354,10 +362,11 @@ func (s *Store) LoadCheckpoint() error {
 			return nil // No checkpoint to load
 		}
 		loadedCheckpoint = snap
+		checkpointID = snap.Id
 	}
 
 	// Set the initial checkpoint ID counter
-	s.state.checkpointID = loadedCheckpoint.Id
+	s.state.checkpointID = checkpointID
 
 	// Create a job snapshot from the loaded checkpoint
 	if len(loadedCheckpoint.SourceCheckpoints) != 1 {
-- 
2.43.0


From 522221d3e4e37d7009b8e3b4e8a82a52d38123e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 43/54] fix: a restarted job must discard its in-progress
 checkpoint and previous source splitter

---
 jobs/job.go                | 155 +++++++++++++++++++++++++++++--------
 storage/snapshots/store.go |  22 +++++-
 2 files changed, 143 insertions(+), 34 deletions(-)

diff --git a/jobs/job.go b/jobs/job.go
index d779939..96c4404 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"os"
+	"sync"
 	"time"
 
 	"connectrpc.com/connect"
@@ -34,6 +35,17 @@ type Job struct {
 	sourceRunnerFactory proto.SourceRunnerFactory
 	status              *jobStatus
 	errChan             chan error
+
+	// Guards the assembly, the source splitter, and creating checkpoints for the
+	// running assembly.
+	mu sync.Mutex
+
+	// Lifetime of the current assembly
+	assemblyCtx    context.Context
+	cancelAssembly context.CancelFunc
+
+	// The calls which tell an assembly to start a checkpoint
+	startingCheckpoints sync.WaitGroup
 }
 
 type NewParams struct {
@@ -124,7 +136,7 @@ func New(params *NewParams) (*Job, error) {
 
 	go func() {
 		for retained := range retainedCheckpointsUpdatedChan {
-			job.assembly.UpdateRetainedCheckpoints(ctx, retained)
+			job.currentAssembly().UpdateRetainedCheckpoints(ctx, retained)
 		}
 	}()
 
@@ -175,19 +187,84 @@ func (j *Job) HandleCreateSavepoint(ctx context.Context) (uint64, error) {
 	}
 
 	// Create a pending savepoint in the snapshot store to track savepointing.
-	checkpointID, created, err := j.snapshotStore.CreateSavepoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+	checkpointID, err := j.startCheckpoint(j.snapshotStore.CreateSavepoint)
+	if err != nil {
+		return 0, fmt.Errorf("failed creating savepoint: %w", err)
+	}
+
+	return checkpointID, nil
+}
+
+// startCheckpoint creates a checkpoint for the running assembly and tells its
+// source runners to start it.
+func (j *Job) startCheckpoint(create func(operatorIDs, sourceRunnerIDs []string) (id uint64, created bool, err error)) (uint64, error) {
+	j.mu.Lock()
+	if j.status.Value() != StatusRunning {
+		j.mu.Unlock()
+		return 0, fmt.Errorf("job not running (status: %s)", j.status)
+	}
+	ctx, assembly := j.assemblyCtx, j.assembly
+	id, created, err := create(assembly.OperatorIDs(), assembly.SourceRunnerIDs())
 	if err != nil {
-		return 0, fmt.Errorf("failed creating savepoint: %v", err)
+		j.mu.Unlock()
+		return 0, err
 	}
 
 	// Only start the checkpoint if it's new. Otherwise the checkpoint was already in-flight.
-	if created {
-		if err := j.assembly.StartCheckpoint(ctx, checkpointID); err != nil {
-			return 0, fmt.Errorf("failed starting snapshot: %w", err)
+	if !created {
+		j.mu.Unlock()
+		return id, nil
+	}
+	j.startingCheckpoints.Add(1)
+	j.mu.Unlock()
+	defer j.startingCheckpoints.Done()
+
+	if err := assembly.StartCheckpoint(ctx, id); err != nil {
+		return 0, fmt.Errorf("failed starting checkpoint: %w", err)
+	}
+	return id, nil
+}
+
+// setAssembly makes the job use the assembly.
+func (j *Job) setAssembly(assembly *Assembly) {
+	j.mu.Lock()
+	defer j.mu.Unlock()
+	j.assembly = assembly
+	j.assemblyCtx, j.cancelAssembly = context.WithCancel(context.Background())
+	j.status.Set(StatusAssemblyStarting)
+}
+
+func (j *Job) currentAssembly() *Assembly {
+	j.mu.Lock()
+	defer j.mu.Unlock()
+	return j.assembly
+}
+
+// setSourceSplitter makes the job use the source splitter and closes the
+// previous one.
+func (j *Job) setSourceSplitter(splitter connectors.SourceSplitter) {
+	j.mu.Lock()
+	previous := j.sourceSplitter
+	j.sourceSplitter = splitter
+	j.mu.Unlock()
+
+	j.snapshotStore.RegisterSourceSplitter(splitter)
+	if previous != nil {
+		if err := previous.Close(); err != nil {
+			j.log.Warn("failed to close source splitter", "err", err)
 		}
 	}
+}
 
-	return checkpointID, nil
+// pause stops using the assembly.
+func (j *Job) pause() {
+	j.mu.Lock()
+	defer j.mu.Unlock()
+	j.status.Set(StatusPaused)
+	j.cancelAssembly()
+	if j.checkpointTicker != nil {
+		j.checkpointTicker.Stop()
+	}
 }
 
 func (j *Job) HandleGetSavepointURI(ctx context.Context, savepointID uint64) (string, error) {
@@ -203,11 +280,15 @@ func (j *Job) HandleSourceRunnerCheckpointComplete(ctx context.Context, req *job
 }
 
 func (j *Job) HandleNotifySplitsFinished(sourceRunnerID string, splitIDs []string) error {
-	if j.sourceSplitter == nil {
+	// Splits are only finished for the source splitter which assigned them
+	j.mu.Lock()
+	sourceSplitter := j.sourceSplitter
+	j.mu.Unlock()
+	if sourceSplitter == nil {
 		return connect.NewError(connect.CodeNotFound, fmt.Errorf("sourceSplitter not initialized"))
 	}
 	j.taskQueue <- func() error {
-		j.sourceSplitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
+		sourceSplitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
 		return nil
 	}
 	return nil
@@ -251,10 +332,7 @@ func (j *Job) evaluateClusterStatus() {
 	case StatusRunning:
 		if ok, reason := j.assembly.Healthy(j.registry); !ok {
 			j.log.Info("assembly not healthy", "reason", reason)
-			j.status.Set(StatusPaused)
-			if j.checkpointTicker != nil {
-				j.checkpointTicker.Stop()
-			}
+			j.pause()
 		}
 
 	case StatusInit, StatusPaused:
@@ -269,18 +347,14 @@ func (j *Job) evaluateClusterStatus() {
 			break
 		}
 
-		j.status.Set(StatusAssemblyStarting)
-		j.assembly = assembly
+		j.setAssembly(assembly)
 
 		go func() {
-			err := j.start()
+			err := j.start(assembly)
 			if err != nil {
 				j.taskQueue <- func() error {
 					j.log.Error("failed to start job", "err", err)
-					j.status.Set(StatusPaused)
-					if j.checkpointTicker != nil {
-						j.checkpointTicker.Stop()
-					}
+					j.pause()
 					j.evaluateClusterStatus()
 					return nil
 				}
@@ -290,27 +364,37 @@ func (j *Job) evaluateClusterStatus() {
 }
 
 // Transition the job to the running state.
-func (j *Job) start() error {
+func (j *Job) start(assembly *Assembly) error {
 	j.log.Info("starting")
 
+	// The previous assembly doesn't finish its checkpoint anymore
+	j.startingCheckpoints.Wait()
+	j.snapshotStore.DiscardPending()
+
 	// Get the job's current checkpoint which may be nil
 	ckpt := j.snapshotStore.CurrentCheckpoint()
 
+	// Start the assembly
+	if err := assembly.Deploy(j.config, ckpt); err != nil {
+		return fmt.Errorf("starting assembly: %v", err)
+	}
+
 	// Create the source splitter
-	j.sourceSplitter = j.config.Sources[0].NewSourceSplitter(j.assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
+	sourceSplitter := j.config.Sources[0].NewSourceSplitter(assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
 		AssignSplits: func(assignments map[string][]*workerpb.SourceSplit) {
 			j.taskQueue <- func() error {
-				j.assembly.AssignSplits(assignments)
+				// The splits of a previous assembly are assigned again by the new splitter
+				if j.assembly != assembly {
+					return nil
+				}
+				if err := assembly.AssignSplits(assignments); err != nil {
+					return fmt.Errorf("assigning splits: %w", err)
+				}
 				return nil
 			}
 		},
 	}, j.errChan)
-	j.snapshotStore.RegisterSourceSplitter(j.sourceSplitter)
-
-	// Start the assembly
-	if err := j.assembly.Deploy(j.config, ckpt); err != nil {
-		return fmt.Errorf("starting assembly: %v", err)
-	}
+	j.setSourceSplitter(sourceSplitter)
 
 	// Only using the first source checkpoint
 	var sourceCkpt *snapshotpb.SourceCheckpoint
@@ -319,19 +403,24 @@ func (j *Job) start() error {
 	}
 
 	// Start the source splitter with a checkpoint if available and allow it to run background work.
-	j.sourceSplitter.Start(sourceCkpt)
+	if err := sourceSplitter.Start(sourceCkpt); err != nil {
+		return fmt.Errorf("starting source splitter: %w", err)
+	}
 
 	j.taskQueue <- func() error {
 		j.log.Info("running")
-		j.status.Set(StatusRunning)
 
+		j.status.Set(StatusRunning)
 		j.checkpointTicker = j.clock.Every(1*time.Minute, func(tc *clocks.EveryContext) {
-			cpID, err := j.snapshotStore.CreateCheckpoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+			_, err := j.startCheckpoint(func(operatorIDs, sourceRunnerIDs []string) (uint64, bool, error) {
+				id, err := j.snapshotStore.CreateCheckpoint(operatorIDs, sourceRunnerIDs)
+				return id, true, err
+			})
 			if errors.Is(err, snapshots.ErrCheckpointInProgress) {
 				tc.RetryIn(1 * time.Second)
 				return
 			}
-			if err := j.assembly.StartCheckpoint(context.Background(), cpID); err != nil {
+			if err != nil {
 				j.log.Error("failed to start checkpoint", "err", err)
 			}
 		}, "checkpointing")
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 3cb87ea..d7de69b 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -174,7 +174,27 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
-	s.sourceSplitters = append(s.sourceSplitters, splitter)
+
+	// A restarted job has a new source splitter which replaces the previous one.
+	s.sourceSplitters = []connectors.SourceSplitter{splitter}
+}
+
+// DiscardPending drops the in-progress checkpoint, if any, because the nodes
+// that should acknowledge it are being redeployed. It also waits until the
+// snapshots that were finished before are published so that CurrentCheckpoint
+// returns the latest of them.
+func (s *Store) DiscardPending() {
+	s.stateMu.Lock()
+	if s.state.pendingSnapshot != nil {
+		s.log.Info("discarding in-progress checkpoint", "id", s.state.pendingSnapshot.id)
+		s.state.pendingSnapshot = nil
+	}
+	published := s.published
+	s.stateMu.Unlock()
+
+	if published != nil {
+		<-published
+	}
 }
 
 func (s *Store) finishSnapshot(snap *jobSnapshot) {
-- 
2.43.0


From 6c7c7dfefa43d8b6eceb732fb1c1111fd83d29bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 44/54] fix: the embedded source must restore from checkpoints

---
 connectors/embedded/source_splitter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/connectors/embedded/source_splitter.go b/connectors/embedded/source_splitter.go
index 67b7177..39215e8 100644
--- a/connectors/embedded/source_splitter.go
+++ b/connectors/embedded/source_splitter.go
@@ -1,6 +1,9 @@
 package embedded
 
 import (
+	"encoding/binary"
+	"encoding/json"
+	"fmt"
 	"strconv"
 
 	"reduction.dev/reduction/connectors"
@@ -25,19 +28,24 @@ type SourceSplitter struct {
 }
 
 func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
-	// Embedded SourceSplitter does not checkpoint
-	if ckpt != nil {
-		panic("embedded source splitter does not support checkpointing")
+	// Load the cursors of the checkpointed splits
+	cursors := make(map[string][]byte)
+	for _, data := range ckpt.GetSplitStates() {
+		var state split
+		if err := json.Unmarshal(data, &state); err != nil {
+			return fmt.Errorf("embedded.SourceSplitter failed to unmarshal split state: %w", err)
+		}
+		cursors[state.SplitID] = binary.BigEndian.AppendUint64(nil, uint64(state.Cursor))
 	}
 
-	// Create splits all with nil cursors
+	// Create splits, the ones without a checkpoint having nil cursors
 	sourceSplits := make([]*workerpb.SourceSplit, s.splitCount)
 	for splitIndex := range iteru.Times(s.splitCount) {
 		splitID := strconv.Itoa(splitIndex)
 		sourceSplits[splitIndex] = &workerpb.SourceSplit{
 			SplitId:  splitID,
 			SourceId: "TBD",
-			Cursor:   nil,
+			Cursor:   cursors[splitID],
 		}
 	}
 
-- 
2.43.0


From f8bb4d524092a98aee5d8fa22fa162626c22e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 45/54] fix: kinesis shards must be restored at their positions
 and after their parents

---
 connectors/kinesis/kinesispb/kinesis.proto  |  3 ++
 connectors/kinesis/source_reader.go         | 12 +++++
 connectors/kinesis/source_splitter.go       | 51 ++++++++++++++-------
 connectors/kinesis/source_splitter_shard.go |  5 +-
 connectors/kinesis/split_tracker.go         | 33 +++++++++++--
 5 files changed, 81 insertions(+), 23 deletions(-)

diff --git a/connectors/kinesis/kinesispb/kinesis.proto b/connectors/kinesis/kinesispb/kinesis.proto
index 925031a..33f25be 100644
--- a/connectors/kinesis/kinesispb/kinesis.proto
+++ b/connectors/kinesis/kinesispb/kinesis.proto
@@ -12,6 +12,9 @@ message SourceSplitterShard {
   string shard_id = 1;
   HashKeyRange hash_key_range = 2;
   repeated string parent_shard_ids = 3;
+
+  // The position to start reading from if there is no split state for the shard.
+  string cursor = 4;
 }
 
 message Shard {
diff --git a/connectors/kinesis/source_reader.go b/connectors/kinesis/source_reader.go
index 8911e71..7f505a7 100644
--- a/connectors/kinesis/source_reader.go
+++ b/connectors/kinesis/source_reader.go
@@ -21,6 +21,7 @@ type SourceReader struct {
 	client         *kinesis.Client
 	streamARN      string
 	assignedShards []*assignedShard
+	finishedShards []string // IDs of the shards which were read to their end
 	shardIndex     int
 	hooks          connectors.SourceReaderHooks
 }
@@ -84,6 +85,7 @@ func (s *SourceReader) ReadEvents() ([][]byte, error) {
 	// Handle finished shards
 	if records.NextShardIterator == nil {
 		s.hooks.NotifySplitsFinished([]string{shard.id})
+		s.finishedShards = append(s.finishedShards, shard.id)
 		s.assignedShards = slices.Delete(s.assignedShards, s.shardIndex, s.shardIndex+1)
 	} else {
 		// Update shard state for continued reading
@@ -143,6 +145,16 @@ func (s *SourceReader) Checkpoint() [][]byte {
 		}
 	}
 
+	// The splitter can't know whether a shard was finished before or after this
+	// checkpoint, so include the finished ones.
+	for _, id := range s.finishedShards {
+		data, err := proto.Marshal(&kinesispb.Shard{ShardId: id, Finished: true})
+		if err != nil {
+			panic(err)
+		}
+		shards = append(shards, data)
+	}
+
 	return shards
 }
 
diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 24d63f5..0a57b10 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -68,39 +68,47 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 	s.ctx = ctx
 	s.cancel = cancel
 
-	var pendingShards []SourceSplitterShard
-
 	// Load the splitter state
 	var splitterState kinesispb.SplitterState
 	if err := proto.Unmarshal(ckpt.GetSplitterState(), &splitterState); err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to unmarshal splitter state: %w", err)
 	}
 
-	// Build a list of shards that need to be assigned
-	pendingShards = make([]SourceSplitterShard, len(splitterState.AssignedShards))
-	for i, shard := range splitterState.GetAssignedShards() {
-		pendingShards[i] = newSourceSplitterShardFromProto(shard)
-	}
-	s.splitTracker.LoadSplits(pendingShards, splitterState.LastAssignedShardId)
-
 	// Load the split states to get the cursors
+	finished := make(map[string]bool)
 	for _, splitState := range ckpt.GetSplitStates() {
 		var split kinesispb.Shard
 		if err := proto.Unmarshal(splitState, &split); err != nil {
 			return fmt.Errorf("kinesis.SourceSplitter failed to unmarshal split state: %w", err)
 		}
+		if split.Finished {
+			finished[split.ShardId] = true
+			continue
+		}
 		s.cursors[split.ShardId] = split.Cursor
 	}
 
+	// Build a list of shards which weren't read to their end
+	var shards []SourceSplitterShard
+	for _, shard := range splitterState.GetAssignedShards() {
+		if finished[shard.ShardId] {
+			continue
+		}
+		shards = append(shards, newSourceSplitterShardFromProto(shard))
+		if _, ok := s.cursors[shard.ShardId]; !ok && shard.Cursor != "" {
+			s.cursors[shard.ShardId] = shard.Cursor
+		}
+	}
+	s.splitTracker.LoadSplits(shards, splitterState.LastAssignedShardId)
+
 	// Include newly discovered shards for assignment
 	err := s.discoverShards(ctx, s.splitTracker.LastAssignedSplitID)
 	if err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 	}
-	pendingShards = append(pendingShards, s.splitTracker.AvailableSplits()...)
 
-	// Do the initial split assignment
-	s.assignShards(ctx, pendingShards)
+	// Do the initial split assignment, leaving out shards whose parents aren't finished
+	s.assignShards(ctx, s.splitTracker.AvailableSplits())
 
 	// Setup background shard assignment
 	s.shardDiscoveryTicker = time.NewTicker(s.shardDiscoveryInterval)
@@ -118,6 +126,9 @@ func (s *SourceSplitter) processShardAssignment(ctx context.Context) {
 			// periodically discover shards and assign them to source runners
 			err := s.discoverShards(s.ctx, s.splitTracker.LastAssignedSplitID)
 			if err != nil {
+				if ctx.Err() != nil {
+					return // Closed while discovering shards
+				}
 				s.errChan <- fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 				return
 			}
@@ -135,7 +146,13 @@ func (s *SourceSplitter) IsSourceSplitter() {}
 
 func (s *SourceSplitter) NotifySplitsFinished(sourceRunnerID string, splitIDs []string) {
 	s.splitTracker.RemoveSplits(splitIDs)
-	s.splitsDidFinish <- struct{}{}
+
+	// Don't wait for the receiver which may itself be waiting for the caller to
+	// take its assignments. One pending signal covers all finished splits.
+	select {
+	case s.splitsDidFinish <- struct{}{}:
+	default:
+	}
 }
 
 func (s *SourceSplitter) Close() error {
@@ -150,15 +167,16 @@ func (s *SourceSplitter) Close() error {
 
 // Checkpoint returns a snapshot of the splitter's state for checkpointing.
 func (s *SourceSplitter) Checkpoint() []byte {
-	splits := s.splitTracker.AssignedSplits()
+	splits, lastAssignedSplitID := s.splitTracker.CheckpointSplits()
 	pbShards := make([]*kinesispb.SourceSplitterShard, len(splits))
 	for i, shard := range splits {
 		pbShards[i] = shard.toProto()
+		pbShards[i].Cursor = s.cursors[shard.ShardID]
 	}
 
 	bs, err := proto.Marshal(&kinesispb.SplitterState{
 		AssignedShards:      pbShards,
-		LastAssignedShardId: s.splitTracker.LastAssignedSplitID,
+		LastAssignedShardId: lastAssignedSplitID,
 	})
 	if err != nil {
 		panic(err)
@@ -221,8 +239,9 @@ func (s *SourceSplitter) assignShards(ctx context.Context, shards []SourceSplitt
 		})
 	}
 
-	s.hooks.AssignSplits(assignments)
+	// Track the shards before they can be finished by a source runner
 	s.splitTracker.TrackAssigned(shards)
+	s.hooks.AssignSplits(assignments)
 }
 
 var _ connectors.SourceSplitter = (*SourceSplitter)(nil)
diff --git a/connectors/kinesis/source_splitter_shard.go b/connectors/kinesis/source_splitter_shard.go
index f4e5d67..46a391c 100644
--- a/connectors/kinesis/source_splitter_shard.go
+++ b/connectors/kinesis/source_splitter_shard.go
@@ -41,9 +41,8 @@ func newSourceSplitterShardFromKinesis(shard kinesistypes.Shard) SourceSplitterS
 }
 
 func newSourceSplitterShardFromProto(shard *kinesispb.SourceSplitterShard) SourceSplitterShard {
-	var start, end *big.Int
-	start.SetBytes(shard.HashKeyRange.Start)
-	end.SetBytes(shard.HashKeyRange.End)
+	start := new(big.Int).SetBytes(shard.HashKeyRange.GetStart())
+	end := new(big.Int).SetBytes(shard.HashKeyRange.GetEnd())
 
 	return SourceSplitterShard{
 		ShardID:      shard.ShardId,
diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index 1d4a460..c1c5ad6 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -11,7 +11,8 @@ import (
 type SplitTracker struct {
 	knownSplits         *ds.SortedMap[string, SourceSplitterShard]
 	assignedSplits      map[string]struct{}
-	LastAssignedSplitID string // The last split ID that was marked assigned.
+	finishedSplits      *ds.SortedMap[string, SourceSplitterShard]
+	LastAssignedSplitID string // The highest split ID that was marked assigned.
 	mu                  sync.Mutex
 }
 
@@ -19,6 +20,7 @@ func NewSplitTracker() *SplitTracker {
 	return &SplitTracker{
 		knownSplits:    ds.NewSortedMap[string, SourceSplitterShard](),
 		assignedSplits: make(map[string]struct{}),
+		finishedSplits: ds.NewSortedMap[string, SourceSplitterShard](),
 	}
 }
 
@@ -52,10 +54,10 @@ func (st *SplitTracker) TrackAssigned(shards []SourceSplitterShard) {
 
 	for _, shard := range shards {
 		st.assignedSplits[shard.ShardID] = struct{}{}
-	}
 
-	if len(shards) > 0 {
-		st.LastAssignedSplitID = shards[len(shards)-1].ShardID
+		// Shards are discovered after the last assigned one. Don't go back to an
+		// earlier one because the shards in between may be finished already.
+		st.LastAssignedSplitID = max(st.LastAssignedSplitID, shard.ShardID)
 	}
 }
 
@@ -65,6 +67,9 @@ func (st *SplitTracker) RemoveSplits(splitIDs []string) {
 	defer st.mu.Unlock()
 
 	for _, splitID := range splitIDs {
+		if split, known := st.knownSplits.Get(splitID); known {
+			st.finishedSplits.Set(splitID, split)
+		}
 		st.knownSplits.Delete(splitID)
 		delete(st.assignedSplits, splitID)
 	}
@@ -105,6 +110,26 @@ func (st *SplitTracker) AvailableSplits() []SourceSplitterShard {
 	return available
 }
 
+// CheckpointSplits are all the splits which may be needed to restore a
+// checkpoint: the assigned ones, the ones waiting for their parents to finish,
+// and the finished ones because they may have finished after the barrier of a
+// checkpoint that's still in progress. Also returns the last assigned split ID
+// at the same moment.
+func (st *SplitTracker) CheckpointSplits() (splits []SourceSplitterShard, lastAssignedSplitID string) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	splits = make([]SourceSplitterShard, 0, st.knownSplits.Size()+st.finishedSplits.Size())
+	for _, split := range st.knownSplits.All() {
+		splits = append(splits, split)
+	}
+	for _, split := range st.finishedSplits.All() {
+		splits = append(splits, split)
+	}
+
+	return splits, st.LastAssignedSplitID
+}
+
 func (st *SplitTracker) AssignedSplits() []SourceSplitterShard {
 	st.mu.Lock()
 	defer st.mu.Unlock()
-- 
2.43.0


From 219e86d7a8302bf951227948fa66417f23d7dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 46/54] fix: savepoints must contain the files of their own
 checkpoint and be restorable from s3

---
 dkv/recovery/list_files.go              | 32 +++++++++++++++++++++----
 storage/snapshots/savepoint_artifact.go | 12 ++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/dkv/recovery/list_files.go b/dkv/recovery/list_files.go
index e07b3f9..b261b66 100644
--- a/dkv/recovery/list_files.go
+++ b/dkv/recovery/list_files.go
@@ -2,10 +2,34 @@ package recovery
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 )
 
+// ListFiles lists the files which the latest of the listed checkpoints references.
 func ListFiles(reader io.Reader) ([]string, error) {
+	listDoc, err := readCheckpointListDocument(reader)
+	if err != nil {
+		return nil, err
+	}
+	return checkpointFiles(listDoc.Checkpoints[len(listDoc.Checkpoints)-1]), nil
+}
+
+// ListCheckpointFiles lists the files which the checkpoint with the given ID references.
+func ListCheckpointFiles(reader io.Reader, checkpointID uint64) ([]string, error) {
+	listDoc, err := readCheckpointListDocument(reader)
+	if err != nil {
+		return nil, err
+	}
+	for _, ckpt := range listDoc.Checkpoints {
+		if ckpt.ID == checkpointID {
+			return checkpointFiles(ckpt), nil
+		}
+	}
+	return nil, fmt.Errorf("there is no checkpoint %d in the list of checkpoints", checkpointID)
+}
+
+func readCheckpointListDocument(reader io.Reader) (*checkpointListDocument, error) {
 	// Decode reader data into checkpoint list JSON document
 	data, err := io.ReadAll(reader)
 	if err != nil {
@@ -16,10 +40,10 @@ func ListFiles(reader io.Reader) ([]string, error) {
 	if err := json.Unmarshal(data, &listDoc); err != nil {
 		return nil, err
 	}
+	return &listDoc, nil
+}
 
-	// Always use the latest checkpoint
-	ckpt := listDoc.Checkpoints[len(listDoc.Checkpoints)-1]
-
+func checkpointFiles(ckpt checkpointDocument) []string {
 	fileNames := []string{}
 
 	// Add WAL file names to output
@@ -34,5 +58,5 @@ func ListFiles(reader io.Reader) ([]string, error) {
 		}
 	}
 
-	return fileNames, nil
+	return fileNames
 }
diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index 742f561..2b3a04b 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"path"
 	"path/filepath"
+	"strings"
 
 	"reduction.dev/reduction/dkv/recovery"
 	"reduction.dev/reduction/proto/snapshotpb"
@@ -25,7 +26,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 		}
 
 		// Get a list of URIs that the checkpoint references.
-		files, err := recovery.ListFiles(bytes.NewBuffer(checkpointsData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(checkpointsData), opCkpt.CheckpointId)
 		if err != nil {
 			return "", err
 		}
@@ -56,7 +57,8 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 
 // Copy files from a savepoint into place to be read as checkpoints.
 func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepointURI string, jobCheckpoint *snapshotpb.JobCheckpoint) error {
-	spDir := filepath.Dir(savepointURI)
+	// Keep any scheme like s3:// of the directory
+	spDir := strings.TrimSuffix(savepointURI, path.Base(savepointURI))
 
 	for _, opCkpt := range jobCheckpoint.GetOperatorCheckpoints() {
 		opID, baseFileName, err := parseDKVURI(opCkpt.DkvFileUri)
@@ -65,14 +67,14 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Read the checkpoints data
-		checkpointsPath := filepath.Join(spDir, "dkv", opID, baseFileName)
+		checkpointsPath := spDir + filepath.Join("dkv", opID, baseFileName)
 		cpData, err := fs.Read(checkpointsPath)
 		if err != nil {
 			return fmt.Errorf("reading checkpoints file (%s): %v", checkpointsPath, err)
 		}
 
 		// Get a list of referenced files to copy into place
-		files, err := recovery.ListFiles(bytes.NewBuffer(cpData))
+		files, err := recovery.ListCheckpointFiles(bytes.NewBuffer(cpData), opCkpt.CheckpointId)
 		if err != nil {
 			return err
 		}
@@ -85,7 +87,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 			}
 
 			// Source is a file referenced by a DKV checkpoint that's been copied to the savepoint directory
-			src := filepath.Join(spDir, "dkv", opPrefix, baseFileName)
+			src := spDir + filepath.Join("dkv", opPrefix, baseFileName)
 			if err := fs.Copy(src, file); err != nil {
 				return err
 			}
-- 
2.43.0


From 7a93a159a6d0f60a03d62b1111039406eeaedc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 47/54] fix: listing s3 must return all pages and removal must
 report errors

---
 storage/locations/s3_location.go | 34 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/storage/locations/s3_location.go b/storage/locations/s3_location.go
index 020755b..24b1c59 100644
--- a/storage/locations/s3_location.go
+++ b/storage/locations/s3_location.go
@@ -102,23 +102,31 @@ func (l *S3Location) Copy(sourceURI string, destination string) error {
 	return nil
 }
 
-// List returns the result of a ListObjectsV2 call to S3. It doesn't paginate
-// so it returns up to 1,000 objects.
+// List returns the URIs of all objects. S3 returns them in pages.
 func (l *S3Location) List() iter.Seq2[string, error] {
 	return func(yield func(string, error) bool) {
-		result, err := l.s3.ListObjectsV2(context.TODO(), &s3.ListObjectsV2Input{
-			Bucket: &l.bucket,
-			Prefix: &l.prefix,
-		})
-		if err != nil {
-			yield("", err)
-			return
-		}
+		var continuationToken *string
+		for {
+			result, err := l.s3.ListObjectsV2(context.TODO(), &s3.ListObjectsV2Input{
+				Bucket:            &l.bucket,
+				Prefix:            &l.prefix,
+				ContinuationToken: continuationToken,
+			})
+			if err != nil {
+				yield("", err)
+				return
+			}
+
+			for _, obj := range result.Contents {
+				if !yield(s3URI(l.bucket, *obj.Key), nil) {
+					return
+				}
+			}
 
-		for _, obj := range result.Contents {
-			if !yield(s3URI(l.bucket, *obj.Key), nil) {
+			if result.NextContinuationToken == nil {
 				return
 			}
+			continuationToken = result.NextContinuationToken
 		}
 	}
 }
@@ -132,7 +140,7 @@ func (l *S3Location) Remove(paths ...string) error {
 			Key:    &key,
 		})
 		if err != nil {
-			errors.Join(compositeErr, fmt.Errorf("failed to delete object %s: %w", path, err))
+			compositeErr = errors.Join(compositeErr, fmt.Errorf("failed to delete object %s: %w", path, err))
 		}
 	}
 
-- 
2.43.0


From d6a5816cec0ce68e25cfc5ec40216f5da25f4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 48/54] fix: a job in a relative directory must find its
 snapshots again

---
 storage/locations/local_directory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index fec91dc..569b37e 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -18,6 +18,10 @@ type LocalDirectory struct {
 }
 
 func NewLocalDirectory(path string) *LocalDirectory {
+	// Paths given to and returned by a location are relative to it or absolute
+	if absPath, err := filepath.Abs(path); err == nil {
+		path = absPath
+	}
 	return &LocalDirectory{
 		Path:          path,
 		subscriptions: make([]chan FileEvent, 0),
-- 
2.43.0


From ad5eaf5e5f2e2a2a04fcd150d7e915e426848246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 49/54] fix: a checkpoint must include splits which were
 assigned before it started

---
 workers/sourcerunner/source_runner.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index c7dffb7..41f851f 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -303,15 +303,20 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 			r.Logger.Info("stopping source runner loop", "cause", context.Cause(ctx))
 			return nil
 		case splits := <-r.splitsWereAssigned:
-			if err := r.sourceReader.AssignSplits(splits); err != nil {
+			if err := r.assignSplits(ctx, splits); err != nil {
 				return err
 			}
-			if len(splits) > 0 {
-				r.sourceChannel.Start(ctx)
-			}
 		case <-r.watermarkTicker.C:
 			r.emit(ctx, &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
 		case barrier := <-r.checkpointBarrier:
+			// Splits which were assigned before the checkpoint must be part of it
+			select {
+			case splits := <-r.splitsWereAssigned:
+				if err := r.assignSplits(ctx, splits); err != nil {
+					return err
+				}
+			default:
+			}
 			if err := r.createCheckpoint(ctx, barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
@@ -351,6 +356,17 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 	}
 }
 
+// assignSplits adds the splits to the source reader and makes sure it's reading.
+func (r *SourceRunner) assignSplits(ctx context.Context, splits []*workerpb.SourceSplit) error {
+	if err := r.sourceReader.AssignSplits(splits); err != nil {
+		return err
+	}
+	if len(splits) > 0 {
+		r.sourceChannel.Start(ctx)
+	}
+	return nil
+}
+
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
 	deploymentCtx, barriers, _ := r.requestChannels()
 	if deploymentCtx == nil {
-- 
2.43.0


From 131b657e5439f0746015a5fbfd0ecd90e0556987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 50/54] fix: retained checkpoints may be updated before an
 operator is deployed

---
 workers/operator/operator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 631291d..ac0c03e 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -255,7 +255,15 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 }
 
 func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.UpdateRetainedCheckpointsRequest) error {
-	return o.db.UpdateRetainedCheckpoints(req.CheckpointIds)
+	o.mu.RLock()
+	db := o.db
+	o.mu.RUnlock()
+
+	// An operator which isn't deployed yet doesn't have any checkpoints
+	if db == nil {
+		return nil
+	}
+	return db.UpdateRetainedCheckpoints(req.CheckpointIds)
 }
 
 func (o *Operator) HandleNeedsTable(fileURI string) bool {
-- 
2.43.0


From e50df3f417b343eb8148d7651e05159e4926b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 51/54] fix: a canceled deployment must not replace a later one

---
 workers/operator/operator.go          | 5 +++++
 workers/sourcerunner/source_runner.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index ac0c03e..5c8a267 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -174,6 +174,11 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
+	// The job gave up this deployment and may have sent a later one
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	o.Logger.Info("deploy command",
 		"operators", req.Operators,
 		"keyGroupCount", req.KeyGroupCount,
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 41f851f..4978760 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -195,6 +195,11 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
+	// The job gave up this deployment and may have sent a later one
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	// Stop the loops of an earlier deployment. Nothing they read, and nothing which
 	// was requested from them, may become part of this deployment.
 	r.stopLoop()
-- 
2.43.0


From 2abd3c1f73ec6c946a92a61c34152acab2b1de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 52/54] fix: don't read finished shards again which were
 discovered after a splitter checkpoint

The splitter's state of a checkpoint may be older than the discovery of a shard
which was read to its end before the source runner's barrier. The restored
splitter discovered and assigned it again.
---
 connectors/kinesis/source_splitter.go |  6 ++++++
 connectors/kinesis/split_tracker.go   | 14 ++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 0a57b10..dfcf58f 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -3,7 +3,9 @@ package kinesis
 import (
 	"context"
 	"fmt"
+	"maps"
 	"math/big"
+	"slices"
 	"time"
 
 	awskinesis "github.com/aws/aws-sdk-go-v2/service/kinesis"
@@ -107,6 +109,10 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 		return fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 	}
 
+	// Shards may be discovered after the splitter's state was taken, and read to
+	// their end before a source runner's barrier
+	s.splitTracker.DropSplits(slices.Collect(maps.Keys(finished)))
+
 	// Do the initial split assignment, leaving out shards whose parents aren't finished
 	s.assignShards(ctx, s.splitTracker.AvailableSplits())
 
diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index c1c5ad6..53855f8 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -75,6 +75,20 @@ func (st *SplitTracker) RemoveSplits(splitIDs []string) {
 	}
 }
 
+// DropSplits leaves out splits which were read to their end before the tracker
+// was loaded from a checkpoint.
+func (st *SplitTracker) DropSplits(splitIDs []string) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	for _, splitID := range splitIDs {
+		st.knownSplits.Delete(splitID)
+
+		// Don't discover the split again
+		st.LastAssignedSplitID = max(st.LastAssignedSplitID, splitID)
+	}
+}
+
 // AvailableSplits are not assigned and have no parents that need to be read first.
 func (st *SplitTracker) AvailableSplits() []SourceSplitterShard {
 	st.mu.Lock()
-- 
2.43.0


From f36c8e9131959ca45d65e4b154dfa8ba4d94eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 53/54] fix: a reader's checkpoint lists only its unfinished
 shards

The states of finished shards are reported next to them, so that
SourceReader.Checkpoint keeps its meaning.
---
 connectors/kinesis/source_reader.go   | 16 +++++++++++-----
 connectors/source_reader.go           |  7 +++++++
 workers/sourcerunner/source_runner.go |  3 +++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/connectors/kinesis/source_reader.go b/connectors/kinesis/source_reader.go
index 7f505a7..cd70094 100644
--- a/connectors/kinesis/source_reader.go
+++ b/connectors/kinesis/source_reader.go
@@ -145,14 +145,19 @@ func (s *SourceReader) Checkpoint() [][]byte {
 		}
 	}
 
-	// The splitter can't know whether a shard was finished before or after this
-	// checkpoint, so include the finished ones.
-	for _, id := range s.finishedShards {
-		data, err := proto.Marshal(&kinesispb.Shard{ShardId: id, Finished: true})
+	return shards
+}
+
+// CheckpointFinished returns the states of the shards which were read to their
+// end. The splitter can't know whether that was before or after a checkpoint.
+func (s *SourceReader) CheckpointFinished() [][]byte {
+	shards := make([][]byte, len(s.finishedShards))
+	for i, id := range s.finishedShards {
+		var err error
+		shards[i], err = proto.Marshal(&kinesispb.Shard{ShardId: id, Finished: true})
 		if err != nil {
 			panic(err)
 		}
-		shards = append(shards, data)
 	}
 
 	return shards
@@ -187,6 +192,7 @@ func (s *SourceReader) refreshShardIterator(shard *assignedShard) error {
 }
 
 var _ connectors.SourceReader = (*SourceReader)(nil)
+var _ connectors.FinishedSplitsReader = (*SourceReader)(nil)
 
 func sourceErrorFrom(err error) *connectors.SourceError {
 	switch {
diff --git a/connectors/source_reader.go b/connectors/source_reader.go
index 7d93f97..ba36a78 100644
--- a/connectors/source_reader.go
+++ b/connectors/source_reader.go
@@ -10,6 +10,13 @@ type SourceReader interface {
 	Checkpoint() [][]byte
 }
 
+// FinishedSplitsReader is implemented by source readers whose splits may finish.
+type FinishedSplitsReader interface {
+	// CheckpointFinished returns a list of marshalled split states for the splits
+	// which were read to their end. They're checkpointed with the other splits.
+	CheckpointFinished() [][]byte
+}
+
 type UnimplementedSourceReader struct{}
 
 func (u *UnimplementedSourceReader) Checkpoint() [][]byte {
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 4978760..3114aa0 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -436,6 +436,9 @@ func (r *SourceRunner) sendKeyEvent(ctx context.Context, event []byte) {
 // createCheckpoint gets checkpoint data from the source reader and notifies the job.
 func (r *SourceRunner) createCheckpoint(ctx context.Context, id uint64) error {
 	data := r.sourceReader.Checkpoint()
+	if reader, ok := r.sourceReader.(connectors.FinishedSplitsReader); ok {
+		data = append(data, reader.CheckpointFinished()...)
+	}
 	return r.job.OnSourceRunnerCheckpointComplete(ctx, &jobpb.SourceRunnerCheckpointCompleteRequest{
 		CheckpointId:   id,
 		SplitStates:    data,
-- 
2.43.0


From 8c10e401743c32c7d5f5838627d8b53b678b4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 54/54] fix: the tables of a dropped database must not outlive
 it in a garbage collection

---
 dkv/db.go               |  4 ++++
 dkv/sst/table_writer.go | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index ec97495..0c59962 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -117,6 +117,10 @@ func New(options DBOptions) *DB {
 		dataOwnership: options.DataOwnership,
 	}
 
+	// The table writer by itself may be collected later than the DB and its tables
+	owner := weak.Make(db)
+	tw.SetOwnerAlive(func() bool { return owner.Value() != nil })
+
 	return db
 }
 
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 22de5c9..4268fe7 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -22,6 +22,7 @@ type TableWriter struct {
 	fs         storage.FileSystem
 	id         *atomic.Int64
 	instanceID string // Optional part of the file names to tell instances apart
+	ownerAlive func() bool
 }
 
 // Create a TableWriter with a given file system and starting table ID.
@@ -38,6 +39,14 @@ func (c *TableWriter) SetInstanceID(id string) {
 	c.instanceID = id
 }
 
+// SetOwnerAlive sets how to find out whether the owner of the written tables is
+// still in use. The owner must reference all the tables which are in use, so that
+// none of them can be collected before the owner is. Must be called before the
+// first write.
+func (c *TableWriter) SetOwnerAlive(ownerAlive func() bool) {
+	c.ownerAlive = ownerAlive
+}
+
 func (c *TableWriter) fileName(num int64) string {
 	if c.instanceID == "" {
 		return fmt.Sprintf("%06d.sst", num)
@@ -49,8 +58,12 @@ func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
 	f := c.fs.New(c.fileName(reservedNum))
 
-	owner := weak.Make(c)
-	table := newTable(f, func() bool { return owner.Value() != nil })
+	ownerAlive := c.ownerAlive
+	if ownerAlive == nil {
+		owner := weak.Make(c)
+		ownerAlive = func() bool { return owner.Value() != nil }
+	}
+	table := newTable(f, ownerAlive)
 	for e := range entries {
 		writeEntry(table, e)
 	}
-- 
2.43.0

