From 484248f962d84306d5615d2c864409f006b7096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 01/54] fix: in-memory store leaves part of a failed save
 behind

A save that failed after its first event (mismatching type or id, cancelled
context) kept the earlier events, and the roll back after a serialization
error trimmed the conventional stream name instead of the stream written to,
panicking with the lock held.
---
 provider/inmemorystore/inmemory_store.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..8809c4d 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -235,13 +235,16 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
+	previousGlobalSequenceNumber := s.globalSequenceNumber
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +254,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +272,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -341,19 +345,24 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, previousGlobalSequenceNumber uint64, streamName, aggregateType string) {
+	s.globalSequenceNumber = previousGlobalSequenceNumber
+
+	total := len(globalSequenceNumbers)
+	if total == 0 {
+		return
+	}
 
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
 	}
 
-	total := len(globalSequenceNumbers)
-
-	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 }
 
 func rTrimFromUint64Slice(slice []uint64, total int) []uint64 {
-- 
2.43.0


From ba4fa5194e9f9234d80291f810391144fa79492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 02/54] fix: in-memory store broadcasts concurrent saves out of
 order

Records were handed to the broadcaster after releasing the lock, so two
concurrent saves could be broadcast in the wrong order and subscribers dropped
the one arriving late as already sent.
---
 provider/inmemorystore/inmemory_store.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 8809c4d..0d8215b 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -235,17 +235,16 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
+	defer s.mux.Unlock()
 	previousGlobalSequenceNumber := s.globalSequenceNumber
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -255,7 +254,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 		select {
 		case <-ctx.Done():
 			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, context.Canceled
 
 		default:
@@ -273,7 +271,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 		)
 		if err != nil {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
-			s.mux.Unlock()
 			return 0, err
 		}
 
@@ -287,7 +284,6 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
 
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
-- 
2.43.0


From 05d679d09bb6aef0d03535eee2c2bd65b2e0e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 03/54] fix: mixed batches are accepted when the first event
 has an empty type or id

---
 provider/eventstore/eventstore.go        |  6 +++---
 provider/inmemorystore/inmemory_store.go |  6 +++---
 provider/leveldbstore/leveldb_store.go   |  6 +++---
 provider/remotestore/remote_store.go     | 12 ++++++------
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 8796f09..c513d8d 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -631,12 +631,12 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 
 	var proposedEvents []esdb.EventData
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 0d8215b..8514856 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -237,13 +237,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	defer s.mux.Unlock()
 	previousGlobalSequenceNumber := s.globalSequenceNumber
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, previousGlobalSequenceNumber, streamName, aggregateType)
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..30d4ba2 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -216,13 +216,13 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 		return 0, err
 	}
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 4292b69..f55727e 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -151,14 +151,14 @@ func (s *remoteStore) OptimisticSave(ctx context.Context, expectedStreamSequence
 	var aggregateType, aggregateID string
 
 	var events []*rangedbpb.Event
-	for _, eventRecord := range eventRecords {
+	for i, eventRecord := range eventRecords {
 		// TODO: Allow mixed aggregate types?
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		// TODO: Allow mixed aggregate IDs?
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -214,14 +214,14 @@ func (s *remoteStore) Save(ctx context.Context, streamName string, eventRecords
 	var aggregateType, aggregateID string
 
 	var events []*rangedbpb.Event
-	for _, eventRecord := range eventRecords {
+	for i, eventRecord := range eventRecords {
 		// TODO: Allow mixed aggregate types?
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		// TODO: Allow mixed aggregate IDs?
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
-- 
2.43.0


From fd59986aa8c9ce1d5fc6d5f910b340ddfb117986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:48 +0000
Subject: [PATCH 04/54] fix: LevelDB store blocks forever after a failed delete

OptimisticDeleteStream left its transaction open when the stream did not exist,
the expected position was wrong or a record could not be read, and every later
save or delete waits for it; the same holds for a save whose commit fails.
---
 provider/leveldbstore/leveldb_store.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 30d4ba2..55c4fdb 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -145,6 +145,7 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -166,6 +167,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	if err := iter.Error(); err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -177,8 +182,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -215,15 +218,14 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	if err != nil {
 		return 0, err
 	}
+	defer transaction.Discard()
 
 	for i, eventRecord := range eventRecords {
 		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
-			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
 
@@ -245,7 +247,6 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			transaction.Discard()
 			return 0, err
 		}
 
-- 
2.43.0


From e66b0792b6014be6ce8585e6e25fbfe566494bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 05/54] fix: LevelDB store mixes up names that contain the key
 separator

The keys of a stream or aggregate type named 'a$!b' share the prefix of 'a', so
reads, counts, numbering and deletion of 'a' included them.
---
 provider/leveldbstore/leveldb_store.go | 27 +++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 55c4fdb..17f5550 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -153,6 +153,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isKeyWithNumber(iter.Key(), getStreamKeyPrefix(streamName)) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -378,6 +382,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -426,6 +434,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		for iter.Next() {
+			if !isKeyWithNumber(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -479,6 +491,11 @@ func getKeyWithNumber(inputKey string, number uint64) []byte {
 	return append([]byte(inputKey), uint64ToBytes(number)...)
 }
 
+// isKeyWithNumber tells a key of this prefix apart from keys of names that start with this prefix.
+func isKeyWithNumber(key []byte, prefix string) bool {
+	return len(key) == len(prefix)+8
+}
+
 func uint64ToBytes(number uint64) []byte {
 	var buf bytes.Buffer
 	_ = binary.Write(&buf, binary.BigEndian, number)
@@ -511,12 +528,12 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
-	iter.Last()
+	defer iter.Release()
 
-	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	for ok := iter.Last(); ok; ok = iter.Prev() {
+		if isKeyWithNumber(iter.Key(), key) {
+			return bytesToUint64(iter.Key()[len(key):])
+		}
 	}
 
 	return 0
-- 
2.43.0


From 00829ee2a19cdf23e3883cc1a5e9263517d7c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 06/54] fix: LevelDB store ignores read errors

A read of a closed or damaged database ended as if it were complete, and a
failure to read the last position restarted numbering.
---
 provider/leveldbstore/leveldb_store.go | 44 ++++++++++++++++++--------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 17f5550..ff6a66f 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -287,7 +287,10 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
+	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
@@ -296,7 +299,11 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction) + 1
+	lastGlobalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
+	if err != nil {
+		return nil, 0, err
+	}
+	globalSequenceNumber := lastGlobalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -365,7 +372,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	default:
 	}
 
-	return s.getStreamSequenceNumber(s.db, streamName), nil
+	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
@@ -403,12 +410,15 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+			return
+		}
+
 		if cnt == 0 {
 			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
 			return
 		}
-
-		_ = iter.Error()
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -454,6 +464,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				return
 			}
 		}
+
+		if err := iter.Error(); err != nil {
+			resultRecords <- rangedb.ResultRecord{Err: err}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -512,29 +526,31 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) uint64 {
-	var globalSequenceNumber uint64
+func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
 	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
-	if err == nil {
-		globalSequenceNumber = bytesToUint64(globalSequenceNumberBytes)
+	if err == leveldb.ErrNotFound {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
 	}
 
-	return globalSequenceNumber
+	return bytesToUint64(globalSequenceNumberBytes), nil
 }
 
-func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) uint64 {
+func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) (uint64, error) {
 	return s.getSequenceNumber(iterable, getStreamKeyPrefix(stream))
 }
 
-func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
+func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (uint64, error) {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
 	defer iter.Release()
 
 	for ok := iter.Last(); ok; ok = iter.Prev() {
 		if isKeyWithNumber(iter.Key(), key) {
-			return bytesToUint64(iter.Key()[len(key):])
+			return bytesToUint64(iter.Key()[len(key):]), nil
 		}
 	}
 
-	return 0
+	return 0, iter.Error()
 }
-- 
2.43.0


From 8a30c2b5c4ee920a7e2091edc1e74959bceea08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 07/54] fix: reads hold the store's lock until their last
 record is consumed

A writer waited for every unfinished read, so saving while iterating (also from
a subscriber catching up) never returned, and a read of several aggregate types
deadlocked with a waiting writer and could show each type as of another moment.
Reads now work on what is stored when they are called.
---
 provider/inmemorystore/inmemory_store.go | 20 +++++++----
 provider/leveldbstore/leveldb_store.go   | 43 +++++++++++++++++++-----
 2 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 8514856..4f77867 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -92,6 +92,7 @@ func (s *inMemoryStore) Bind(events ...rangedb.Event) {
 
 func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
 	s.mux.RLock()
+	defer s.mux.RUnlock()
 
 	return s.recordsByIDs(ctx, s.records, func(record *rangedb.Record) bool {
 		return record.GlobalSequenceNumber >= globalSequenceNumber
@@ -99,14 +100,15 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
 		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
 	}
 
 	var recordIterators []rangedb.RecordIterator
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
 		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
 	}
 
@@ -121,9 +123,9 @@ func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *ran
 
 func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, streamName string) rangedb.RecordIterator {
 	s.mux.RLock()
+	defer s.mux.RUnlock()
 
 	if _, ok := s.streams[streamName]; !ok || len(s.streams[streamName]) == 0 {
-		s.mux.RUnlock()
 		return rangedb.NewRecordIteratorWithError(rangedb.ErrStreamNotFound)
 	}
 
@@ -132,16 +134,20 @@ func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber
 	})
 }
 
+// recordsByIDs reads what is stored now, while the caller holds the mutex.
 func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare func(record *rangedb.Record) bool) rangedb.RecordIterator {
 	resultRecords := make(chan rangedb.ResultRecord)
 
+	allRecordData := make([][]byte, len(ids))
+	for i, id := range ids {
+		allRecordData[i] = s.recordData[id]
+	}
+
 	go func() {
-		defer s.mux.RUnlock()
 		defer close(resultRecords)
 
-		for _, id := range ids {
-			recordData, exists := s.recordData[id]
-			if !exists {
+		for _, recordData := range allRecordData {
+			if recordData == nil {
 				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
 				return
 			}
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index ff6a66f..e518525 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -42,6 +42,7 @@ type levelDbStore struct {
 
 	logger *log.Logger
 	mux    sync.RWMutex
+	reads  sync.WaitGroup
 	db     *leveldb.DB
 }
 
@@ -102,6 +103,7 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 func (s *levelDbStore) Stop() error {
 	s.mux.Lock()
 	defer s.mux.Unlock()
+	s.reads.Wait()
 	return s.db.Close()
 }
 
@@ -110,10 +112,16 @@ func (s *levelDbStore) Bind(events ...rangedb.Event) {
 }
 
 func (s *levelDbStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	return s.getEventsByLookup(ctx, allEventsPrefix, globalSequenceNumber)
 }
 
 func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	if len(aggregateTypes) == 1 {
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
@@ -127,6 +135,9 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 }
 
 func (s *levelDbStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, stream string) rangedb.RecordIterator {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	return s.getEventsByPrefix(ctx, getStreamKeyPrefix(stream), streamSequenceNumber)
 }
 
@@ -375,15 +386,22 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
+// getEventsByPrefix reads from a snapshot taken while the caller holds the mutex.
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
+	snapshot, err := s.db.GetSnapshot()
+	if err != nil {
+		return rangedb.NewRecordIteratorWithError(err)
+	}
+
 	resultRecords := make(chan rangedb.ResultRecord)
-	s.mux.RLock()
+	s.reads.Add(1)
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer s.reads.Done()
+		defer snapshot.Release()
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(prefix)), nil)
+		iter := snapshot.NewIterator(util.BytesPrefix([]byte(prefix)), nil)
 		defer iter.Release()
 
 		cnt := 0
@@ -424,15 +442,22 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
+// getEventsByLookup reads from a snapshot taken while the caller holds the mutex.
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
+	snapshot, err := s.db.GetSnapshot()
+	if err != nil {
+		return rangedb.NewRecordIteratorWithError(err)
+	}
+
 	resultRecords := make(chan rangedb.ResultRecord)
-	s.mux.RLock()
+	s.reads.Add(1)
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer s.reads.Done()
+		defer snapshot.Release()
 		defer close(resultRecords)
 
-		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
+		iter := snapshot.NewIterator(util.BytesPrefix([]byte(key)), nil)
 		defer iter.Release()
 
 		if globalSequenceNumber > 0 {
@@ -450,7 +475,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			targetKey := iter.Value()
 
-			record, err := s.getRecordByLookup(targetKey, iter)
+			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
 				resultRecords <- rangedb.ResultRecord{Err: err}
 				return
@@ -473,8 +498,8 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
-func (s *levelDbStore) getRecordByLookup(targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
-	data, err := s.db.Get(targetKey, nil)
+func (s *levelDbStore) getRecordByLookup(snapshot *leveldb.Snapshot, targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
+	data, err := snapshot.Get(targetKey, nil)
 	if err != nil {
 		s.logger.Printf("unable to find lookup record %s for %s: %v", targetKey, iter.Key(), err)
 		return nil, err
-- 
2.43.0


From 1e5d01867ce5bab46f9c2414c295e58539302a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 08/54] fix: a cancelled read can end as if it were complete

The cancellation error was dropped when the consumer was not waiting for it
within a second, and errors were never dropped for a consumer that had gone.
---
 provider/inmemorystore/inmemory_store.go |  6 +++---
 provider/leveldbstore/leveldb_store.go   | 14 +++++++-------
 publish_record.go                        |  8 ++++++++
 record_iterator.go                       | 22 +++++++++++++++++++---
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 4f77867..125d21a 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -148,7 +148,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 
 		for _, recordData := range allRecordData {
 			if recordData == nil {
-				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("record missing"))
 				return
 			}
 
@@ -156,7 +156,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
 				s.logger.Printf(deserializeErr.Error())
-				resultRecords <- rangedb.ResultRecord{Err: deserializeErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, deserializeErr)
 				return
 			}
 
@@ -168,7 +168,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorContext(ctx, resultRecords)
 }
 
 func (s *inMemoryStore) OptimisticDeleteStream(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string) error {
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index e518525..dce68fb 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -415,7 +415,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -429,17 +429,17 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		}
 
 		if err := iter.Error(); err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 			return
 		}
 
 		if cnt == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
 			return
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorContext(ctx, resultRecords)
 }
 
 // getEventsByLookup reads from a snapshot taken while the caller holds the mutex.
@@ -477,7 +477,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -491,11 +491,11 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		if err := iter.Error(); err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorContext(ctx, resultRecords)
 }
 
 func (s *levelDbStore) getRecordByLookup(snapshot *leveldb.Snapshot, targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
diff --git a/publish_record.go b/publish_record.go
index 140811d..a857549 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -31,3 +31,11 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	return true
 }
+
+// PublishErrorOrCancel publishes an error to a ResultRecord channel, unless ctx is done.
+func PublishErrorOrCancel(ctx context.Context, resultRecords chan ResultRecord, err error) {
+	select {
+	case <-ctx.Done():
+	case resultRecords <- ResultRecord{Err: err}:
+	}
+}
diff --git a/record_iterator.go b/record_iterator.go
index 318e108..033a85c 100644
--- a/record_iterator.go
+++ b/record_iterator.go
@@ -5,13 +5,20 @@ import (
 )
 
 type recordIterator struct {
+	ctx           context.Context
 	resultRecords <-chan ResultRecord
 	current       ResultRecord
 }
 
 // NewRecordIterator constructs a new rangedb.Record iterator
 func NewRecordIterator(recordResult <-chan ResultRecord) *recordIterator {
-	return &recordIterator{resultRecords: recordResult}
+	return &recordIterator{ctx: context.Background(), resultRecords: recordResult}
+}
+
+// NewRecordIteratorContext constructs a new rangedb.Record iterator for records
+// published until ctx is done; it never ends without an error once ctx is done.
+func NewRecordIteratorContext(ctx context.Context, recordResult <-chan ResultRecord) *recordIterator {
+	return &recordIterator{ctx: ctx, resultRecords: recordResult}
 }
 
 func (i *recordIterator) Next() bool {
@@ -19,7 +26,8 @@ func (i *recordIterator) Next() bool {
 		return false
 	}
 
-	i.current = <-i.resultRecords
+	resultRecord, ok := <-i.resultRecords
+	i.receive(resultRecord, ok)
 
 	return i.current.Record != nil
 }
@@ -30,7 +38,8 @@ func (i *recordIterator) NextContext(ctx context.Context) bool {
 	}
 
 	select {
-	case i.current = <-i.resultRecords:
+	case resultRecord, ok := <-i.resultRecords:
+		i.receive(resultRecord, ok)
 	case <-ctx.Done():
 		i.current = ResultRecord{
 			Record: nil,
@@ -41,6 +50,13 @@ func (i *recordIterator) NextContext(ctx context.Context) bool {
 	return i.current.Record != nil
 }
 
+func (i *recordIterator) receive(resultRecord ResultRecord, ok bool) {
+	if !ok {
+		resultRecord.Err = i.ctx.Err()
+	}
+	i.current = resultRecord
+}
+
 func (i *recordIterator) Record() *Record {
 	return i.current.Record
 }
-- 
2.43.0


From 5d74380755e3748e3a5de19232b729df95c93b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 09/54] fix: subscription from a position not reached yet skips
 that event

---
 pkg/recordsubscriber/record_subscriber.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..b5e895f 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,10 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
+
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
-- 
2.43.0


From 20c899eb26e1d083d13026e762a960aa6cd5d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 10/54] fix: subscription starts although its catch-up read
 failed

---
 pkg/recordsubscriber/record_subscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index b5e895f..3e1c606 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -138,7 +138,7 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
-- 
2.43.0


From 7d13370856cd82c3c8436b899ca746508378e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 11/54] fix: subscription that failed to consume a record never
 reports being done

---
 pkg/recordsubscriber/record_subscriber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 3e1c606..3101b8a 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -91,16 +91,16 @@ func (s *recordSubscriber) Start() error {
 }
 
 func (s *recordSubscriber) work() {
+	defer close(s.finishChan)
+
 	for {
 		select {
 		case <-s.stopChan:
 			s.unsubscribe(s)
-			close(s.finishChan)
 			return
 
 		case <-s.ctx.Done():
 			s.unsubscribe(s)
-			close(s.finishChan)
 			return
 
 		case record := <-s.bufferedRecords:
-- 
2.43.0


From 4c6370587501342c9d9663b8b0d4cffbfba69521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 12/54] fix: slow subscriber of several aggregate types
 receives records after a gap

A subscriber that timed out was only removed from the aggregate type of the
record it missed, and could still receive later records of its other types.
---
 pkg/broadcast/broadcaster.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..fa38a87 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -130,7 +130,7 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	for subscriber := range b.allEventsSubscribers {
 		select {
 		case <-time.After(b.timeout):
-			delete(b.allEventsSubscribers, subscriber)
+			b.removeSubscriber(subscriber)
 			subscriber.Stop()
 
 		case subscriber.Receiver() <- record:
@@ -140,7 +140,7 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	for subscriber := range b.aggregateTypeSubscribers[record.AggregateType] {
 		select {
 		case <-time.After(b.timeout):
-			delete(b.aggregateTypeSubscribers[record.AggregateType], subscriber)
+			b.removeSubscriber(subscriber)
 			subscriber.Stop()
 
 		case subscriber.Receiver() <- record:
@@ -148,6 +148,15 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	}
 }
 
+// removeSubscriber makes sure nothing is sent after a record was missed.
+func (b *broadcaster) removeSubscriber(subscriber RecordSubscriber) {
+	delete(b.allEventsSubscribers, subscriber)
+
+	for _, subscribers := range b.aggregateTypeSubscribers {
+		delete(subscribers, subscriber)
+	}
+}
+
 func (b *broadcaster) Close() {
 	close(b.stopChan)
 }
-- 
2.43.0


From 0a841067005c612d9fb3b1e4c7d2d9d7ac395218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:01 +0000
Subject: [PATCH 13/54] fix: slow subscribers cut off the feed of all other
 WebSocket and gRPC clients

The broadcaster waited for each slow subscriber in turn. Two of them delayed a
server's broadcaster for twice the time the store waits for the server, so the
store dropped the server and none of its clients received live events again.
---
 pkg/broadcast/broadcaster.go | 38 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index fa38a87..e56092d 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -1,6 +1,7 @@
 package broadcast
 
 import (
+	"context"
 	"time"
 
 	"github.com/inklabs/rangedb"
@@ -127,24 +128,35 @@ func (b *broadcaster) start() {
 }
 
 func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
-	for subscriber := range b.allEventsSubscribers {
-		select {
-		case <-time.After(b.timeout):
-			b.removeSubscriber(subscriber)
-			subscriber.Stop()
+	ctx, cancel := context.WithTimeout(context.Background(), b.timeout)
+	defer cancel()
 
-		case subscriber.Receiver() <- record:
-		}
+	for subscriber := range b.allEventsSubscribers {
+		b.sendRecord(ctx, subscriber, record)
 	}
 
 	for subscriber := range b.aggregateTypeSubscribers[record.AggregateType] {
-		select {
-		case <-time.After(b.timeout):
-			b.removeSubscriber(subscriber)
-			subscriber.Stop()
+		b.sendRecord(ctx, subscriber, record)
+	}
+}
 
-		case subscriber.Receiver() <- record:
-		}
+// sendRecord waits for a subscriber to be ready. The time is shared by all
+// subscribers of a record, so that several slow ones do not add up to a delay
+// that makes this broadcaster slow for the one it receives records from.
+func (b *broadcaster) sendRecord(ctx context.Context, subscriber RecordSubscriber, record *rangedb.Record) {
+	select {
+	case subscriber.Receiver() <- record:
+		return
+
+	default:
+	}
+
+	select {
+	case <-ctx.Done():
+		b.removeSubscriber(subscriber)
+		subscriber.Stop()
+
+	case subscriber.Receiver() <- record:
 	}
 }
 
-- 
2.43.0


From 584e75051328fc8e500c47b0ac87c201ad5b7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 14/54] fix: using a closed broadcaster blocks forever

Subscribers of a stopped server could not unsubscribe, and a store whose events
were forwarded to it stopped making progress.
---
 pkg/broadcast/broadcaster.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index e56092d..a9fbf3d 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -67,35 +67,54 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+		select {
+		case b.subscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+		select {
+		case b.unsubscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+		}
 	}
 }
 
-- 
2.43.0


From 4132e9397dc96add0c70b64597f774f93377dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 15/54] fix: merged read drops the error of the iterator it
 reads from

---
 merge_record_iterators.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..da74f36 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -15,7 +15,7 @@ func (p *pipe) ReadNext() bool {
 		Record: p.recordIterator.Record(),
 		Err:    p.recordIterator.Err(),
 	}
-	return p.currentResultRecord.Record != nil
+	return p.currentResultRecord.Record != nil && p.currentResultRecord.Err == nil
 }
 
 func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
@@ -27,6 +27,7 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	resultRecords := make(chan ResultRecord)
 
 	go func() {
+		defer drain(recordIterators)
 		defer close(resultRecords)
 
 		var pipes []*pipe
@@ -34,6 +35,9 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if pipe.currentResultRecord.Err != nil {
+				resultRecords <- ResultRecord{Err: pipe.currentResultRecord.Err}
+				return
 			}
 		}
 
@@ -47,6 +51,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if err := pipes[i].currentResultRecord.Err; err != nil {
+					resultRecords <- ResultRecord{Err: err}
+					return
+				}
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +65,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if err := pipes[i].currentResultRecord.Err; err != nil {
+						resultRecords <- ResultRecord{Err: err}
+						return
+					}
 					pipes = remove(pipes, i)
 					break
 				}
@@ -67,6 +79,14 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	return NewRecordIterator(resultRecords)
 }
 
+// drain lets the sources of the iterators finish.
+func drain(recordIterators []RecordIterator) {
+	for _, recordIterator := range recordIterators {
+		for recordIterator.Next() {
+		}
+	}
+}
+
 func remove(s []*pipe, i int) []*pipe {
 	s[i] = s[len(s)-1]
 	return s[:len(s)-1]
-- 
2.43.0


From 2b6acae96becb7520a6e931253c04f692731ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 16/54] fix: reading an aggregate type named twice returns its
 events twice

---
 provider/inmemorystore/inmemory_store.go | 6 ++++++
 provider/leveldbstore/leveldb_store.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 125d21a..d64b914 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -108,7 +108,13 @@ func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 	}
 
 	var recordIterators []rangedb.RecordIterator
+	isRead := make(map[string]bool)
 	for _, aggregateType := range aggregateTypes {
+		if isRead[aggregateType] {
+			continue
+		}
+		isRead[aggregateType] = true
+
 		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
 	}
 
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index dce68fb..ac11d18 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -127,7 +127,13 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 	}
 
 	var recordIterators []rangedb.RecordIterator
+	isRead := make(map[string]bool)
 	for _, aggregateType := range aggregateTypes {
+		if isRead[aggregateType] {
+			continue
+		}
+		isRead[aggregateType] = true
+
 		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
 	}
 
-- 
2.43.0


From 4bea0a03822a5cccc9df2a318d6773b957d26602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:15 +0000
Subject: [PATCH 17/54] fix: exporting records ends as if complete when the
 source or the writer fails

The error with which the iterator ended and all write errors were dropped, also
in the event listings of the HTTP API.
---
 pkg/rangedbapi/api.go                         | 29 ++++++++++++++++---
 .../json_record_io_stream.go                  | 22 +++++++++++---
 .../msgpack_record_io_stream.go               |  9 +++++-
 .../ndjson_record_io_stream.go                | 17 +++++++----
 4 files changed, 63 insertions(+), 14 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index d23b6e4..0a7d302 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -160,7 +160,7 @@ func (a *api) eventsByStream(w http.ResponseWriter, r *http.Request) {
 	extension := mux.Vars(r)["extension"]
 
 	events := a.store.EventsByStream(r.Context(), 0, streamName)
-	a.writeEvents(w, events, extension)
+	a.writeEvents(w, &emptyIfNotFound{events}, extension)
 }
 
 func (a *api) eventsByAggregateType(w http.ResponseWriter, r *http.Request) {
@@ -316,25 +316,46 @@ func (a *api) listAggregateTypes(w http.ResponseWriter, _ *http.Request) {
 }
 
 func (a *api) writeEvents(w http.ResponseWriter, recordIterator rangedb.RecordIterator, extension string) {
+	var err error
+
 	switch extension {
 	case "json":
 		w.Header().Set(`Content-Type`, `application/json`)
 		errors := a.jsonRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-errors
 
 	case "ndjson":
 		w.Header().Set(`Content-Type`, `application/json; boundary=LF`)
 		errors := a.ndJSONRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-errors
 
 	case "msgpack":
 		w.Header().Set(`Content-Type`, `application/msgpack`)
 		base64Writer := base64.NewEncoder(base64.RawStdEncoding, w)
 		errors := a.msgpackRecordIoStream.Write(base64Writer, recordIterator)
-		<-errors
+		err = <-errors
 		_ = base64Writer.Close()
 
 	}
+
+	if err != nil {
+		a.logger.Printf("unable to write events: %v", err)
+		// The status was sent already: aborting tells the client that events are missing.
+		panic(http.ErrAbortHandler)
+	}
+}
+
+// emptyIfNotFound lists a stream that does not exist as a stream without events.
+type emptyIfNotFound struct {
+	rangedb.RecordIterator
+}
+
+func (i *emptyIfNotFound) Err() error {
+	err := i.RecordIterator.Err()
+	if err == rangedb.ErrStreamNotFound {
+		return nil
+	}
+	return err
 }
 
 type invalidInput struct {
diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..e14f89c 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -27,7 +27,10 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 	go func() {
 		defer close(errors)
 
-		_, _ = fmt.Fprint(writer, "[")
+		if _, err := fmt.Fprint(writer, "["); err != nil {
+			errors <- err
+			return
+		}
 
 		totalSaved := 0
 		for recordIterator.Next() {
@@ -43,14 +46,25 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			}
 
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, ",")
+				data = append([]byte(","), data...)
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			if _, err := writer.Write(data); err != nil {
+				errors <- err
+				return
+			}
 
 			totalSaved++
 		}
-		_, _ = fmt.Fprint(writer, "]")
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+			return
+		}
+
+		if _, err := fmt.Fprint(writer, "]"); err != nil {
+			errors <- err
+		}
 	}()
 
 	return errors
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..ecb6a02 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -43,7 +43,14 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 				return
 			}
 
-			_, _ = writer.Write(serializedRecord)
+			if _, err := writer.Write(serializedRecord); err != nil {
+				errors <- err
+				return
+			}
+		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
 		}
 	}()
 
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..59a6415 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -34,20 +34,27 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
-			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, "\n")
-			}
-
 			data, err := json.Marshal(recordIterator.Record())
 			if err != nil {
 				errors <- fmt.Errorf("failed marshalling event: %v", err)
 				return
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			if totalSaved > 0 {
+				data = append([]byte("\n"), data...)
+			}
+
+			if _, err := writer.Write(data); err != nil {
+				errors <- err
+				return
+			}
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
-- 
2.43.0


From c68b973433028b97147cf30a4842685262851d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 18/54] fix: importing a truncated or damaged record stream
 ends as if complete

---
 provider/jsonrecordiostream/json_record_io_stream.go  | 11 +++++++++++
 .../msgpackrecordiostream/msgpack_record_io_stream.go | 10 ++++++++--
 .../ndjsonrecordiostream/ndjson_record_io_stream.go   |  8 ++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index e14f89c..2751eda 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -107,6 +107,17 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err = decoder.Token()
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    err,
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index ecb6a02..5539b18 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -1,6 +1,7 @@
 package msgpackrecordiostream
 
 import (
+	"bufio"
 	"io"
 	"reflect"
 
@@ -63,14 +64,19 @@ func (s *msgpackRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 	go func() {
 		defer close(resultRecords)
 
-		decoder := msgpack.NewDecoder(reader)
+		bufferedReader := bufio.NewReader(reader)
+		decoder := msgpack.NewDecoder(bufferedReader)
 		decoder.UseJSONTag(true)
 
 		for {
+			if _, err := bufferedReader.Peek(1); err == io.EOF {
+				return
+			}
+
 			record, err := msgpackrecordserializer.UnmarshalRecord(decoder, s.eventIdentifier)
 			if err != nil {
 				if err == msgpackrecordserializer.ErrorEOF {
-					return
+					err = io.ErrUnexpectedEOF
 				}
 
 				resultRecords <- rangedb.ResultRecord{
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 59a6415..3413265 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -85,6 +85,14 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		_, err := decoder.Token()
+		if err != io.EOF {
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading record: %v", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
-- 
2.43.0


From 11e5220a4225a8149f1d0c8849799db68ad19320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:11 +0000
Subject: [PATCH 19/54] fix: msgpack serializer loses the data of raw events

---
 store.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store.go b/store.go
index 8dbeacb..15f6044 100644
--- a/store.go
+++ b/store.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+
+	"github.com/vmihailenco/msgpack/v4"
 )
 
 // Version for RangeDB.
@@ -194,4 +196,8 @@ func (e rawEvent) MarshalJSON() ([]byte, error) {
 	return json.Marshal(e.data)
 }
 
+func (e rawEvent) EncodeMsgpack(encoder *msgpack.Encoder) error {
+	return encoder.Encode(e.data)
+}
+
 var ErrStreamNotFound = fmt.Errorf("stream not found")
-- 
2.43.0


From 4ed7791a401053d18b912f554fcb017355a5c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 20/54] fix: HTTP API and gRPC saves round numbers above 2^53

---
 pkg/grpc/rangedbpb/translate.go  |  4 +++-
 pkg/grpc/rangedbserver/server.go | 22 ++++++++++++++++++----
 pkg/rangedbapi/api.go            |  4 +++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..9afb6f9 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -48,7 +48,9 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		decoder := json.NewDecoder(strings.NewReader(pbRecord.Metadata))
+		decoder.UseNumber()
+		err = decoder.Decode(&metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..dd2c8ca 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -1,6 +1,7 @@
 package rangedbserver
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -163,7 +164,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 	for _, event := range req.Events {
 		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		err := unmarshalUsingNumber(event.Data, &data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -175,7 +176,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			err = unmarshalUsingNumber(event.Metadata, &metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -218,7 +219,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 	for _, event := range req.Events {
 		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		err := unmarshalUsingNumber(event.Data, &data)
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +231,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			err = unmarshalUsingNumber(event.Metadata, &metadata)
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -356,6 +357,19 @@ func (s *rangeDBServer) broadcastRecord(stream streamSender, record *rangedb.Rec
 	return nil
 }
 
+// unmarshalUsingNumber keeps numbers as they were sent, which float64 can not.
+func unmarshalUsingNumber(jsonData string, v interface{}) error {
+	var rawMessage json.RawMessage
+	err := json.Unmarshal([]byte(jsonData), &rawMessage)
+	if err != nil {
+		return err
+	}
+
+	decoder := json.NewDecoder(bytes.NewReader(rawMessage))
+	decoder.UseNumber()
+	return decoder.Decode(v)
+}
+
 // PbRecordSender defines the interface for sending a protobuf record.
 type PbRecordSender interface {
 	Send(*rangedbpb.Record) error
diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 0a7d302..4368e23 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -265,7 +265,9 @@ func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 		Data          interface{} `json:"data"`
 		Metadata      interface{} `json:"metadata"`
 	}
-	err := json.NewDecoder(r.Body).Decode(&events)
+	decoder := json.NewDecoder(r.Body)
+	decoder.UseNumber()
+	err := decoder.Decode(&events)
 	if err != nil {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
-- 
2.43.0


From adde65174cf315b146599899a61481939fa4154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 21/54] fix: gRPC server ends failed reads as if they were
 complete

---
 pkg/grpc/rangedbserver/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index dd2c8ca..45bd31c 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -98,7 +98,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -145,7 +145,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
-- 
2.43.0


From ead052a9fdc4856f87b2afed12da37171fc4582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 22/54] fix: events saved right after connecting are missing
 from the remote live feed

---
 pkg/grpc/rangedbserver/server.go     | 5 +++++
 provider/remotestore/remote_store.go | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 45bd31c..8cf76e4 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -8,6 +8,7 @@ import (
 	"log"
 
 	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/metadata"
 	"google.golang.org/grpc/status"
 
 	"github.com/inklabs/rangedb"
@@ -283,6 +284,10 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
+	// The header tells the client that it receives all events saved from now on.
+	// It was already sent if this fails because a record went ahead of it.
+	_ = stream.SendHeader(metadata.MD{})
+
 	<-stream.Context().Done()
 
 	return nil
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index f55727e..ea7765a 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -356,6 +356,15 @@ func (s *remoteStore) listenForEvents() error {
 		return err
 	}
 
+	// The server sends its header once it has subscribed: events saved
+	// before that would be missing from the live feed.
+	_, err = events.Header()
+	if err != nil {
+		err = fmt.Errorf("failed to subscribe: %v", err)
+		log.Print(err)
+		return err
+	}
+
 	go func() {
 		recordIterator := s.readRecords(ctx, events)
 		for recordIterator.Next() {
-- 
2.43.0


From 8c3b0354883055b11026bba873e7066b1a7f1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 23/54] fix: cancelled remote read can end as if complete and
 abandoned reads leak

---
 provider/remotestore/remote_store.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index ea7765a..f4e4a90 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -316,24 +316,24 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 				}
 
 				if strings.Contains(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{Err: context.Canceled}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled)
 					return
 				}
 
 				if strings.Contains(err.Error(), rpcErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
 					return
 				}
 
 				log.Printf("failed to get record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
 			record, err := rangedbpb.ToRecord(pbRecord, s.serializer)
 			if err != nil {
 				log.Printf("failed converting to record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
 				return
 			}
 
@@ -343,7 +343,7 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 		}
 	}()
 
-	return rangedb.NewRecordIterator(resultRecords)
+	return rangedb.NewRecordIteratorContext(ctx, resultRecords)
 }
 
 func (s *remoteStore) listenForEvents() error {
-- 
2.43.0


From a2586660ed3de8e866051b82559e44a2a9babf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:10 +0000
Subject: [PATCH 24/54] fix: binding events while records are read crashes

---
 event_identifier.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/event_identifier.go b/event_identifier.go
index ed94f6c..a7e8431 100644
--- a/event_identifier.go
+++ b/event_identifier.go
@@ -2,9 +2,11 @@ package rangedb
 
 import (
 	"reflect"
+	"sync"
 )
 
 type eventIdentifier struct {
+	mux        sync.RWMutex
 	eventTypes map[string]reflect.Type
 }
 
@@ -16,12 +18,18 @@ func NewEventIdentifier() *eventIdentifier {
 }
 
 func (s *eventIdentifier) Bind(events ...Event) {
+	s.mux.Lock()
+	defer s.mux.Unlock()
+
 	for _, e := range events {
 		s.eventTypes[e.EventType()] = getType(e)
 	}
 }
 
 func (s *eventIdentifier) EventTypeLookup(eventTypeName string) (r reflect.Type, b bool) {
+	s.mux.RLock()
+	defer s.mux.RUnlock()
+
 	eventType, ok := s.eventTypes[eventTypeName]
 	return eventType, ok
 }
-- 
2.43.0


From 1464693f5c0b4851b60dd92b46fb5a27e3767dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 25/54] fix: decrypting malformed cipher text panics

---
 pkg/crypto/aes/cbc_pkcs5_padding.go              | 16 ++++++++++++----
 .../xchacha20poly1305/xchacha20poly1305.go       |  4 ++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..3337912 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,10 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(cipherText) == aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +99,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted)
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +108,11 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding < 1 || padding > aes.BlockSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
+	return value[:len(value)-padding], nil
 }
diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..97fa134 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -74,6 +74,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 		return nil, err
 	}
 
+	if len(sealedCipherText) < aead.NonceSize() {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonceSize := aead.NonceSize()
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
-- 
2.43.0


From fef7df2c91134149f53ab598bd04e74605e75175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 26/54] fix: concurrent first saves of a subject fail because
 the other one creates the key

---
 pkg/crypto/eventencryptor/event_encryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/eventencryptor/event_encryptor.go b/pkg/crypto/eventencryptor/event_encryptor.go
index 5ab1705..0ded0d4 100644
--- a/pkg/crypto/eventencryptor/event_encryptor.go
+++ b/pkg/crypto/eventencryptor/event_encryptor.go
@@ -62,6 +62,10 @@ func (e *engine) Encrypt(subjectID, data string) (string, error) {
 		}
 
 		err = e.keyStore.Set(subjectID, base64Key)
+		if err == crypto.ErrKeyExistsForSubjectID {
+			// A concurrent call was first
+			base64Key, err = e.keyStore.Get(subjectID)
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 0cf69f90507b8bff93b495c056e40239f4cade33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 27/54] fix: concurrent gets of a key not cached yet fail in
 the cached key store

---
 .../provider/cachekeystore/cache_keystore.go  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/provider/cachekeystore/cache_keystore.go b/pkg/crypto/provider/cachekeystore/cache_keystore.go
index d850f67..b98b3c9 100644
--- a/pkg/crypto/provider/cachekeystore/cache_keystore.go
+++ b/pkg/crypto/provider/cachekeystore/cache_keystore.go
@@ -24,7 +24,12 @@ func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 			return "", secondErr
 		}
 
-		return secondKey, c.first.Set(subjectID, secondKey)
+		err = c.cache(subjectID, secondKey)
+		if err != nil {
+			return "", err
+		}
+
+		return secondKey, nil
 	}
 
 	return key, nil
@@ -36,7 +41,26 @@ func (c *cacheKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	return c.first.Set(subjectID, key)
+	return c.cache(subjectID, key)
+}
+
+// cache saves the key to the first store, unless a concurrent call saved or deleted it already.
+func (c *cacheKeyStore) cache(subjectID, key string) error {
+	setErr := c.first.Set(subjectID, key)
+	if setErr == nil {
+		return nil
+	}
+
+	cachedKey, err := c.first.Get(subjectID)
+	if err == nil && cachedKey == key {
+		return nil
+	}
+
+	if err == crypto.ErrKeyWasDeleted {
+		return err
+	}
+
+	return setErr
 }
 
 func (c *cacheKeyStore) Delete(subjectID string) error {
-- 
2.43.0


From 92714abdae0178a16e51a97c971dc272b1ead920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 28/54] fix: decrypting records fail when looked at twice and
 hide their error until looked at

---
 .../decrypting_record_iterator.go             | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..15ffbc0 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -10,6 +10,7 @@ import (
 type decryptingRecordIterator struct {
 	parent         rangedb.RecordIterator
 	eventEncryptor crypto.EventEncryptor
+	current        *rangedb.Record
 	currentErr     error
 }
 
@@ -26,7 +27,7 @@ func (i *decryptingRecordIterator) Next() bool {
 		return false
 	}
 
-	return i.parent.Next()
+	return i.decryptCurrent(i.parent.Next())
 }
 
 func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
@@ -34,25 +35,35 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
-	return i.parent.NextContext(ctx)
+	return i.decryptCurrent(i.parent.NextContext(ctx))
 }
 
-func (i *decryptingRecordIterator) Record() *rangedb.Record {
-	record := i.parent.Record()
+// decryptCurrent decrypts the current record once, however often it is looked at.
+func (i *decryptingRecordIterator) decryptCurrent(hasRecord bool) bool {
+	i.current = nil
+	if !hasRecord {
+		return false
+	}
 
+	record := i.parent.Record()
 	if record == nil {
-		return nil
+		return true
 	}
 
 	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
 		err := i.eventEncryptor.Decrypt(rangedbEvent)
 		if err != nil {
 			i.currentErr = err
-			return nil
+			return true
 		}
 	}
 
-	return record
+	i.current = record
+	return true
+}
+
+func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	return i.current
 }
 
 func (i *decryptingRecordIterator) Err() error {
-- 
2.43.0


From 5c3735a06634615a21ffba037741cd90f3c04ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 29/54] fix: encrypting store encrypts the caller's events and
 decrypts records shared with other subscribers

---
 provider/encryptedstore/encrypted_store.go | 77 ++++++++++++++++++----
 1 file changed, 63 insertions(+), 14 deletions(-)

diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..739334e 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -2,6 +2,7 @@ package encryptedstore
 
 import (
 	"context"
+	"reflect"
 
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/crypto"
@@ -41,35 +42,83 @@ func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStr
 }
 
 func (e *encryptedStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedEventRecords, err := e.encrypt(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, encryptedEventRecords...)
 }
 
 func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedEventRecords, err := e.encrypt(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.Save(ctx, streamName, eventRecords...)
+	return e.parent.Save(ctx, streamName, encryptedEventRecords...)
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-	return e.parent.AllEventsSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+	return e.parent.AllEventsSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber))
 }
 
 func (e *encryptedStore) AggregateTypesSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber, aggregateTypes ...string) rangedb.RecordSubscription {
-	return e.parent.AggregateTypesSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor), aggregateTypes...)
+	return e.parent.AggregateTypesSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber), aggregateTypes...)
 }
 
 func (e *encryptedStore) TotalEventsInStream(ctx context.Context, streamName string) (uint64, error) {
 	return e.parent.TotalEventsInStream(ctx, streamName)
 }
+
+// encrypt leaves the supplied events as they are, so that they can be saved again.
+func (e *encryptedStore) encrypt(eventRecords []*rangedb.EventRecord) ([]*rangedb.EventRecord, error) {
+	var encryptedEventRecords []*rangedb.EventRecord
+
+	for _, eventRecord := range eventRecords {
+		event := eventRecord.Event
+		if eventCopy, ok := copyStruct(event).(rangedb.Event); ok {
+			event = eventCopy
+		}
+
+		err := e.eventEncryptor.Encrypt(event)
+		if err != nil {
+			return nil, err
+		}
+
+		encryptedEventRecords = append(encryptedEventRecords, &rangedb.EventRecord{
+			Event:    event,
+			Metadata: eventRecord.Metadata,
+		})
+	}
+
+	return encryptedEventRecords, nil
+}
+
+// decryptingSubscriber leaves records as they are, because they are shared by all subscribers of the parent.
+func (e *encryptedStore) decryptingSubscriber(subscriber rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	decryptingSubscriber := NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor)
+
+	return rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		recordCopy := *record
+		recordCopy.Data = copyStruct(record.Data)
+		decryptingSubscriber.Accept(&recordCopy)
+	})
+}
+
+// copyStruct returns a pointer to a copy of a struct, or of the struct pointed to.
+func copyStruct(value interface{}) interface{} {
+	original := reflect.ValueOf(value)
+	if original.Kind() == reflect.Ptr {
+		original = original.Elem()
+	}
+
+	if original.Kind() != reflect.Struct {
+		return value
+	}
+
+	structCopy := reflect.New(original.Type())
+	structCopy.Elem().Set(original)
+
+	return structCopy.Interface()
+}
-- 
2.43.0


From 26a5d718d5ebf8c30b075c8f7d1e097810dcb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 30/54] fix: loading a snapshot without totals makes the
 projection panic, and its total is read unlocked

---
 pkg/projection/aggregate_type_stats.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..bd8c824 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -2,6 +2,7 @@ package projection
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"sort"
 	"sync"
@@ -60,6 +61,8 @@ func (a *AggregateTypeStats) TotalEventsByAggregateType(aggregateType string) ui
 
 // TotalEvents returns the total number of received events.
 func (a *AggregateTypeStats) TotalEvents() uint64 {
+	a.mux.RLock()
+	defer a.mux.RUnlock()
 	return a.data.TotalEvents
 }
 
@@ -91,6 +94,10 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		return fmt.Errorf("invalid snapshot")
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From b3ca496ce58fcd18bd73fdc485e4e44466736922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:47 +0000
Subject: [PATCH 31/54] fix: reopen a LevelDB store that was killed while it
 was being created

---
 provider/leveldbstore/leveldb_store.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index ac11d18..9aa365d 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -11,6 +11,7 @@ import (
 	"time"
 
 	"github.com/syndtr/goleveldb/leveldb"
+	leveldberrors "github.com/syndtr/goleveldb/leveldb/errors"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
 	"github.com/syndtr/goleveldb/leveldb/opt"
 	"github.com/syndtr/goleveldb/leveldb/util"
@@ -80,6 +81,9 @@ func WithUUIDGenerator(uuidGenerator shortuuid.Generator) Option {
 // New constructs a levelDbStore.
 func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 	db, err := leveldb.OpenFile(dbFilePath, nil)
+	if leveldberrors.IsCorrupted(err) && isNeverCreated(dbFilePath) {
+		db, err = leveldb.RecoverFile(dbFilePath, nil)
+	}
 	if err != nil {
 		return nil, fmt.Errorf("failed opening db: %v", err)
 	}
@@ -100,6 +104,24 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 	return s, nil
 }
 
+// isNeverCreated returns true when creating the db was interrupted before anything could be stored.
+func isNeverCreated(dbFilePath string) bool {
+	files, err := ioutil.ReadDir(dbFilePath)
+	if err != nil {
+		return false
+	}
+
+	for _, file := range files {
+		switch file.Name() {
+		case "LOCK", "LOG", "LOG.old", "MANIFEST-000000", "CURRENT.0":
+		default:
+			return false
+		}
+	}
+
+	return true
+}
+
 func (s *levelDbStore) Stop() error {
 	s.mux.Lock()
 	defer s.mux.Unlock()
-- 
2.43.0


From a46197d3e61572f2f29c45580a6e0763c3d256bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:06 +0000
Subject: [PATCH 32/54] fix: vault key store: a removed or existing key is
 never replaced

Set created a new version of the secret when its first request failed, when
the key had been destroyed, or when another caller set a key meanwhile.
---
 .../vaultkeystore/hashicorp_vault_keystore.go | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 8fb9bb6..9ce4b92 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -75,13 +75,18 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 	}
 
 	_, err := h.Get(subjectID)
-	if err == nil {
+	if err == nil || err == crypto.ErrKeyWasDeleted {
 		return crypto.ErrKeyExistsForSubjectID
 	}
 
-	payload := dataPayload{Data: map[string]string{
-		"key": key,
-	}}
+	payload := dataPayload{
+		Options: map[string]int{
+			"cas": 0, // only if there is no version of this secret, not even a destroyed one
+		},
+		Data: map[string]string{
+			"key": key,
+		},
+	}
 	jsonString, err := json.Marshal(payload)
 	if err != nil {
 		return err
@@ -102,6 +107,10 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		body, _ := ioutil.ReadAll(response.Body)
 		log.Printf("%d: %s", response.StatusCode, body)
 
+		if response.StatusCode == http.StatusBadRequest && strings.Contains(string(body), "check-and-set") {
+			return crypto.ErrKeyExistsForSubjectID
+		}
+
 		return fmt.Errorf("unable to save")
 	}
 
@@ -131,7 +140,8 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 }
 
 type dataPayload struct {
-	Data map[string]string `json:"data"`
+	Options map[string]int    `json:"options"`
+	Data    map[string]string `json:"data"`
 }
 
 type secretResponse struct {
-- 
2.43.0


From 5108c209c6dcc6511b2735458bbb02d5685b094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:07 +0000
Subject: [PATCH 33/54] fix: DynamoDB key store: read keys consistently

An eventually consistent read may miss a key that was just set and still give
a key that was already deleted.
---
 pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
index 11fd14d..17a6f70 100644
--- a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
+++ b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
@@ -40,7 +40,8 @@ func (d *dynamoDBKeyStore) Get(subjectID string) (string, error) {
 				S: aws.String(subjectID),
 			},
 		},
-		TableName: aws.String(d.config.TableName),
+		TableName:      aws.String(d.config.TableName),
+		ConsistentRead: aws.Bool(true),
 		AttributesToGet: []*string{
 			aws.String("EncryptionKey"),
 			aws.String("DeletedAtTimestamp"),
-- 
2.43.0


From a29bbf46e91ed0e1f152abcc6d337642deecaebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:21 +0000
Subject: [PATCH 34/54] fix: refuse to save events without data as JSON
 records, which can never be read again

---
 .../json_record_serializer.go                     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index 15c3b28..cd3c0e2 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -26,7 +26,20 @@ func (s *jsonSerializer) Bind(events ...rangedb.Event) {
 }
 
 func (s *jsonSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
-	data, err := json.Marshal(record)
+	eventData, err := json.Marshal(record.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed marshalling record: %v", err)
+	}
+
+	if bytes.Equal(eventData, []byte("null")) {
+		// Deserialize rejects a record without event data
+		return nil, fmt.Errorf("failed marshalling record: missing event data")
+	}
+
+	newRecord := *record
+	newRecord.Data = json.RawMessage(eventData)
+
+	data, err := json.Marshal(newRecord)
 	if err != nil {
 		return nil, fmt.Errorf("failed marshalling record: %v", err)
 	}
-- 
2.43.0


From b7c1d678f4a6a5030fe0099bc3daf0ab8cd71a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:00 +0000
Subject: [PATCH 35/54] fix: JSON record streams could not be read back when a
 record has no data

---
 .../json_record_serializer.go                     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index cd3c0e2..6f87f72 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -51,7 +51,16 @@ func (s *jsonSerializer) Deserialize(serializedData []byte) (*rangedb.Record, er
 	decoder := json.NewDecoder(bytes.NewReader(serializedData))
 	decoder.UseNumber()
 
-	return UnmarshalRecord(decoder, s.eventIdentifier)
+	record, err := UnmarshalRecord(decoder, s.eventIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	if record.Data == nil {
+		return nil, fmt.Errorf("failed unmarshalling event within record: %v", io.EOF)
+	}
+
+	return record, nil
 }
 
 func (s *jsonSerializer) EventTypeLookup(eventTypeName string) (reflect.Type, bool) {
@@ -71,6 +80,10 @@ func UnmarshalRecord(decoder *json.Decoder, eventTypeIdentifier rangedb.EventTyp
 		return nil, fmt.Errorf("failed unmarshalling record: %v", err)
 	}
 
+	if record.Data == nil {
+		return &record, nil
+	}
+
 	data, err := DecodeJsonData(record.EventType, bytes.NewReader(rawEvent), eventTypeIdentifier)
 	if err != nil {
 		return nil, fmt.Errorf("failed unmarshalling event within record: %v", err)
-- 
2.43.0


From 0b4c8238be3ed6b92a71529bae4751e1b3e1a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 36/54] fix: commands are decided by aggregates that still hold
 the state of other streams

---
 pkg/cqrs/cqrs.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pkg/cqrs/cqrs.go b/pkg/cqrs/cqrs.go
index db0e473..31f3096 100644
--- a/pkg/cqrs/cqrs.go
+++ b/pkg/cqrs/cqrs.go
@@ -28,7 +28,7 @@ type Aggregate interface {
 
 type cqrs struct {
 	store      rangedb.Store
-	aggregates map[string]Aggregate
+	aggregates map[string]func() Aggregate
 	logger     *log.Logger
 }
 
@@ -43,22 +43,40 @@ func WithLogger(logger *log.Logger) Option {
 }
 
 // WithAggregates is a functional option to inject an aggregate command handler.
+//
+// The aggregate handles every command it is registered for. If it keeps state
+// between Load and Handle use WithAggregateFactories.
 func WithAggregates(aggregates ...Aggregate) Option {
 	return func(c *cqrs) {
 		for _, aggregate := range aggregates {
-			for _, commandType := range aggregate.CommandTypes() {
-				c.aggregates[commandType] = aggregate
-			}
+			aggregate := aggregate
+			c.register(func() Aggregate { return aggregate })
 		}
 	}
 }
 
+// WithAggregateFactories is a functional option to inject aggregate command handlers,
+// each constructed anew for every command.
+func WithAggregateFactories(factories ...func() Aggregate) Option {
+	return func(c *cqrs) {
+		for _, factory := range factories {
+			c.register(factory)
+		}
+	}
+}
+
+func (c *cqrs) register(factory func() Aggregate) {
+	for _, commandType := range factory().CommandTypes() {
+		c.aggregates[commandType] = factory
+	}
+}
+
 // New constructs an event sourced CQRS application
 func New(store rangedb.Store, options ...Option) *cqrs {
 	cqrs := &cqrs{
 		store:      store,
 		logger:     log.New(ioutil.Discard, "", 0),
-		aggregates: make(map[string]Aggregate),
+		aggregates: make(map[string]func() Aggregate),
 	}
 
 	for _, option := range options {
@@ -71,12 +89,13 @@ func New(store rangedb.Store, options ...Option) *cqrs {
 func (c *cqrs) Dispatch(command Command) []rangedb.Event {
 	var preHandlerEvents []rangedb.Event
 
-	commandHandler, ok := c.aggregates[command.CommandType()]
+	newCommandHandler, ok := c.aggregates[command.CommandType()]
 	if !ok {
 		c.logger.Printf("command handler not found for: %s", command.CommandType())
 		return preHandlerEvents
 	}
 
+	commandHandler := newCommandHandler()
 	ctx := context.Background()
 	streamName := rangedb.GetEventStream(command)
 	eventStream := c.store.EventsByStream(ctx, 0, streamName)
-- 
2.43.0


From 4d8a64de802fe83c79f3d7b78f2f8ca8dc647c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:18 +0000
Subject: [PATCH 37/54] fix: links of the web UI lead nowhere for names with
 reserved characters

---
 pkg/rangedbui/functions.go                          | 2 ++
 pkg/rangedbui/templates/aggregate-type-live.gohtml  | 8 ++++----
 pkg/rangedbui/templates/aggregate-type.gohtml       | 2 +-
 pkg/rangedbui/templates/aggregate-types-live.gohtml | 2 +-
 pkg/rangedbui/templates/aggregate-types.gohtml      | 2 +-
 pkg/rangedbui/templates/layout/records.gohtml       | 4 ++--
 pkg/rangedbui/ui.go                                 | 5 +++--
 7 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/rangedbui/functions.go b/pkg/rangedbui/functions.go
index 8ff1359..85d669c 100644
--- a/pkg/rangedbui/functions.go
+++ b/pkg/rangedbui/functions.go
@@ -3,6 +3,7 @@ package rangedbui
 import (
 	"encoding/json"
 	"html/template"
+	"net/url"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -15,6 +16,7 @@ var FuncMap = template.FuncMap{
 	"formatDate":   formatDate,
 	"formatJson":   formatJson,
 	"formatUint64": formatUint64,
+	"pathEscape":   url.PathEscape,
 	"rangeDBVersion": func() string {
 		return rangedb.Version
 	},
diff --git a/pkg/rangedbui/templates/aggregate-type-live.gohtml b/pkg/rangedbui/templates/aggregate-type-live.gohtml
index 5acdef8..412b615 100644
--- a/pkg/rangedbui/templates/aggregate-type-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type-live.gohtml
@@ -13,7 +13,7 @@
             <nav aria-label="You are here:" role="navigation">
                 <ul class="breadcrumbs">
                     <li><a href="/aggregate-types/live">Aggregate</a></li>
-                    <li><a href="/a/{{.AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
+                    <li><a href="/a/{{.AggregateTypeInfo.Name | pathEscape}}">{{.AggregateTypeInfo.Name}}</a></li>
                     <li>
                         Realtime (${ Number(totalEvents).toLocaleString() })
                     </li>
@@ -37,8 +37,8 @@
                     <td>${record.globalSequenceNumber}</td>
                     <td>${record.streamSequenceNumber}</td>
                     <td>${record.eventType}</td>
-                    <td><a :href="'/a/' + record.aggregateType + '/live'">${record.aggregateType}</a></td>
-                    <td><a :href="'/s/' + record.streamName">${record.streamName}</a></td>
+                    <td><a :href="'/a/' + encodeURIComponent(record.aggregateType) + '/live'">${record.aggregateType}</a></td>
+                    <td><a :href="'/s/' + encodeURIComponent(record.streamName)">${record.streamName}</a></td>
                     <td class="date">${formatDate(record.insertTimestamp)}</td>
                     <td class="event-data">${record.data}</td>
                 </tr>
@@ -69,7 +69,7 @@
                 return new Intl.DateTimeFormat('default', {dateStyle: 'medium', timeStyle: 'long'}).format(date);
             },
             connect() {
-                let ws = new WebSocket('ws://{{.UIHost}}/live/a/{{.AggregateTypeInfo.Name}}');
+                let ws = new WebSocket('ws://{{.UIHost}}/live/a/{{.AggregateTypeInfo.Name | pathEscape}}');
                 ws.onmessage = (event) => {
                     if (this.wasDisconnected) {
                         this.records = [];
diff --git a/pkg/rangedbui/templates/aggregate-type.gohtml b/pkg/rangedbui/templates/aggregate-type.gohtml
index 1f350ba..2ab2dec 100644
--- a/pkg/rangedbui/templates/aggregate-type.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type.gohtml
@@ -14,7 +14,7 @@
                             {{.AggregateTypeInfo.Name}} ({{.AggregateTypeInfo.TotalEvents | formatUint64}})
                         </li>
                         <li>
-                            <a href="/a/{{.AggregateTypeInfo.Name}}/live">Realtime</a>
+                            <a href="/a/{{.AggregateTypeInfo.Name | pathEscape}}/live">Realtime</a>
                         </li>
                     </ul>
                 </nav>
diff --git a/pkg/rangedbui/templates/aggregate-types-live.gohtml b/pkg/rangedbui/templates/aggregate-types-live.gohtml
index e383d91..12bb34c 100644
--- a/pkg/rangedbui/templates/aggregate-types-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types-live.gohtml
@@ -29,7 +29,7 @@
                     </thead>
                     <tbody>
                     <tr v-for="aggregateType in aggregateTypes" :key="aggregateType.Name">
-                        <td><a :href="'/a/' + aggregateType.Name + '/live'">${aggregateType.Name}</a></td>
+                        <td><a :href="'/a/' + encodeURIComponent(aggregateType.Name) + '/live'">${aggregateType.Name}</a></td>
                         <td>${ Number(aggregateType.TotalEvents).toLocaleString() }</td>
                     </tr>
                     </tbody>
diff --git a/pkg/rangedbui/templates/aggregate-types.gohtml b/pkg/rangedbui/templates/aggregate-types.gohtml
index 613975b..a7ea7e3 100644
--- a/pkg/rangedbui/templates/aggregate-types.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types.gohtml
@@ -27,7 +27,7 @@
                     <tbody>
                     {{range .AggregateTypes}}
                     <tr>
-                        <td><a href="/a/{{.Name}}">{{.Name}}</a></td>
+                        <td><a href="/a/{{.Name | pathEscape}}">{{.Name}}</a></td>
                         <td>{{.TotalEvents | formatUint64}}</td>
                     </tr>
                     {{end}}
diff --git a/pkg/rangedbui/templates/layout/records.gohtml b/pkg/rangedbui/templates/layout/records.gohtml
index cd4ac2c..03eedb6 100644
--- a/pkg/rangedbui/templates/layout/records.gohtml
+++ b/pkg/rangedbui/templates/layout/records.gohtml
@@ -19,8 +19,8 @@
             <td>{{.GlobalSequenceNumber}}</td>
             <td>{{.StreamSequenceNumber}}</td>
             <td>{{.EventType}}</td>
-            <td><a href="/a/{{.AggregateType}}">{{.AggregateType}}</a></td>
-            <td><a href="/s/{{.StreamName}}">{{.StreamName}}</a></td>
+            <td><a href="/a/{{.AggregateType | pathEscape}}">{{.AggregateType}}</a></td>
+            <td><a href="/s/{{.StreamName | pathEscape}}">{{.StreamName}}</a></td>
             <td class="date">{{formatDate .InsertTimestamp "Jan 02, 2006 15:04:05 UTC"}}</td>
             <td class="event-data">{{formatJson .Data}}</td>
         </tr>
diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 071a175..9abced1 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/gorilla/handlers"
@@ -189,7 +190,7 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/a/%s", aggregateTypeName)
+	baseURI := "/a/" + url.PathEscape(aggregateTypeName)
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 
 	a.renderWithValues(w, "aggregate-type.gohtml", aggregateTypeTemplateVars{
@@ -229,7 +230,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/s/%s", streamName)
+	baseURI := "/s/" + url.PathEscape(streamName)
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
 		if errors.Is(err, context.Canceled) {
-- 
2.43.0


From bcc93c6f8269c473c54d618a8f1bebe97365780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 38/54] fix: web UI pages of aggregate types with digits or
 other characters are not found

---
 pkg/rangedbui/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 9abced1..a864244 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -90,7 +90,7 @@ func New(
 
 func (a *webUI) initRoutes() {
 	const streamName = "{streamName}"
-	const aggregateType = "{aggregateType:[a-zA-Z-]+}"
+	const aggregateType = "{aggregateType}"
 	router := mux.NewRouter().StrictSlash(true)
 
 	main := router.PathPrefix("/").Subrouter()
-- 
2.43.0


From c0fd9b2c5fd940e738da0c769bfe0b4151fe2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 39/54] fix: web UI pages that could not be read completely are
 shown as if complete

---
 pkg/rangedbui/ui.go | 75 +++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index a864244..4eb0a92 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -174,13 +174,13 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	globalSequenceNumber := pagination.CurrentIndex
-	records := rangedb.ReadNRecords(
-		pagination.ItemsPerPage+1,
-		func() (rangedb.RecordIterator, context.CancelFunc) {
-			ctx, done := context.WithCancel(r.Context())
-			return a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName), done
-		},
-	)
+	records, err := readPage(r.Context(), pagination, func(ctx context.Context) rangedb.RecordIterator {
+		return a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName)
+	})
+	if err != nil {
+		a.renderReadError(w, err)
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -214,13 +214,13 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	streamSequenceNumber := pagination.CurrentIndex
-	records := rangedb.ReadNRecords(
-		pagination.ItemsPerPage+1,
-		func() (rangedb.RecordIterator, context.CancelFunc) {
-			ctx, done := context.WithCancel(r.Context())
-			return a.store.EventsByStream(ctx, streamSequenceNumber, streamName), done
-		},
-	)
+	records, err := readPage(r.Context(), pagination, func(ctx context.Context) rangedb.RecordIterator {
+		return a.store.EventsByStream(ctx, streamSequenceNumber, streamName)
+	})
+	if err != nil {
+		a.renderReadError(w, err)
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -233,12 +233,7 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	baseURI := "/s/" + url.PathEscape(streamName)
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
-		if errors.Is(err, context.Canceled) {
-			http.Error(w, "Request Timeout", http.StatusRequestTimeout)
-			return
-		}
-
-		http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+		a.renderReadError(w, err)
 		return
 	}
 
@@ -252,6 +247,46 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	})
 }
 
+// readPage reads the records of a page, and one more if there is a next page.
+func readPage(
+	ctx context.Context,
+	pagination paging.Pagination,
+	read func(ctx context.Context) rangedb.RecordIterator,
+) ([]*rangedb.Record, error) {
+	ctx, done := context.WithCancel(ctx)
+	recordIterator := read(ctx)
+
+	var records []*rangedb.Record
+	for len(records) <= int(pagination.ItemsPerPage) && recordIterator.Next() {
+		if recordIterator.Err() != nil {
+			break
+		}
+
+		records = append(records, recordIterator.Record())
+	}
+
+	err := recordIterator.Err()
+
+	done()
+	for recordIterator.Next() {
+	}
+
+	if err != nil && !errors.Is(err, rangedb.ErrStreamNotFound) {
+		return nil, err
+	}
+
+	return records, nil
+}
+
+func (a *webUI) renderReadError(w http.ResponseWriter, err error) {
+	if errors.Is(err, context.Canceled) {
+		http.Error(w, "Request Timeout", http.StatusRequestTimeout)
+		return
+	}
+
+	http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+}
+
 func (a *webUI) aggregateTypeLive(w http.ResponseWriter, r *http.Request) {
 	aggregateTypeName := mux.Vars(r)["aggregateType"]
 
-- 
2.43.0


From 332f10f38be89ccd48d09626b39d3d728e1e5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:09 +0000
Subject: [PATCH 40/54] fix: live feeds of the web UI miss events saved right
 after the connection is established

---
 pkg/rangedbui/ui.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 4eb0a92..cfbb02a 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -329,6 +329,10 @@ type RecordEnvelope struct {
 func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Request) {
 	aggregateTypeName := mux.Vars(r)["aggregateType"]
 
+	// Read before the client is connected, so that no event saved from then on is missed.
+	latestGlobalSequenceNumber := a.aggregateTypeStats.LatestGlobalSequenceNumber()
+	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
+
 	conn, err := a.upgrader.Upgrade(w, r, nil)
 	if err != nil {
 		http.Error(w, "unable to upgrade websocket connection", http.StatusBadRequest)
@@ -338,8 +342,6 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 
 	// keepAlive(conn, 1*time.Minute)
 
-	latestGlobalSequenceNumber := a.aggregateTypeStats.LatestGlobalSequenceNumber()
-	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 	ctx, cancel := context.WithCancel(r.Context())
 
 	recordSubscriber := rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
-- 
2.43.0


From 7db8620d7015c834ce0f6ccf5b27f86ac5d6ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:41 +0000
Subject: [PATCH 41/54] fix: HTTP API and WebSocket feeds can not be asked for
 aggregate types with digits or other characters

---
 pkg/rangedbapi/api.go          | 2 +-
 pkg/rangedbws/websocket_api.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index 4368e23..b09b128 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -101,7 +101,7 @@ func (a *api) initRoutes() {
 	router.HandleFunc("/save-events/"+streamName, a.saveEvents)
 	router.HandleFunc("/all-events"+extension, a.allEvents)
 	router.HandleFunc("/events-by-stream/"+streamName+extension, a.eventsByStream)
-	router.HandleFunc("/events-by-aggregate-type/{aggregateType:[a-zA-Z-,]+}"+extension, a.eventsByAggregateType)
+	router.HandleFunc("/events-by-aggregate-type/{aggregateType}"+extension, a.eventsByAggregateType)
 	router.HandleFunc("/list-aggregate-types", a.listAggregateTypes)
 	a.handler = handlers.CompressHandler(router)
 }
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 64bca09..cade1f0 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -82,7 +82,7 @@ func New(options ...Option) (*websocketAPI, error) {
 func (a *websocketAPI) initRoutes() {
 	router := mux.NewRouter().StrictSlash(true)
 	router.HandleFunc("/events", a.SubscribeToAllEvents)
-	router.HandleFunc("/events/{aggregateType:[a-zA-Z-,]+}", a.SubscribeToEventsByAggregateTypes)
+	router.HandleFunc("/events/{aggregateType}", a.SubscribeToEventsByAggregateTypes)
 	a.handler = router
 }
 
-- 
2.43.0


From 730dfe5c21c76d7ae4aadcaaf3f90591f54c132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:30 +0000
Subject: [PATCH 42/54] fix: vault key store: subjects whose ids differ in ?, #
 or % shared a key

---
 .../vaultkeystore/hashicorp_vault_keystore.go | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 9ce4b92..513b456 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -4,9 +4,11 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
+	"net/url"
 	"strings"
 	"time"
 
@@ -35,7 +37,7 @@ func New(config Config) (*hashicorpVaultKeyStore, error) {
 }
 
 func (h *hashicorpVaultKeyStore) Get(subjectID string) (string, error) {
-	request, err := http.NewRequest(http.MethodGet, h.getPath(subjectID), nil)
+	request, err := newRequest(http.MethodGet, h.getPath(""), subjectID, nil)
 	if err != nil {
 		return "", err
 	}
@@ -92,7 +94,7 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	request, err := http.NewRequest(http.MethodPost, h.getPath(subjectID), bytes.NewReader(jsonString))
+	request, err := newRequest(http.MethodPost, h.getPath(""), subjectID, bytes.NewReader(jsonString))
 	if err != nil {
 		return err
 	}
@@ -118,7 +120,7 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 }
 
 func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
-	request, err := http.NewRequest(http.MethodPost, h.getDestroyPath(subjectID), strings.NewReader(deleteAllHashiVersionsJSON))
+	request, err := newRequest(http.MethodPost, h.getDestroyPath(""), subjectID, strings.NewReader(deleteAllHashiVersionsJSON))
 	if err != nil {
 		return err
 	}
@@ -165,6 +167,23 @@ type secretResponse struct {
 	Auth     interface{} `json:"auth"`
 }
 
+// newRequest addresses the secret of a subject, whose id may contain ?, # and %.
+func newRequest(method, path, subjectID string, body io.Reader) (*http.Request, error) {
+	request, err := http.NewRequest(method, path+subjectID, body)
+	if err != nil {
+		return nil, err
+	}
+
+	secretURL, err := url.Parse(path)
+	if err != nil {
+		return nil, err
+	}
+	secretURL.Path += subjectID
+	request.URL = secretURL
+
+	return request, nil
+}
+
 func (h *hashicorpVaultKeyStore) getPath(subjectID string) string {
 	return fmt.Sprintf("%s/v1/secret/data/%s", h.config.Address, subjectID)
 }
-- 
2.43.0


From bbce2e8bf186af0b86535f13c0cc4fccc6242cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:14 +0000
Subject: [PATCH 43/54] fix: event generator: personal data declared together
 with another field, or in a quoted tag, is not encrypted

---
 pkg/eventparser/event_parser.go | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 6a254ea..81fe40b 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -6,7 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
-	"strings"
+	"strconv"
 
 	"github.com/fatih/structtag"
 )
@@ -56,8 +56,10 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 					continue
 				}
 
-				fieldName := field.Names[0].String()
-				tagString := strings.Replace(field.Tag.Value, "`", "", 2)
+				tagString, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					continue
+				}
 				tags, err := structtag.Parse(tagString)
 				if err != nil {
 					continue
@@ -68,19 +70,23 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 					continue
 				}
 
-				switch encryptTag.Value() {
-				case "subject-id":
-					subjectID = fieldName
-
-				case "personal-data":
-					serializedTag, err := tags.Get("serialized")
-					if err != nil {
-						personalDataFields = append(personalDataFields, fieldName)
-					} else {
-						if serializedFields == nil {
-							serializedFields = make(map[string]string)
+				for _, name := range field.Names {
+					fieldName := name.String()
+
+					switch encryptTag.Value() {
+					case "subject-id":
+						subjectID = fieldName
+
+					case "personal-data":
+						serializedTag, err := tags.Get("serialized")
+						if err != nil {
+							personalDataFields = append(personalDataFields, fieldName)
+						} else {
+							if serializedFields == nil {
+								serializedFields = make(map[string]string)
+							}
+							serializedFields[serializedTag.Name] = fieldName
 						}
-						serializedFields[serializedTag.Name] = fieldName
 					}
 				}
 			}
-- 
2.43.0


From a7aa51ef839d511da7ebf30b2ed4e6fbea807341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:14 +0000
Subject: [PATCH 44/54] fix: event generator: personal data that can not be
 encrypted is stored as it is without an error

---
 pkg/eventparser/event_parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 81fe40b..bb18cfb 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -85,12 +85,19 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 							if serializedFields == nil {
 								serializedFields = make(map[string]string)
 							}
+							if _, ok := serializedFields[serializedTag.Name]; ok {
+								v.err = fmt.Errorf("more than one source for serialized personal data in %s", serializedTag.Name)
+							}
 							serializedFields[serializedTag.Name] = fieldName
 						}
 					}
 				}
 			}
 
+			if subjectID == "" && len(personalDataFields)+len(serializedFields) > 0 {
+				v.err = fmt.Errorf("no subject-id for personal data in %s", n.Name)
+			}
+
 			for _, field := range value.Fields.List {
 				if len(field.Names) == 0 {
 					continue
-- 
2.43.0


From 2422a1af1fe6f6f410774c63c4def008ea730761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 45/54] fix: generators: names that begin with a letter outside
 ASCII lead to invalid code

---
 pkg/aggregategenerator/write_aggregate.go | 3 ++-
 pkg/eventparser/event_writer.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/aggregategenerator/write_aggregate.go b/pkg/aggregategenerator/write_aggregate.go
index bee0cfc..2c69fd2 100644
--- a/pkg/aggregategenerator/write_aggregate.go
+++ b/pkg/aggregategenerator/write_aggregate.go
@@ -6,6 +6,7 @@ import (
 	"text/template"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 var NowFunc = time.Now
@@ -35,7 +36,7 @@ type templateData struct {
 
 func lcFirst(str string) string {
 	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+		return string(unicode.ToLower(v)) + str[i+utf8.RuneLen(v):]
 	}
 	return ""
 }
diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index c551511..21e6425 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -6,6 +6,7 @@ import (
 	"text/template"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 var NowFunc = time.Now
@@ -49,7 +50,7 @@ type templateData struct {
 
 func lcFirst(str string) string {
 	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+		return string(unicode.ToLower(v)) + str[i+utf8.RuneLen(v):]
 	}
 	return ""
 }
-- 
2.43.0


From ed290dda62c7a0605934c94a7b5348ec6d2a2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 46/54] fix: event generator: personal data in fields named
 like a keyword or a local variable leads to invalid code

---
 pkg/eventparser/event_writer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index 21e6425..c154e4a 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -2,6 +2,7 @@ package eventparser
 
 import (
 	"fmt"
+	"go/token"
 	"io"
 	"text/template"
 	"time"
@@ -55,8 +56,24 @@ func lcFirst(str string) string {
 	return ""
 }
 
+// localName returns the name of the local variable for a field.
+func localName(fieldName string) string {
+	name := lcFirst(fieldName)
+
+	switch name {
+	case "e", "err", "encryptor", "crypto", "strconv", "nil":
+		return name + "Value"
+	}
+
+	if token.Lookup(name).IsKeyword() {
+		return name + "Value"
+	}
+
+	return name
+}
+
 var funcMap = template.FuncMap{
-	"LcFirst": lcFirst,
+	"LcFirst": localName,
 }
 
 var fileTemplate = template.Must(template.New("").Funcs(funcMap).Parse(`// Code generated by go generate; DO NOT EDIT.
-- 
2.43.0


From 10a1b6ab10340ac5d1ba2657151e4f0ef7d0b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:31 +0000
Subject: [PATCH 47/54] fix: a subscriber given up while registering receives
 records after a gap

---
 pkg/recordsubscriber/record_subscriber.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 3101b8a..2d90688 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -104,6 +104,12 @@ func (s *recordSubscriber) work() {
 			return
 
 		case record := <-s.bufferedRecords:
+			if s.ctx.Err() != nil {
+				// Records may be missing before this one.
+				s.unsubscribe(s)
+				return
+			}
+
 			if s.recordHasAlreadyBeenSent(record) {
 				continue
 			}
-- 
2.43.0


From 53a99cfa062b2c6ca74429adcadecc5e982e9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:26 +0000
Subject: [PATCH 48/54] fix: LevelDB store can not be stopped while a read is
 abandoned

---
 provider/leveldbstore/leveldb_store.go | 62 +++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 9aa365d..33c9c5c 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -8,7 +8,6 @@ import (
 	"io/ioutil"
 	"log"
 	"sync"
-	"time"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	leveldberrors "github.com/syndtr/goleveldb/leveldb/errors"
@@ -45,6 +44,9 @@ type levelDbStore struct {
 	mux    sync.RWMutex
 	reads  sync.WaitGroup
 	db     *leveldb.DB
+
+	stopChan chan struct{}
+	stopOnce sync.Once
 }
 
 // Option defines functional option parameters for levelDbStore.
@@ -95,6 +97,7 @@ func New(dbFilePath string, options ...Option) (*levelDbStore, error) {
 		logger:        log.New(ioutil.Discard, "", 0),
 		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 		db:            db,
+		stopChan:      make(chan struct{}),
 	}
 
 	for _, option := range options {
@@ -125,6 +128,7 @@ func isNeverCreated(dbFilePath string) bool {
 func (s *levelDbStore) Stop() error {
 	s.mux.Lock()
 	defer s.mux.Unlock()
+	s.stopOnce.Do(func() { close(s.stopChan) })
 	s.reads.Wait()
 	return s.db.Close()
 }
@@ -414,6 +418,42 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
+// readContext is the context of a read that ends with an error when the store is stopped.
+type readContext struct {
+	context.Context
+	isStopped bool
+}
+
+func (c *readContext) Err() error {
+	if c.isStopped {
+		return leveldb.ErrClosed
+	}
+
+	return c.Context.Err()
+}
+
+// publish returns false when nobody waits for more results.
+func (s *levelDbStore) publish(ctx *readContext, resultRecords chan<- rangedb.ResultRecord, resultRecord rangedb.ResultRecord) bool {
+	select {
+	case <-ctx.Done():
+		return false
+
+	default:
+	}
+
+	select {
+	case <-ctx.Done():
+		return false
+
+	case <-s.stopChan:
+		ctx.isStopped = true
+		return false
+
+	case resultRecords <- resultRecord:
+		return true
+	}
+}
+
 // getEventsByPrefix reads from a snapshot taken while the caller holds the mutex.
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
 	snapshot, err := s.db.GetSnapshot()
@@ -421,6 +461,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		return rangedb.NewRecordIteratorWithError(err)
 	}
 
+	readCtx := &readContext{Context: ctx}
 	resultRecords := make(chan rangedb.ResultRecord)
 	s.reads.Add(1)
 
@@ -443,7 +484,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
+				s.publish(readCtx, resultRecords, rangedb.ResultRecord{Err: err})
 				return
 			}
 
@@ -451,23 +492,23 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 				continue
 			}
 
-			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, time.Second) {
+			if !s.publish(readCtx, resultRecords, rangedb.ResultRecord{Record: record}) {
 				return
 			}
 		}
 
 		if err := iter.Error(); err != nil {
-			rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
+			s.publish(readCtx, resultRecords, rangedb.ResultRecord{Err: err})
 			return
 		}
 
 		if cnt == 0 {
-			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound)
+			s.publish(readCtx, resultRecords, rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound})
 			return
 		}
 	}()
 
-	return rangedb.NewRecordIteratorContext(ctx, resultRecords)
+	return rangedb.NewRecordIteratorContext(readCtx, resultRecords)
 }
 
 // getEventsByLookup reads from a snapshot taken while the caller holds the mutex.
@@ -477,6 +518,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		return rangedb.NewRecordIteratorWithError(err)
 	}
 
+	readCtx := &readContext{Context: ctx}
 	resultRecords := make(chan rangedb.ResultRecord)
 	s.reads.Add(1)
 
@@ -505,7 +547,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			record, err := s.getRecordByLookup(snapshot, targetKey, iter)
 			if err != nil {
-				rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
+				s.publish(readCtx, resultRecords, rangedb.ResultRecord{Err: err})
 				return
 			}
 
@@ -513,17 +555,17 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				continue
 			}
 
-			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, time.Second) {
+			if !s.publish(readCtx, resultRecords, rangedb.ResultRecord{Record: record}) {
 				return
 			}
 		}
 
 		if err := iter.Error(); err != nil {
-			rangedb.PublishErrorOrCancel(ctx, resultRecords, err)
+			s.publish(readCtx, resultRecords, rangedb.ResultRecord{Err: err})
 		}
 	}()
 
-	return rangedb.NewRecordIteratorContext(ctx, resultRecords)
+	return rangedb.NewRecordIteratorContext(readCtx, resultRecords)
 }
 
 func (s *levelDbStore) getRecordByLookup(snapshot *leveldb.Snapshot, targetKey []byte, iter iterator.Iterator) (*rangedb.Record, error) {
-- 
2.43.0


From 922e53644d3a2db26398348a0e35314f4ce06ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:05 +0000
Subject: [PATCH 49/54] fix: gRPC clients that are cut off wait for events they
 will not receive

---
 pkg/grpc/rangedbserver/server.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 8cf76e4..0e15a65 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -288,9 +288,7 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 	// It was already sent if this fails because a record went ahead of it.
 	_ = stream.SendHeader(metadata.MD{})
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitUntilDone(stream.Context(), subscriber.Done())
 }
 
 func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsRequest, stream rangedbpb.RangeDB_SubscribeToEventsServer) error {
@@ -309,9 +307,7 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitUntilDone(stream.Context(), subscriber.Done())
 }
 
 func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.SubscribeToEventsByAggregateTypeRequest, stream rangedbpb.RangeDB_SubscribeToEventsByAggregateTypeServer) error {
@@ -331,9 +327,19 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	return waitUntilDone(stream.Context(), subscriber.Done())
+}
 
-	return nil
+// waitUntilDone waits until a client is gone, or its subscription has ended. A
+// client must not wait for events it will not receive.
+func waitUntilDone(ctx context.Context, subscriptionDone <-chan struct{}) error {
+	select {
+	case <-ctx.Done():
+		return nil
+
+	case <-subscriptionDone:
+		return status.Error(codes.Aborted, "subscription ended")
+	}
 }
 
 func (s *rangeDBServer) TotalEventsInStream(ctx context.Context, request *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
-- 
2.43.0


From d177bd9dd60b910c69c5561d9311805aab5f060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 50/54] fix: remote store subscriptions stay open silently
 after the live feed has ended

---
 provider/remotestore/remote_store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index f4e4a90..6709745 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -366,6 +366,9 @@ func (s *remoteStore) listenForEvents() error {
 	}
 
 	go func() {
+		// Subscribers end with the live feed. There is nothing left to receive.
+		defer s.broadcaster.Close()
+
 		recordIterator := s.readRecords(ctx, events)
 		for recordIterator.Next() {
 			if recordIterator.Err() != nil {
-- 
2.43.0


From de1b05380534448ced95476e382520a80b84d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:46 +0000
Subject: [PATCH 51/54] fix: a live feed of the web UI that is cut off stays
 open silently

---
 pkg/rangedbui/ui.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index cfbb02a..ba4d672 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -373,6 +373,14 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 		return
 	}
 
+	if s, ok := subscription.(interface{ Done() <-chan struct{} }); ok {
+		// A client must not wait for events it will not receive.
+		go func() {
+			<-s.Done()
+			_ = conn.Close()
+		}()
+	}
+
 	_, _, _ = conn.ReadMessage()
 }
 
-- 
2.43.0


From 17cec5f70127f935902a1a8273ce1b6fe996f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:49 +0000
Subject: [PATCH 52/54] fix: live feeds of a server end silently when several
 clients stall

---
 pkg/broadcast/broadcaster.go     |  6 +++-
 pkg/grpc/rangedbserver/server.go |  7 +---
 pkg/rangedbws/websocket_api.go   |  7 +---
 pkg/recordsubscriber/relay.go    | 55 ++++++++++++++++++++++++++++++++
 4 files changed, 62 insertions(+), 13 deletions(-)
 create mode 100644 pkg/recordsubscriber/relay.go

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index a9fbf3d..643edd5 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -2,6 +2,7 @@ package broadcast
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/inklabs/rangedb"
@@ -42,6 +43,7 @@ type broadcaster struct {
 	unsubscribeAggregateTypes chan AggregateTypeSubscription
 	bufferedRecords           chan *rangedb.Record
 	stopChan                  chan struct{}
+	closeOnce                 sync.Once
 	allEventsSubscribers      map[RecordSubscriber]struct{}
 	aggregateTypeSubscribers  map[string]map[RecordSubscriber]struct{}
 	timeout                   time.Duration
@@ -189,7 +191,9 @@ func (b *broadcaster) removeSubscriber(subscriber RecordSubscriber) {
 }
 
 func (b *broadcaster) Close() {
-	close(b.stopChan)
+	b.closeOnce.Do(func() {
+		close(b.stopChan)
+	})
 }
 
 func (b *broadcaster) closeAllSubscribers() {
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 0e15a65..139dd4b 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -67,12 +67,7 @@ func New(options ...Option) (*rangeDBServer, error) {
 }
 
 func (s *rangeDBServer) initBroadcaster() error {
-	ctx := context.Background()
-	subscription := s.store.AllEventsSubscription(ctx,
-		subscriberRecordBuffSize,
-		s.broadcaster,
-	)
-	return subscription.Start()
+	return recordsubscriber.Relay(context.Background(), s.store, subscriberRecordBuffSize, s.broadcaster)
 }
 
 func (s *rangeDBServer) Stop() error {
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index cade1f0..d836dea 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -87,12 +87,7 @@ func (a *websocketAPI) initRoutes() {
 }
 
 func (a *websocketAPI) initBroadcaster() error {
-	ctx := context.Background()
-	subscription := a.store.AllEventsSubscription(ctx,
-		subscriberRecordBuffSize,
-		a.broadcaster,
-	)
-	return subscription.Start()
+	return recordsubscriber.Relay(context.Background(), a.store, subscriberRecordBuffSize, a.broadcaster)
 }
 
 func (a *websocketAPI) Stop() {
diff --git a/pkg/recordsubscriber/relay.go b/pkg/recordsubscriber/relay.go
new file mode 100644
index 0000000..7e27c9b
--- /dev/null
+++ b/pkg/recordsubscriber/relay.go
@@ -0,0 +1,55 @@
+package recordsubscriber
+
+import (
+	"context"
+
+	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/broadcast"
+)
+
+// Relay forwards all records saved to a store from now on to a broadcaster.
+//
+// A store gives up a subscriber that is not ready in time for a record. The
+// relay may only have been waiting for slow subscribers of the broadcaster, so
+// it subscribes again, and continues after the last record it forwarded. The
+// broadcaster is closed as soon as the store has no more records to offer,
+// because its subscribers must not wait for events they will not receive.
+func Relay(ctx context.Context, store rangedb.Store, bufferSize int, broadcaster broadcast.Broadcaster) error {
+	var last uint64
+	subscribe := func() rangedb.RecordSubscription {
+		return store.AllEventsSubscription(ctx, bufferSize, rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+			broadcaster.Accept(record)
+			last = record.GlobalSequenceNumber
+		}))
+	}
+
+	subscription := subscribe()
+	err := subscription.Start()
+	if err != nil {
+		return err
+	}
+
+	go func() {
+		for waitUntilDone(subscription) {
+			before := last
+			subscription = subscribe()
+			err := subscription.StartFrom(last + 1)
+			if err != nil || (waitUntilDone(subscription) && last == before) {
+				broadcaster.Close()
+				return
+			}
+		}
+	}()
+
+	return nil
+}
+
+// waitUntilDone returns true after a subscription has ended, or false if it can not be told.
+func waitUntilDone(subscription rangedb.RecordSubscription) bool {
+	s, ok := subscription.(interface{ Done() <-chan struct{} })
+	if ok {
+		<-s.Done()
+	}
+
+	return ok
+}
-- 
2.43.0


From 10ca90541ba4c951cdaccf488bc3c1b0e068b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:55 +0000
Subject: [PATCH 53/54] fix: interrupted server exits with an error before it
 has shut down

http.Server.Serve returns http.ErrServerClosed as soon as Shutdown is called;
it was logged as fatal, ending the process before requests in flight were
answered and before the store was closed.
---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 43d2a07..b0c14fd 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -206,7 +206,7 @@ func nilFunc() error {
 func serveHTTP(srv *http.Server, listener net.Listener) {
 	fmt.Printf("Listening: http://%s\n", listener.Addr().String())
 	err := srv.Serve(listener)
-	if err != nil {
+	if err != nil && err != http.ErrServerClosed {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 48f4fc600229ca5fff77f8625cffba3d2e46029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:49 +0000
Subject: [PATCH 54/54] fix: gRPC event subscriber prints the last event again
 after a lost connection

---
 cmd/grpc-event-subscriber/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/grpc-event-subscriber/main.go b/cmd/grpc-event-subscriber/main.go
index fb6da0c..0c73277 100644
--- a/cmd/grpc-event-subscriber/main.go
+++ b/cmd/grpc-event-subscriber/main.go
@@ -104,7 +104,7 @@ func (s *grpcEventSubscriber) connectAndListen(ctx context.Context) {
 			log.Printf("error received: %v", err)
 			return
 		}
-		s.globalSequenceNumber = record.GlobalSequenceNumber
+		s.globalSequenceNumber = record.GlobalSequenceNumber + 1
 		fmt.Println(record)
 	}
 }
-- 
2.43.0

