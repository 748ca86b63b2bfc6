From 102275b8a0b65a0b023a301e4f2de0b2874e4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 01/22] fix: answer a fetch when a record exceeds the partition
 byte limit

---
 fetch.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fetch.go b/fetch.go
index aabbc16..f7c076d 100644
--- a/fetch.go
+++ b/fetch.go
@@ -85,12 +85,11 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 				}
 				fd.kp.unlock()
 
-				if rec != nil {
+				// a record that exceeds the byte limit is left for a later fetch
+				if rec != nil && fd.ms.appendMessage(rec, fd.maxSize) {
 					more = true
 					hasOne = true
-					if fd.ms.appendMessage(rec, fd.maxSize) {
-						fd.offset++
-					}
+					fd.offset++
 				}
 			}
 		}
-- 
2.43.0


From 29292d80cc70d48fd380c33b525e7d5399f8d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 02/22] fix: answer each fetched partition with its own records

---
 fetch.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index f7c076d..1fe99c8 100644
--- a/fetch.go
+++ b/fetch.go
@@ -124,15 +124,15 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 
 	n := 0
 	for _, topic := range request.Topics {
-		fd := fds[n]
-		n++
-
 		fr := &fetchResponse{
 			Topic:      topic.Topic,
 			Partitions: []fetchResponsePartition{},
 		}
 
 		for _, par := range topic.Partitions {
+			fd := fds[n]
+			n++
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				HighWatermark:  int64(fd.offset),
-- 
2.43.0


From 0de6bd614eb46c4c6ef61c7651248501daffd5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 03/22] fix: report an unknown topic or partition in a fetch
 response

---
 fetch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fetch.go b/fetch.go
index 1fe99c8..101046e 100644
--- a/fetch.go
+++ b/fetch.go
@@ -133,8 +133,14 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			fd := fds[n]
 			n++
 
+			errorCode := NoError
+			if fd.kp == nil {
+				errorCode = UnknownTopicOrPartition
+			}
+
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
+				ErrorCode:      int16(errorCode),
 				HighWatermark:  int64(fd.offset),
 				Records:        fd.ms,
 			}
-- 
2.43.0


From 8961e52d4155f896d3a4e73a459715cd48e2693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 04/22] fix: answer a fetch from a negative offset with an
 error instead of a panic

---
 fetch.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fetch.go b/fetch.go
index 101046e..6333921 100644
--- a/fetch.go
+++ b/fetch.go
@@ -80,7 +80,7 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			if fd.kp != nil {
 				var rec *kafkaRecord
 				fd.kp.lock()
-				if fd.offset < len(fd.kp.Records) {
+				if fd.offset >= 0 && fd.offset < len(fd.kp.Records) {
 					rec = fd.kp.Records[fd.offset]
 				}
 				fd.kp.unlock()
@@ -136,6 +136,8 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			errorCode := NoError
 			if fd.kp == nil {
 				errorCode = UnknownTopicOrPartition
+			} else if par.FetchOffset < 0 {
+				errorCode = OffsetOutOfRange
 			}
 
 			fp := fetchResponsePartition{
-- 
2.43.0


From aa777d60dc874f085f0a687732f2942c08a6628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 05/22] fix: report the log end as the high watermark of a
 fetched partition

---
 fetch.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fetch.go b/fetch.go
index 6333921..9c15de8 100644
--- a/fetch.go
+++ b/fetch.go
@@ -134,16 +134,23 @@ func fetchV2(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader) (re
 			n++
 
 			errorCode := NoError
+			highWatermark := int64(-1)
 			if fd.kp == nil {
 				errorCode = UnknownTopicOrPartition
-			} else if par.FetchOffset < 0 {
-				errorCode = OffsetOutOfRange
+			} else {
+				if par.FetchOffset < 0 {
+					errorCode = OffsetOutOfRange
+				}
+
+				fd.kp.lock()
+				highWatermark = int64(len(fd.kp.Records))
+				fd.kp.unlock()
 			}
 
 			fp := fetchResponsePartition{
 				PartitionIndex: par.Partition,
 				ErrorCode:      int16(errorCode),
-				HighWatermark:  int64(fd.offset),
+				HighWatermark:  highWatermark,
 				Records:        fd.ms,
 			}
 
-- 
2.43.0


From aa3d36b442dbb78e4d9aefa9787bde87c5a56022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 06/22] fix: list the first offset at or after the requested
 time

---
 list_offsets.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index c1ef01a..79b0e58 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -70,13 +70,12 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 					}
 				} else {
 					// slow but this is just a mock
-					offset := int64(0)
-					ts := int64(0)
-					for i := len(kp.Records) - 1; i >= 0; i-- {
-						msg := kp.Records[i]
-						ts = msg.Timestamp
-						if msg.Timestamp < p.Timestamp {
-							offset = int64(i + 1)
+					offset := int64(len(kp.Records))
+					ts := int64(-1)
+					for i, msg := range kp.Records {
+						if msg.Timestamp >= p.Timestamp {
+							offset = int64(i)
+							ts = msg.Timestamp
 							break
 						}
 					}
-- 
2.43.0


From 164af993f51364fad1e46760b334e2587c60d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 07/22] fix: decode a null array inside a struct or an array

---
 decoder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index b7b436d..c25200b 100644
--- a/decoder.go
+++ b/decoder.go
@@ -523,7 +523,12 @@ func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect
 			if next < 0 {
 				return
 			}
-			a = reflect.Append(a, reflect.ValueOf(item))
+			if item == nil {
+				// null array
+				a = reflect.Append(a, reflect.Zero(elem))
+			} else {
+				a = reflect.Append(a, reflect.ValueOf(item))
+			}
 		}
 		obj = a.Interface()
 	}
@@ -566,8 +571,10 @@ func peekObjectStruct(reader *bufio.Reader, offset int, tt reflect.Type) (next i
 		if next < 0 {
 			return
 		}
-		f := o.Elem().Field(i)
-		f.Set(reflect.ValueOf(v))
+		if v != nil {
+			f := o.Elem().Field(i)
+			f.Set(reflect.ValueOf(v))
+		}
 	}
 	obj = o.Elem().Interface()
 	return
-- 
2.43.0


From ddef5124c1727dcd98322a6524360a3c97f8f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 08/22] fix: name only the existing broker as controller and
 replica in metadata

---
 metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata.go b/metadata.go
index 898c6f5..6ce79b9 100644
--- a/metadata.go
+++ b/metadata.go
@@ -48,14 +48,14 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{1}, IsrNodes: []int32{1}}}})
+		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}}}})
 	}
 
 	response = &metadataResponseV1{
 		Brokers: []brokersV1{
 			{NodeId: kLeaderNode, Host: "localhost", Port: int32(kc.serverPort)},
 		},
-		ControllerId: 500,
+		ControllerId: kLeaderNode,
 		Topics:       topics,
 	}
 	return
-- 
2.43.0


From 0c05374e90c96bc945cd51efcaf06f844e692eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 09/22] fix: describe the existing topics and partitions in
 metadata

---
 datastore.go | 13 +++++++++++++
 metadata.go  | 18 +++++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/datastore.go b/datastore.go
index 5eb4df8..5427e0c 100644
--- a/datastore.go
+++ b/datastore.go
@@ -1,6 +1,7 @@
 package kafkamock
 
 import (
+	"sort"
 	"sync"
 	"time"
 )
@@ -91,6 +92,18 @@ func (kp *kafkaTopic) getPartition(number int32) *kafkaPartition {
 	return kp.Partitions[number]
 }
 
+func (kp *kafkaTopic) partitionIndexes() []int32 {
+	kp.mu.Lock()
+	defer kp.mu.Unlock()
+
+	indexes := make([]int32, 0, len(kp.Partitions))
+	for index := range kp.Partitions {
+		indexes = append(indexes, index)
+	}
+	sort.Slice(indexes, func(i, j int) bool { return indexes[i] < indexes[j] })
+	return indexes
+}
+
 func (kp *kafkaPartition) lock() {
 	kp.mu.Lock()
 }
diff --git a/metadata.go b/metadata.go
index 6ce79b9..bde23ff 100644
--- a/metadata.go
+++ b/metadata.go
@@ -48,7 +48,23 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 	topics := make([]topicsV1, 0, len(request.Topics))
 	for _, t := range request.Topics {
-		topics = append(topics, topicsV1{Name: t, Partitions: []partitionV1{{PartitionIndex: 2, LeaderId: kLeaderNode, ReplicaNodes: []int32{kLeaderNode}, IsrNodes: []int32{kLeaderNode}}}})
+		topic := topicsV1{Name: t, Partitions: []partitionV1{}}
+
+		kt := kc.ds.getTopic(t)
+		if kt == nil {
+			topic.ErrorCode = int16(UnknownTopicOrPartition)
+		} else {
+			for _, index := range kt.partitionIndexes() {
+				topic.Partitions = append(topic.Partitions, partitionV1{
+					PartitionIndex: index,
+					LeaderId:       kLeaderNode,
+					ReplicaNodes:   []int32{kLeaderNode},
+					IsrNodes:       []int32{kLeaderNode},
+				})
+			}
+		}
+
+		topics = append(topics, topic)
 	}
 
 	response = &metadataResponseV1{
-- 
2.43.0


From 563f0b3649686cc69ac7b8b4afc3ca460b26020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:22 +0000
Subject: [PATCH 10/22] fix: answer a metadata request for all topics

---
 datastore.go | 12 ++++++++++++
 metadata.go  | 10 ++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/datastore.go b/datastore.go
index 5427e0c..12af0e9 100644
--- a/datastore.go
+++ b/datastore.go
@@ -69,6 +69,18 @@ func (ds *kafkaDataStore) getTopic(name string) *kafkaTopic {
 	return ds.Topics[name]
 }
 
+func (ds *kafkaDataStore) topicNames() []string {
+	ds.mu.Lock()
+	defer ds.mu.Unlock()
+
+	names := make([]string, 0, len(ds.Topics))
+	for name := range ds.Topics {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (kp *kafkaTopic) createPartition(number int32) *kafkaPartition {
 	kp.mu.Lock()
 	defer kp.mu.Unlock()
diff --git a/metadata.go b/metadata.go
index bde23ff..37d2816 100644
--- a/metadata.go
+++ b/metadata.go
@@ -46,8 +46,14 @@ func metadataV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 		return
 	}
 
-	topics := make([]topicsV1, 0, len(request.Topics))
-	for _, t := range request.Topics {
+	names := request.Topics
+	if names == nil {
+		// a null list asks for all topics
+		names = kc.ds.topicNames()
+	}
+
+	topics := make([]topicsV1, 0, len(names))
+	for _, t := range names {
 		topic := topicsV1{Name: t, Partitions: []partitionV1{}}
 
 		kt := kc.ds.getTopic(t)
-- 
2.43.0


From e685a54ed8a30550190f3655f1c99b842879c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 11/22] fix: use the CRC-32 (IEEE) checksum of message set
 version 1

---
 encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index d50ac98..69ae961 100644
--- a/encoder.go
+++ b/encoder.go
@@ -481,7 +481,7 @@ func encodeMessageSetV1(writer *bufio.Writer, ms *messageSetV1) {
 	}
 }
 
-var crcTable *crc32.Table = crc32.MakeTable(crc32.Castagnoli)
+var crcTable *crc32.Table = crc32.IEEETable
 
 func newMessageSetV1(offset int64) *messageSetV1 {
 	return &messageSetV1{
-- 
2.43.0


From fdd174815434edb7ce35d8f54678f93052e54a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 12/22] fix: don't count the message header in the message size
 field

---
 encoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index 69ae961..6061617 100644
--- a/encoder.go
+++ b/encoder.go
@@ -499,15 +499,16 @@ func (msv1 *messageSetV1) appendMessage(record *kafkaRecord, maxSize int) bool {
 		Key:        record.Key,
 		Value:      record.Value,
 	}
-	mv1.MessageSize = int32(34 + len(record.Key) + len(record.Value))
+	mv1.MessageSize = int32(22 + len(record.Key) + len(record.Value))
 	mv1.Crc = int32(mv1.crc())
 
-	newSize := msv1.totalSize + int(mv1.MessageSize)
+	// the message size doesn't count the offset and message size fields
+	newSize := msv1.totalSize + 12 + int(mv1.MessageSize)
 	if newSize > maxSize {
 		return false
 	}
 
-	msv1.totalSize += int(mv1.MessageSize)
+	msv1.totalSize = newSize
 	msv1.offset++
 
 	msv1.msgs = append(msv1.msgs, mv1)
-- 
2.43.0


From 9a879010bccab69a07f2d16519064fb92b4853ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 13/22] fix: don't allocate an array of the claimed length
 before its elements are read

---
 decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index c25200b..2b7b9b1 100644
--- a/decoder.go
+++ b/decoder.go
@@ -516,7 +516,8 @@ func kafkaTags(ft reflect.StructField) (nullable, compact bool) {
 func peekObjectFixedArray(reader *bufio.Reader, offset, length int, elem reflect.Type) (next int, obj any) {
 	next = offset
 	if length >= 0 {
-		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, length)
+		// don't trust the length: grow with the elements that are really there
+		a := reflect.MakeSlice(reflect.SliceOf(elem), 0, 0)
 		for i := 0; i < int(length); i++ {
 			var item any
 			next, item = peekObject(reader, next, elem)
-- 
2.43.0


From ffefad63f831bafe02a8d965283368ea04941466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 14/22] fix: decode compact bytes and compact fields the way
 they are encoded

---
 decoder.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/decoder.go b/decoder.go
index 2b7b9b1..069b981 100644
--- a/decoder.go
+++ b/decoder.go
@@ -360,11 +360,22 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Int32:
 		if tt.Name() == "VarInt" {
 			return peekVarInt(reader, offset)
+		} else if compact {
+			var v VarInt
+			next, v = peekVarInt(reader, offset)
+			obj = int32(v)
+			return
 		} else {
 			return peekInt32(reader, offset)
 		}
 
 	case reflect.Int:
+		if compact {
+			var v VarInt
+			next, v = peekVarInt(reader, offset)
+			obj = int(v)
+			return
+		}
 		var v int32
 		next, v = peekInt32(reader, offset)
 		obj = int(v)
@@ -373,11 +384,22 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Int64:
 		if tt.Name() == "VarInt64" {
 			return peekVarInt64(reader, offset)
+		} else if compact {
+			var v VarInt64
+			next, v = peekVarInt64(reader, offset)
+			obj = int64(v)
+			return
 		} else {
 			return peekInt64(reader, offset)
 		}
 
 	case reflect.Uint:
+		if compact {
+			var v VarUint
+			next, v = peekVarUint(reader, offset)
+			obj = uint(v)
+			return
+		}
 		var v uint32
 		next, v = peekUint32(reader, offset)
 		obj = uint(v)
@@ -392,6 +414,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Uint32:
 		if tt.Name() == "VarUint" {
 			return peekVarUint(reader, offset)
+		} else if compact {
+			var v VarUint
+			next, v = peekVarUint(reader, offset)
+			obj = uint32(v)
+			return
 		} else {
 			return peekUint32(reader, offset)
 		}
@@ -399,6 +426,11 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 	case reflect.Uint64:
 		if tt.Name() == "VarUint64" {
 			return peekVarUint64(reader, offset)
+		} else if compact {
+			var v VarUint64
+			next, v = peekVarUint64(reader, offset)
+			obj = uint64(v)
+			return
 		} else {
 			return peekUint64(reader, offset)
 		}
@@ -430,6 +462,14 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 			return peekNullableBytes(reader, offset)
 		} else if tt.Name() == "CompactNullableBytes" {
 			return peekCompactNullableBytes(reader, offset)
+		} else if tt.Name() == "CompactBytes" {
+			var b CompactNullableBytes
+			next, b = peekCompactNullableBytes(reader, offset)
+			if next < 0 {
+				return
+			}
+			obj = CompactBytes(b)
+			return
 		} else {
 			if compact {
 				return peekObjectCompactVarArray(reader, offset, tt.Elem())
@@ -450,6 +490,17 @@ func peekObjectWorker(reader *bufio.Reader, offset int, tt reflect.Type, nullabl
 			} else {
 				obj = *s
 			}
+		} else if compact {
+			var s CompactNullableString
+			next, s = peekCompactNullableString(reader, offset)
+			if next < 0 {
+				return
+			}
+			if s == nil {
+				obj = ""
+			} else {
+				obj = string(*s)
+			}
 		} else {
 			var s NullableString
 			next, s = peekNullableString(reader, offset)
-- 
2.43.0


From ec55f40ba4131829331b9116ee916815825cba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:08 +0000
Subject: [PATCH 15/22] fix: accept requests larger than the default read
 buffer

---
 kafka-client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kafka-client.go b/kafka-client.go
index 5e3546b..bbfc079 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -129,7 +129,7 @@ func (kc *kafkaClient) handle() {
 		kc.inbound = kc.inbound[4+msg.Len():]
 
 		kc.requestWg.Add(1)
-		reader := bufio.NewReader(msg)
+		reader := bufio.NewReaderSize(msg, msg.Len())
 		func() {
 			defer kc.requestWg.Done()
 			if err := kc.dispatcher(reader, msg.Len()); err != nil {
-- 
2.43.0


From 71feaa087312dd1de9421a1af97fc98ea789d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 16/22] fix: close the connection of a client that has
 disconnected

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index bbfc079..6361b30 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -77,6 +77,7 @@ func newKafkaClient(l lane.Lane, ds *kafkaDataStore, conn net.Conn, serverPort u
 
 func (kc *kafkaClient) handle() {
 	defer func() {
+		kc.conn.Close()
 		kc.wg.Done()
 		kc.oc()
 		kc.l.Tracef("client %d task done", kc.clientPort)
-- 
2.43.0


From 74ca25ecd36256db0e12e3a6ebdce09f5e42fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:32 +0000
Subject: [PATCH 17/22] fix: forget the client that disconnected rather than
 the newest one

---
 kafka-mock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 449225a..9127ba1 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -147,15 +147,16 @@ func (km *KafkaMock) run() {
 
 		km.mu.Lock()
 		cxnNumber++
+		clientNumber := cxnNumber
 		kc := newKafkaClient(km.l, km.ds, connection, km.serverPort, km.latency, func() {
 			km.l.Tracef("client disconnected: %s <-> %s", connection.LocalAddr().String(), connection.RemoteAddr().String())
 			km.mu.Lock()
-			delete(km.clients, cxnNumber)
+			delete(km.clients, clientNumber)
 			km.active.Done()
 			km.wg.Done()
 			km.mu.Unlock()
 		})
-		km.clients[cxnNumber] = kc
+		km.clients[clientNumber] = kc
 		km.active.Add(1)
 		km.wg.Add(1)
 		km.mu.Unlock()
-- 
2.43.0


From 2ed039e12df71ac9763484624c79c025bfc1c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:40 +0000
Subject: [PATCH 18/22] fix: close the duplicate descriptor used to check for a
 dropped client

---
 kafka-client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kafka-client.go b/kafka-client.go
index 6361b30..5fbb048 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -252,6 +252,7 @@ func (kc *kafkaClient) isConnected() bool {
 	if err != nil {
 		return false
 	}
+	defer f.Close()
 
 	b := []byte{0}
 	_, _, err = syscall.Recvfrom(int(f.Fd()), b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
-- 
2.43.0


From 1baecdf03b016391ca04b84f99646539231bb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 19/22] fix: don't let a client that stops reading block
 termination

---
 kafka-client.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/kafka-client.go b/kafka-client.go
index 5fbb048..3997e58 100644
--- a/kafka-client.go
+++ b/kafka-client.go
@@ -86,6 +86,17 @@ func (kc *kafkaClient) handle() {
 	kc.connected.Add(1)
 	defer kc.connected.Done()
 
+	// a client that doesn't read its responses must not block termination
+	handled := make(chan struct{})
+	defer close(handled)
+	go func() {
+		select {
+		case <-kc.l.Done():
+			kc.conn.SetWriteDeadline(time.Now().Add(time.Second))
+		case <-handled:
+		}
+	}()
+
 	for {
 		if kc.latency != 0 {
 			time.Sleep(kc.latency) // test hook
@@ -237,6 +248,10 @@ func (kc *kafkaClient) dispatcher(reader *bufio.Reader, msgLength int) (err erro
 
 	km := newKafkaMessage(kc.l, kc.conn, &kmh)
 	if err = km.send(buf.Bytes()); err != nil {
+		if errors.Is(err, os.ErrDeadlineExceeded) {
+			// terminating, and the client doesn't read the response - drop it
+			kc.conn.Close()
+		}
 		if !kc.isConnected() {
 			// the client dropped - ignore the error
 			err = nil
-- 
2.43.0


From 6c59623cf5110d7a0f43de0a4a76dac3d6c431ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 20/22] fix: take the partition lock to list offsets

---
 list_offsets.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/list_offsets.go b/list_offsets.go
index 79b0e58..960688f 100644
--- a/list_offsets.go
+++ b/list_offsets.go
@@ -59,20 +59,24 @@ func listOffsetsV1(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeade
 			if kp == nil {
 				rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, ErrorCode: int16(UnknownTopicOrPartition)})
 			} else {
+				kp.lock()
+				records := kp.Records
+				kp.unlock()
+
 				if p.Timestamp == -1 {
-					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(kp.Records))})
+					rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: time.Now().UnixMilli(), Offset: int64(len(records))})
 				} else if p.Timestamp == -2 {
-					if len(kp.Records) == 0 {
+					if len(records) == 0 {
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex})
 					} else {
-						msg := kp.Records[0]
+						msg := records[0]
 						rpars = append(rpars, listOffsetResponsePartition{PartitionIndex: p.PartitionIndex, Timestamp: msg.Timestamp})
 					}
 				} else {
 					// slow but this is just a mock
-					offset := int64(len(kp.Records))
+					offset := int64(len(records))
 					ts := int64(-1)
-					for i, msg := range kp.Records {
+					for i, msg := range records {
 						if msg.Timestamp >= p.Timestamp {
 							offset = int64(i)
 							ts = msg.Timestamp
-- 
2.43.0


From 2129c0f30205b866541ccc61627109c1d747c90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 21/22] fix: take the store locks to make a group assignment

---
 sync_group.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sync_group.go b/sync_group.go
index 201ea57..9747328 100644
--- a/sync_group.go
+++ b/sync_group.go
@@ -55,13 +55,10 @@ func syncGroupV0(reader *bufio.Reader, kc *kafkaClient, kmh *kafkaMessageHeader)
 
 func makeMemberAssignment(ds *kafkaDataStore) []byte {
 	// assign all topics & partitions to this client
-	mpas := make([]memberPartitionAssignment, 0, len(ds.Topics))
-	for name, topic := range ds.Topics {
-		pars := make([]int32, 0, len(topic.Partitions))
-		for _, par := range topic.Partitions {
-			pars = append(pars, par.Index)
-		}
-
+	names := ds.topicNames()
+	mpas := make([]memberPartitionAssignment, 0, len(names))
+	for _, name := range names {
+		pars := ds.getTopic(name).partitionIndexes()
 		mpas = append(mpas, memberPartitionAssignment{Topic: name, Partitions: pars})
 	}
 
-- 
2.43.0


From 9bca4f7816467374f08d6da6da1475dc16798f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 22/22] fix: a stop requested while Start runs could leave a
 mock that neither serves nor can be stopped

---
 kafka-mock.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kafka-mock.go b/kafka-mock.go
index 9127ba1..8fcb184 100644
--- a/kafka-mock.go
+++ b/kafka-mock.go
@@ -64,6 +64,10 @@ func (km *KafkaMock) Start() {
 }
 
 func (km *KafkaMock) RequestStop() {
+	// a start in progress must not miss the request
+	km.mu.Lock()
+	defer km.mu.Unlock()
+
 	alreadyStopped := km.stopped.Swap(true)
 	if !alreadyStopped {
 		if km.started.Load() {
@@ -72,13 +76,11 @@ func (km *KafkaMock) RequestStop() {
 			km.initializing.Wait()
 
 			// force-close the socket listener
-			km.mu.Lock()
 			if km.listener != nil {
 				km.listener.Close()
 				km.l.Trace("kafka mock server listener terminated")
 				km.listener = nil
 			}
-			km.mu.Unlock()
 
 			// cancel any i/o tasks
 			km.cancelFn()
-- 
2.43.0

