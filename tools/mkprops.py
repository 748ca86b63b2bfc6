#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Consuming a partition yields exactly the posted records, in order",
 "Whatever records are posted to a partition, a consumer that fetches from any offset and follows the offsets it receives gets every record from that offset on exactly once, in posting order, at consecutive offsets starting at 0 for the first record ever posted. Each delivered record carries the posted key and value byte for byte (null stays distinct from empty) and the posted timestamp in milliseconds (for the simple form, the time of the post). Posting to, creating or consuming any other topic or partition, and re-creating an existing one, changes nothing about it.",
 ["histories", "inputs"], "all interleavings of posts (both forms; any key/value, null, empty or large; any timestamp; any number of records), topic/partition creations and paged fetches from any offset",
 "The tests post a handful of short values to partition 2 of one topic and read them front to back; they never compare keys, timestamps or offsets, null vs empty, large payloads, several partitions or interleaved posting and fetching.",
 ["datastore.go", "fetch.go", "encoder.go", "kafka-mock.go"],
 [("append-only record list per partition", "datastore.go postRecord"), ("index by offset", "fetch.go fetchV2"), ("message set encoding", "encoder.go messageSetV1")],
 [("Records", "the log of one partition", "datastore.go kafkaPartition")],
 ["Fetch v2 responses on the wire"])

prop("C02", "A multi-partition fetch answers every entry with that entry's own data",
 "A fetch that names any number of topics and partitions is answered with the same topics and partitions in the same order, and each entry holds only records of that very topic and partition starting at the offset asked for it, plus that partition's log-end offset as high watermark. An entry naming a topic or partition that does not exist gets the unknown-topic-or-partition error (3), an entry with a negative offset gets the offset-out-of-range error (1), both without records, and neither changes the other entries. An offset at or past the end of the log gets no records and no error.",
 ["inputs"], "all fetch requests over all stores: any list of topics and partitions, existing or not, with any offsets and limits",
 "Every test fetches one partition of one topic at a valid offset (all the kafka-go reader ever sends).",
 ["fetch.go", "metadata.go", "datastore.go"],
 [("fetchData list parallel to the request entries", "fetch.go fetchV2")], [], ["Fetch v2 responses on the wire"])

prop("C03", "A fetch fills the byte limit but never exceeds it, and is always answered",
 "Each partition entry of a fetch response holds the longest run of consecutive records, from the requested offset, whose total message-set size is at most the byte limit asked for that partition. A record that does not fit is left for a later fetch with a larger limit and never stops the fetch from being answered, whatever the limit and the record sizes are.",
 ["inputs"], "all logs and all limits: zero, negative, below the first record, exactly at a record boundary, one byte either side of it, and unlimited",
 "Tests use a 10 MB limit, far above the data, or 1024 bytes; at 1024 three of them never end at the original commit, so they are excluded from the baseline.",
 ["fetch.go", "encoder.go"],
 [("size accounting in appendMessage", "encoder.go appendMessage"), ("loop that gathers records", "fetch.go fetchV2")], [], ["Fetch v2 responses on the wire"])

prop("C04", "A fetch waits for data no longer than asked, and not less when there is none",
 "A fetch that has no record to return (whether because its partitions hold none from there on, are unknown, or none were named) is answered without records no earlier than its maximum wait time and promptly after it; if a record it asked for is posted while it waits, it is answered promptly with that record, and if one is already there, at once. Finishing requests, cancelling the lane the mock was given, or stopping the mock while a fetch waits completes it with a well-formed answer instead of dropping it; after a restart fetches wait as before. None of this depends on other fields of the request. A waiting fetch delays no other connection.",
 ["schedules", "inputs"], "all wait times and all timings of posts (to the fetched or other partitions), of finish/stop requests and of requests on other connections while one or more fetches wait",
 "Only one test posts while a client waits, and none measures the wait, posts elsewhere, or checks what a blocked fetch receives when requests are finished.",
 ["fetch.go", "kafka-mock.go", "kafka-client.go"],
 [("poll loop with expiration and cancellation", "fetch.go fetchV2"), ("FinishRequests cancels the lane", "kafka-mock.go FinishRequests")], [], ["time from request to response", "Fetch v2 responses"])

prop("C05", "Fetched message sets are valid Kafka v1 message sets",
 "Every message set returned by a fetch parses completely as a sequence of Kafka magic-1 messages: the set size equals the bytes that follow, each message's size field equals the bytes after it, its checksum is the standard CRC-32 (IEEE) of its body, its attributes mark it uncompressed with create time, and null keys and values have length -1. A client that verifies sizes and checksums therefore accepts every record.",
 ["inputs"], "all records: any key, value, timestamp, offset and any number of messages per set",
 "The tests consume with kafka-go's low-level reader, which ignores message sizes and checksums.",
 ["encoder.go", "fetch.go"],
 [("message framing and checksum", "encoder.go appendMessage, crc"), ("encodeMessageSetV1", "encoder.go")], [], ["raw record bytes of Fetch v2 responses", "kafka-go Client.Fetch, which checks sizes and CRCs"])

prop("C06", "Offset listing reports the true earliest, latest and by-time offsets",
 "For every existing partition asked about, listing with timestamp -2 reports offset 0, with -1 reports the next offset to be posted, and with a time T >= 0 reports the smallest offset whose record's timestamp is at least T together with that record's timestamp, or the next offset if there is none. Entries for unknown topics or partitions get error 3. The response lists the same topics and partitions as the request, in order.",
 ["inputs", "histories"], "all stores (including empty partitions, equal, unordered, zero and extreme timestamps) and all list-offsets requests between posts",
 "Only the -1/-2 forms on a single partition are exercised, by the reader's start-up; no test inspects an answer or asks by time.",
 ["list_offsets.go", "datastore.go"],
 [("scan of the partition log", "list_offsets.go listOffsetsV1")], [], ["ListOffsets v1 responses"])

prop("C07", "Committed offsets are kept per group, topic and partition, moving only forward",
 "After any history, fetching offsets for a group returns, for each requested existing topic and partition, the largest offset that group has committed there since its offset was last set directly (the directly set value if no later commit exceeds it, 0 if neither ever happened), and nothing for topics or partitions that do not exist. A commit is acknowledged without error for every existing partition and with error 3 for every other one, in request order; commits and direct changes never affect another group, topic or partition, and never change the records.",
 ["histories", "inputs"], "all histories of commits (any group, many topics and partitions, any offset, repeated or going back), direct offset changes, offset fetches, posts, reconnects and restarts",
 "Tests commit for one group on one partition and only check that the next read starts after it; lower commits, several groups or partitions, unknown partitions and answers are not inspected.",
 ["offset_commit.go", "offset_fetch.go", "datastore.go", "kafka-mock.go"],
 [("forward-only update under the partition lock", "offset_commit.go offsetCommitV2"), ("direct override", "kafka-mock.go SetConsumerGroupOffset")],
 [("GroupCommittedOffsets", "committed offset by group", "datastore.go kafkaPartition")], ["OffsetCommit v2 and OffsetFetch v1 responses"])

prop("C08", "Metadata describes the store and leads every client back to this server",
 "A metadata request is answered with one entry per requested topic, in order (every existing topic once if the list is null, none if it is empty): an existing topic lists exactly its existing partitions, an unknown one has error 3 and no partitions. Every leader, replica, in-sync replica and controller named is a broker in the same answer, and the one broker, like the coordinator found for any group, is localhost at the port the mock listens on.",
 ["inputs", "histories"], "all stores, all metadata and coordinator requests, any number of topics and partitions, created before or between requests",
 "Tests only ever create partition 2 of one topic and never look at the metadata; the reader uses just the leader's address.",
 ["metadata.go", "find_coordinator.go", "datastore.go"],
 [("metadata response", "metadata.go metadataV1"), ("coordinator response", "find_coordinator.go")], [], ["Metadata v1 and FindCoordinator v0 responses"])

prop("C09", "Joining a group succeeds and assigns every topic partition exactly once",
 "For any group, member and offered protocols, join, sync, heartbeat and leave are all answered without error; the joining member gets a member id, is never told it is the leader, and is therefore never asked to assign. The assignment returned by sync parses as a Kafka consumer assignment that lists every topic and partition existing at that moment exactly once and nothing else.",
 ["inputs", "histories"], "all stores and all sequences of group requests interleaved with topic creation",
 "Tests have one topic with one partition; the assignment is only checked by the reader receiving that topic's data.",
 ["join_group.go", "sync_group.go", "heartbeat.go", "leave_group.go", "datastore.go"],
 [("assignment built from the store", "sync_group.go makeMemberAssignment")], [], ["JoinGroup v1, SyncGroup v0, Heartbeat v0, LeaveGroup v0 responses"])

prop("C10", "Requests on a connection are answered once each, in order, however sent",
 "On every connection each complete request is answered by exactly one response, in the order the requests were sent, with the request's correlation id and a length prefix equal to the bytes that follow. The answers do not depend on how the request bytes were split into or merged in network packets, on pauses between them, on how many requests were pipelined, or on the size of a request.",
 ["inputs", "schedules"], "all sequences of supported requests, all correlation ids and client ids (including null), all ways of cutting the byte stream and pausing between pieces, request sizes from minimal to megabytes, among them those that exactly fill a read buffer",
 "Tests leave packetisation to the kernel; a request larger than a few hundred bytes, a split or a pipelined request never occurs deterministically.",
 ["kafka-client.go", "inbound-utils.go", "kafka-message.go"],
 [("accumulate bytes until a full message", "inbound-utils.go getMessage, kafka-client.go handle"), ("dispatch and send in turn", "kafka-client.go dispatcher, kafka-message.go send")],
 [("inbound", "received bytes not yet consumed", "kafka-client.go kafkaClient")], ["bytes on the connection"])

prop("C11", "A client that vanishes at any point disturbs neither the mock nor other clients",
 "Whenever a client disconnects - by closing, half-closing or resetting its connection, at any byte of a request, while a request is blocked, or while a response is being sent or left unread - the mock keeps running, answers all other and later connections correctly, and keeps its data. Requests completely received before an orderly half-close are still answered, after which the server closes its side.",
 ["fault_sequences", "schedules"], "all points of the request stream at which a connection can end, all ways of ending it, any number of failing connections alongside healthy ones",
 "One (excluded) test closes connections from the server side at random moments; none controls where in a request or response the client disappears.",
 ["kafka-client.go", "net-utils.go", "kafka-mock.go", "kafka-message.go"],
 [("classification of socket errors", "net-utils.go wasSocketClosed"), ("send failure check", "kafka-client.go isConnected"), ("connection bookkeeping", "kafka-mock.go run")], [], ["responses on the other connections", "liveness of the process"])

prop("C12", "Start, stop, finish and restart always complete and keep the data",
 "In any legal order of starting, stopping, waiting, finishing requests and restarting - stop may be requested repeatedly, from several goroutines, before the start has completed or without a start - every call returns in bounded time, waiting returns only once the mock has terminated, and a second start while running panics. After termination the port is free and every client connection is closed, even those of clients that are idle, have a blocked fetch, or do not read their responses. After a restart, or a stop and a new start, the mock serves again on the same port with all records and committed offsets as they were.",
 ["histories", "schedules"], "all sequences of lifecycle calls, including concurrent ones, interleaved with posts and with clients that are idle, blocked, busy or not reading",
 "Three tests cover stop without start and start-stop; restart is used twice with one idle client.",
 ["kafka-mock.go", "kafka-client.go"],
 [("started/stopped flags and wait groups", "kafka-mock.go"), ("lane cancellation", "kafka-mock.go RequestStop, kafka-client.go handle")],
 [("started, stopped, wg, active, listener, clients", "lifecycle state", "kafka-mock.go KafkaMock")], ["return of the calls", "port and connections", "data after restart"])

prop("C13", "The wire codec round-trips every supported value in Kafka's format",
 "For every value of a supported type - booleans, fixed and variable-length integers, floats, UUIDs, plain, nullable and compact strings and byte arrays, plain and compact arrays, and structs nesting these with or without the compact field tag - encoding it and decoding the bytes as the same type yields an equal value, null staying distinct from empty, and consumes exactly the bytes produced, wherever in a larger sequence the value sits. The bytes are those of the Kafka protocol: big-endian fixed-width integers, base-128 varints (zigzag for signed ones), length-prefixed strings, bytes and arrays.",
 ["inputs"], "all supported types, arbitrarily nested, and all their values, alone or in sequence",
 "Each test encodes one or two fixed values of one type and decodes them with the same code.",
 ["encoder.go", "decoder.go"],
 [("type-directed encoder", "encoder.go encodeObjectWorker"), ("type-directed decoder", "decoder.go peekObjectWorker")], [], ["encodeObject output", "peekObject result"])

prop("C14", "Decoding truncated or arbitrary bytes fails cleanly",
 "Decoding any strict prefix of an encoded value reports that there is not enough data. Decoding arbitrary bytes as any supported type either reports failure or yields a value together with an end position within the input, and that value re-encodes and decodes to itself; it never panics, and never uses memory out of proportion to the input.",
 ["inputs"], "all byte strings and all supported target types",
 "Tests truncate seven fixed encodings (skipping the longest prefix); none feeds corrupt data.",
 ["decoder.go", "inbound-utils.go"],
 [("bounds-checked peeks", "decoder.go")], [], ["peekObject and peekTags results"])

prop("C15", "Tagged fields round-trip, known or unknown, in ascending order",
 "Any set of tagged fields encodes as its count followed by the fields in ascending tag order, each with its tag, exact byte length and value; decoding gives back the same set, with the decoded value for each tag whose type is known and the raw encoded bytes for every other, and consumes exactly the bytes produced. Any strict prefix is reported as incomplete.",
 ["inputs"], "all sets of tags (any ids, any number), values of all supported types, all subsets of known types, alone or followed by other data",
 "Four tests use two or three fixed tags.",
 ["encoder.go", "decoder.go"],
 [("encodeTags", "encoder.go"), ("peekTags", "decoder.go")], [], ["encodeTags output", "peekTags result"])

prop("C16", "Concurrent use is race-free and loses, repeats or reorders nothing",
 "With any number of goroutines posting, creating topics and setting group offsets while any number of connections fetch, list, commit, sync and ask for metadata, there is no data race, and the result is that of some sequential order: every posted record appears exactly once, records of one poster stay in order, the record at an offset never changes once seen, and high watermarks, latest offsets and committed offsets never go back. Clients coming and going, and mocks being started, stopped and restarted meanwhile, cause no data race either.",
 ["schedules"], "all interleavings of concurrent library calls and client requests",
 "All tests but one post everything before the client connects, from a single goroutine, and none runs under the race detector.",
 ["datastore.go", "fetch.go", "list_offsets.go", "offset_commit.go", "offset_fetch.go", "sync_group.go", "metadata.go"],
 [("store, topic and partition mutexes", "datastore.go")], [("Topics, Partitions, Records, GroupCommittedOffsets", "shared store", "datastore.go")], ["responses, final log, race detector reports"])

prop("C17", "The advertised APIs are exactly the served ones",
 "On every connection and at any time, the API versions answer lists, in ascending key order and once each, exactly the APIs the mock serves: a valid request of every listed key at every version between its listed minimum and maximum is answered in that version's format, and a request for any other key or version never gets an answer.",
 ["inputs", "histories"], "all API keys and versions, asked on any connection of any instance after any history",
 "No test reads the API versions answer; one encodes a made-up one.",
 ["api_versions.go", "api-keys.go", "kafka-client.go"],
 [("dispatch table and derived version ranges", "api-keys.go initializeApis")], [("apiTable, apiVersions", "served and advertised APIs", "api-keys.go")], ["ApiVersions v0 response", "responses to each API"])

prop("C18", "A real consumer group reads everything and resumes where it committed",
 "A kafka-go group consumer connected to the mock receives, for every partition it is given, exactly the records from its group's committed offset on, in order, with right key, value, time, offset, partition and high watermark, including records posted while it is consuming. When it goes away - with or without a restart of the mock - and another consumer of the group connects, that one resumes at the last committed offset, or at the offset set directly in between. kafka-go's connection and client calls for partitions, offsets, fetches and commits agree with the store.",
 ["histories"], "all histories of posting, consuming, committing, closing, restarting and resetting over any topics and partitions, through the real client library",
 "Tests run a few fixed consume/commit scripts on one partition and mostly check values only.",
 ["kafka-client.go", "fetch.go", "offset_commit.go", "offset_fetch.go", "join_group.go", "sync_group.go", "metadata.go", "list_offsets.go", "kafka-mock.go"],
 [("the whole request path", "kafka-client.go dispatcher")], [], ["kafka-go Reader, Conn and Client results"])

prop("C19", "Every valid request is answered with one well-formed response",
 "Any request that conforms to a supported API's schema - of any size, with any legal null, empty or extreme field - is answered with a response that parses exactly, without missing or surplus bytes, under that API version's response schema; no such request crashes the mock, closes the connection or stays unanswered.",
 ["inputs"], "all schema-conforming requests of all supported APIs over all stores (sync requests carry no assignments, as the mock is the group leader)",
 "Tests send only what one kafka-go reader sends: small requests, no nulls, fixed values.",
 ["kafka-client.go", "inbound-utils.go", "decoder.go", "encoder.go", "fetch.go", "metadata.go", "list_offsets.go", "offset_commit.go", "offset_fetch.go", "join_group.go", "sync_group.go"],
 [("request decoding", "inbound-utils.go readRequest"), ("leftover check and response encoding", "kafka-client.go dispatcher")], [], ["bytes on the connection", "liveness of the process"])

prop("C20", "Mock instances in one process are independent",
 "Several mocks in one process, on different ports, never share topics, records or committed offsets, and starting, stopping, finishing or restarting one has no effect on the others, which keep answering correctly, each advertising its own port.",
 ["histories", "configurations"], "all interleavings of operations on two or more instances, started and stopped in any order",
 "No test has two instances.",
 ["kafka-mock.go", "datastore.go", "api-keys.go"],
 [("per-instance data store and lane", "kafka-mock.go NewKafkaMock"), ("one-time shared API table", "api-keys.go initializeApis")], [], ["responses of each instance"])

prop("C21", "Connections and goroutines are released when clients leave or the mock stops",
 "After any number of clients have connected and gone, in any order and by any kind of close, a running mock holds no socket, no goroutine and no entry for them (once the wait of a fetch they left behind is over), while those still connected keep being served; after termination it holds none at all, not even of clients that came after requests were finished, and no longer tracks any client.",
 ["histories", "fault_sequences"], "all sequences of connects, requests and disconnects in any order, followed or not by a stop",
 "No test counts sockets or goroutines, and none has clients leaving in another order than they came.",
 ["kafka-client.go", "kafka-mock.go"],
 [("handler exit path", "kafka-client.go handle"), ("client bookkeeping", "kafka-mock.go run")], [("clients", "tracked connections", "kafka-mock.go KafkaMock")], ["open descriptors and goroutines of the process", "end of file at the client"])
prop("C22", "Nothing but the stored data takes up memory for good",
 "A mock keeps nothing of what it has served: however many requests it answered (with whatever client ids, member ids and names), clients that came and went, waits that ended without data and restarts it went through, the memory in use once they are over depends only on the records posted, the topics and partitions created and the offsets of the groups named. Creating again what exists and setting the same offset again use no more memory, and a mock that was stopped (or never started) and is no longer referred to leaves nothing behind in the process.",
 ["histories"], "all repetitions of requests, connections, waits, restarts, calls and mocks, of any length",
 "A leak shows only after thousands of repetitions with the memory in use measured after each round; no test does either.",
 ["kafka-client.go", "kafka-mock.go", "datastore.go", "fetch.go"],
 [("connection state", "kafka-client.go handle"), ("lanes and contexts", "kafka-mock.go Start, run"), ("waiting", "fetch.go fetchV2")], [("store", "topics, partitions, offsets", "datastore.go kafkaDataStore")], ["heap of the process after garbage collection"])

out = os.path.join(HERE, "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
