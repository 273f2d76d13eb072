#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- connection layer
prop("B01", "A response is only ever given to the request it answers",
 "Many goroutines may share one broker connection. Each request call returns either an error or the content of the broker's answer to exactly that request, never the answer (or part of the answer) to another request, whatever the interleaving of callers, response delays, timeouts, late or truncated responses, connection drops and TCP segmentation.",
 ["schedules", "fault_sequences"],
 "All interleavings of concurrent callers on one broker handle, and all sequences of reply faults (late, cut, dropped, split into arbitrary TCP segments).",
 "Existing tests mock the connection and never let a response arrive late or out of phase with the request stream.",
 ["broker.go", "response.go"],
 [("request/response serialisation and connection teardown on error", "broker.go RequestAndGet, Request, request"), ("response framing", "response.go defaultReadParser.Read")],
 ["exported request call results", "bytes on the broker socket"])
prop("B02", "No request travels on a connection before it is authenticated",
 "When SASL is configured, every connection (first or re-opened after a failure) starts with the version handshake, then the SASL handshake and the PLAIN credentials, and no other request is sent on it until the broker has accepted them. A connection whose handshake or authentication failed is never used for a request and the failure is reported to the caller; re-authentication after a reconnect always completes rather than hanging.",
 ["fault_sequences", "histories"],
 "All sequences of connection losses, handshake failures, rejected or unanswered authentications, and requests.",
 "The tests never reconnect with SASL enabled and never fail a handshake halfway.",
 ["broker.go", "sasl_handshake_request.go", "sasl_authenticate_request.go", "sasl_plain.go"],
 [("connection set-up", "broker.go createConnAndAuth, sendSaslAuthenticate, ensureOpen")])
prop("B03", "Requests use the highest version both sides support, encoded for it",
 "For every API the client uses, the version written on the wire is the highest one that both the client and the connected broker support; the request bytes are a complete and exact encoding for that version, and the response is decoded by that same version so that the caller sees the values the broker sent.",
 ["configurations", "inputs"],
 "All combinations of version ranges advertised by a broker for the APIs the client implements in more than one version, re-read on each new connection.",
 "Unit tests check a few fixed version ranges and single encodings; they never negotiate with a broker that changes its ranges between connections.",
 ["broker.go", "request.go", "response.go", "metadata_response.go", "offset_response.go", "fetch_request.go", "produce_request.go", "list_groups_request.go"],
 [("version selection", "broker.go getHighestAvailableAPIVersion"), ("versioned codecs", "request.go availableVersions and per-API Encode / New*Response")])
prop("B04", "A broker handle heals itself after a connection failure",
 "After a request fails because the connection was dropped, reset, refused or timed out, a later request on the same broker handle opens a fresh connection and succeeds as soon as the broker is healthy. One fault makes at most one request fail, no call ever hangs beyond its timeout, and the process never crashes.",
 ["fault_sequences", "schedules"],
 "All sequences of connection faults (at connect, during the handshake, before, inside and after a response) interleaved with requests from one or more callers.",
 "The tests mock one EOF; they do not explore timeouts, partial responses, refused reconnects or faults during the handshake.",
 ["broker.go", "response.go"],
 [("reopen on demand", "broker.go ensureOpen, Close, RequestAndGet")])

prop("B05", "Closing a client releases everything it opened",
 "Once a client, broker list, producer, consumer or group consumer has been closed, and what was under way has come to an end, no connection it opened stays open and it opens no more: neither the connections in use nor those that were replaced (leader or coordinator moved), lost, or opened while it was being closed. The same holds for a client that could not be created, and for the HTTP service after each answer.",
 ["histories", "fault_sequences", "schedules"],
 "All lives of one or more handles: made, used, closed in any order, with leaders and coordinators moving, connections lost, requests failing or unanswered and handshakes refused at any point, and closing at any moment of it.",
 "Tests use mock connections and look at none of them after the end; what leaks does so only on the paths after a failure or a race with closing.",
 ["brokers.go", "broker.go", "client.go", "producer.go", "simple_producer.go", "consumer.go", "simple_consumer.go", "group_consumer.go", "command/healer/cmd/apicontrollers"],
 [("connection pool", "brokers.go NewBrokersWithConfig, newBrokersFromOne, GetBroker, NewBroker, refreshMetadataFrom, Close"), ("connection", "broker.go createConnAndAuth, Close"),
  ("closing", "producer.go Close, updateCurrentSimpleProducer, followLeader; simple_producer.go Close; consumer.go AwaitClose; simple_consumer.go Stop, getLeaderBroker; group_consumer.go AwaitClose")],
 ["sockets held by the process", "connections accepted by the brokers"])

# ---------------------------------------------------------------- partition consumer
prop("C01", "A partition's messages are delivered in order, without gap or duplicate",
 "A consumer hands the application every record stored in its partition from its start position on, in offset order and exactly once, and keeps doing so across fetch errors, connection drops in the middle of a response, timeouts, leader changes, empty responses, partially returned batches and arbitrary TCP segmentation. A consumer of several partitions or topics does so for each of those it was assigned or subscribed to, and for no other.",
 ["fault_sequences", "histories", "inputs"],
 "All logs, all ways of cutting them into fetch responses, and all sequences of fetch faults.",
 "The tests feed a handful of canned responses; they never compare the whole delivered stream with the log under faults.",
 ["simple_consumer.go", "fetch_response.go", "broker.go"],
 [("fetch loop and position update", "simple_consumer.go consumeLoop, consumeMessages"), ("stream decoder and start-offset filter", "fetch_response.go streamDecode, filterMessage")],
 ["messages received from the consumer's channel"])
prop("C02", "Consumption starts at the committed, earliest, latest or given offset",
 "A consumer given an explicit offset starts exactly there. Otherwise it starts at the group's committed offset when one exists, and only if none exists at the earliest or the latest offset as configured; transient errors while looking these up are retried and never change the outcome.",
 ["fault_sequences", "configurations"],
 "All combinations of start request, group / no group, committed offset present or absent, and error sequences in the committed-offset and log-offset lookups.",
 "Unit tests mock the lookups; none combines lookup failures with the resulting first fetch position.",
 ["simple_consumer.go", "consumer.go", "offset_fetch_response.go", "offset_response.go"],
 [("start position", "simple_consumer.go Consume, getCommitedOffet, initOffset, getOffset")])
prop("C03", "An out-of-range position is reset to the configured end and consumption resumes",
 "When the broker reports that the position is out of range, the consumer resumes at the partition's earliest offset if it was asked to start from the beginning and at the latest offset otherwise, whether or not it had started from a committed offset. It keeps trying through errors in the offset lookup and never delivers or commits a position it did not obtain from the broker.",
 ["histories", "fault_sequences"],
 "All histories in which retention or truncation moves the log under the consumer, with any errors during the lookup.",
 "The only test mocks a successful lookup and does not look at which end is chosen or what happens on failure.",
 ["simple_consumer.go"],
 [("reset on OFFSET_OUT_OF_RANGE", "simple_consumer.go consumeMessages, getOffset")])
prop("C04", "Committed offsets never run ahead of delivery and never go backwards",
 "Every offset a consumer commits, automatically or on demand, is non-negative, is for its own group, topic and partition, never passes a record that was not handed to the application, and (an out-of-range reset aside) is never lower than what it committed before or than where it started. With auto-commit on, the position of everything delivered is eventually committed despite failing commits.",
 ["schedules", "fault_sequences"],
 "All interleavings of delivery, auto-commit ticks, explicit commits, slow or failing commit responses, and stop.",
 "Commit timing against delivery is a race that no existing test exercises; none looks at committed values at all.",
 ["simple_consumer.go", "group_consumer.go", "offset_commit_request.go"],
 [("auto-commit goroutine and commit", "simple_consumer.go CommitOffset, commitOffset"), ("group commit", "group_consumer.go commitOffset")])
prop("C05", "Delivered messages carry exactly the stored key, value, headers, time, offset",
 "For every record a broker returns, in old (v0, v1) and new (v2) message formats, plain or compressed with gzip, snappy or lz4, the application receives the topic, partition, offset, timestamp, key, value and headers that were stored. Null, empty, very small and large fields, many records or batches per response, and a truncated trailing batch are all handled without corrupting, losing or inventing messages.",
 ["inputs"],
 "All record batches: format, compression codec, numbers and sizes of records, keys, values, headers, offset and timestamp deltas, and all truncation points of the last batch.",
 "Tests decode one or two batches produced by the library's own encoder; the input space is unbounded and the decoder streams from a socket.",
 ["fetch_response.go", "record.go", "message.go", "lz4_compressor.go", "gzip_compressor.go", "snappy_compressor.go"],
 [("record decoding", "record.go DecodeToRecord, fetch_response.go decodeRecordsMagic2"), ("old message sets", "message.go DecodeToMessageSet")])
prop("C06", "Stopping a consumer ends it cleanly and in bounded time",
 "Stopping a consumer returns in bounded time whatever it is doing (waiting in a long poll, blocked on the application, retrying a leader or an offset lookup). Once stop has returned no further message is delivered and no further fetch is sent, and with auto-commit the final position has been committed.",
 ["schedules", "crash_points"],
 "All moments at which stop can be called, including during lookups, fetches, deliveries and retries.",
 "The tests stop a mocked consumer at one point; the outcome depends on the interleaving of three goroutines.",
 ["simple_consumer.go", "consumer.go"],
 [("shutdown", "simple_consumer.go Stop, consumeLoop; consumer.go stop, AwaitClose")])
prop("C07", "A consumer always makes progress past whatever the log contains",
 "As long as the partition has records after the consumer's position and the broker answers, the consumer eventually delivers them: a batch larger than the configured fetch size makes it ask for more until the batch fits, and batches with no visible records (compacted away, control markers, or wholly before the position) are skipped, while records written in transactions are delivered like any others. The requested fetch size stays positive.",
 ["inputs", "histories"],
 "All sequences of batches of any size relative to the configured fetch size, including empty and filtered ones.",
 "Progress is a liveness property over a retry loop; the tests look at one iteration.",
 ["simple_consumer.go", "fetch_response.go"],
 [("fetch size doubling", "simple_consumer.go consumeMessages"), ("too-small detection", "fetch_response.go decodeMessageSet")])

# ---------------------------------------------------------------- consumer group
prop("G01", "The group leader assigns every partition to exactly one subscriber",
 "Whatever the members, their subscriptions and the topics, the assignment a leader sends gives every partition of every subscribed topic to exactly one member that subscribed to it and nothing else to anyone. Each member's share of a topic is a contiguous range, shares differ by at most one, and the result depends only on the set of members and partitions and not on their order.",
 ["inputs", "configurations"],
 "All sets of members, subscriptions, topics and partition lists (including non-consecutive and unsorted ones, more members than partitions, members with disjoint subscriptions, topics without subscribers).",
 "The tests check three fixed examples.",
 ["assign.go", "group.go", "group_consumer.go"],
 [("range assignment", "assign.go Assign, assignPartitions"), ("assignment encoding", "group.go MemberAssignment.Encode")])
prop("G02", "A member follows the group protocol: join, sync, heartbeat, rejoin",
 "A group member joins, syncs with the member id and generation it was just given, consumes only after a successful sync, and heartbeats with its current member id and generation. On a rebalance, unknown-member, stale-generation or coordinator error it stops consuming, drops its identity only when told it is unknown, finds the coordinator again when it moved or died, and rejoins until it succeeds.",
 ["fault_sequences", "schedules"],
 "All sequences of coordinator answers (errors, rebalances, connection losses, coordinator moves) to join, sync and heartbeat.",
 "The tests mock one join and one sync; protocol errors arise in combinations only the coordinator chooses.",
 ["group_consumer.go"],
 [("join/sync loop", "group_consumer.go join, sync, joinAndSync"), ("heartbeat and restart", "group_consumer.go heartbeat, restart")])
prop("G03", "A member only fetches and commits what its current generation owns",
 "A group member fetches, delivers and commits only partitions of its latest assignment, and every commit carries the member id and generation under which the partition was assigned. Before it rejoins a rebalancing group it has stopped fetching and delivering the old assignment, so a partition is never consumed by one member under two generations.",
 ["schedules", "histories"],
 "All interleavings of rebalances, fetches, deliveries and commits over any number of generations.",
 "Depends on goroutines of old and new generations overlapping; the tests never run two generations.",
 ["group_consumer.go", "simple_consumer.go"],
 [("stop before rejoin", "group_consumer.go restart, stop, consumeWithoutHeartBeat"), ("generation in commits", "group_consumer.go commitOffset")])
prop("G04", "A group delivers every message to some member at least once",
 "While at least one member stays alive, every message of the subscribed topic is delivered to some member, across members joining, leaving, crashing and being expelled, coordinator failover and commit failures. A member that takes over a partition starts at the group's committed offset, so only messages not yet committed can be delivered twice; with auto-commit on, what was delivered is in the end committed even if commits failed on the way.",
 ["histories", "crash_points", "fault_sequences"],
 "All histories of membership changes, crashes at any point, coordinator and partition-leader faults.",
 "Needs several real members, a coordinator and a crash; the tests have none of them.",
 ["group_consumer.go", "simple_consumer.go"],
 [("rebalance and resume", "group_consumer.go restart, consumeWithoutHeartBeat; simple_consumer.go Consume")])
prop("G05", "Closing a group member in any state is clean",
 "Closing a group consumer at any moment (while joining, syncing, consuming, rebalancing, or with the coordinator unreachable) returns in bounded time without crashing. With a reachable coordinator a joined member (with auto-commit on) commits the position of what it delivered and then leaves the group; afterwards it sends no join, heartbeat, fetch or commit and delivers nothing.",
 ["schedules", "crash_points"],
 "All moments at which close can be called, in combination with all coordinator states.",
 "The test closes one mocked consumer once.",
 ["group_consumer.go", "consumer.go"],
 [("shutdown", "group_consumer.go AwaitClose, stop, leave")])

# ---------------------------------------------------------------- producer
prop("P01", "Every accepted message is sent once, in order, with a result",
 "Messages accepted by a producer for one partition (keyed and unkeyed ones each on their own) are put on the wire in acceptance order, each in exactly one produce request (the client attempts a batch once), in batches of at most the configured count, no later than the flush interval, an explicit flush or close. If a batch cannot be delivered, the add or flush call that sent it returns an error (a failing timer, close or refresh flush has no caller and is logged); a message is never otherwise dropped or duplicated by the client, even with concurrent callers and with buffers the caller reuses.",
 ["schedules", "fault_sequences"],
 "All interleavings of concurrent adds, timer flushes, explicit flushes and close, and all produce-response faults.",
 "There are no producer behaviour tests at all.",
 ["simple_producer.go", "producer.go"],
 [("batching and flush", "simple_producer.go AddMessage, Flush, flush"), ("retry on closed partition producer", "producer.go AddMessage")])
prop("P02", "A keyed message goes to the hash partition, at that partition's leader",
 "All messages with equal keys go to the same partition, the one given by the murmur2 hash (seed 0) of the key modulo the number of partitions, and messages are sent to the broker that leads the partition. Unkeyed messages go only to a partition without error; when leadership moves, the producer follows it after its metadata refresh.",
 ["inputs", "histories"],
 "All keys, partition counts and leader placements, and all leadership changes.",
 "No test sends a message; partition choice and routing need a cluster.",
 ["producer.go", "simple_producer.go", "brokers.go"],
 [("partitioner", "producer.go getSimpleProducer"), ("leader lookup", "producer.go updateCurrentSimpleProducer; simple_producer.go createLeader")])
prop("P03", "Produced batches are well-formed and hold exactly the given messages",
 "Every produce request is a complete, exactly sized request whose batch has correct length, checksum, record count and last offset delta, with records numbered 0,1,2,... and compressed as declared. Decoding it with an independent decoder gives back exactly the keys and values the application passed, distinguishing null from empty in both.",
 ["inputs"],
 "All message counts, key and value sizes (null, empty, one byte, larger than 64 KiB), and all compression codecs and required-acks settings.",
 "The encoder is only tested against the library's own decoder on one small example.",
 ["record.go", "produce_request.go", "simple_producer.go", "primitive_type_encode.go", "lz4_compressor.go", "snappy_compressor.go", "gzip_compressor.go"],
 [("batch encoding", "record.go RecordBatch.Encode, Record.Encode"), ("request framing", "produce_request.go Encode")])
prop("P04", "Closing a producer flushes it and later adds are refused",
 "Close sends everything accepted before it, exactly once, and returns in bounded time; it may be called more than once and concurrently with adds and flushes. A message added after close has returned is refused with an error, and nothing more is ever sent.",
 ["schedules", "crash_points"],
 "All interleavings of close with adds, flushes and the flush timer, with healthy or failing brokers.",
 "No test closes a producer.",
 ["simple_producer.go", "producer.go"],
 [("close", "simple_producer.go Close; producer.go Close")])

# ---------------------------------------------------------------- cluster and admin
prop("M01", "Any reachable broker is enough to bootstrap and to look things up",
 "A client starts if any bootstrap address answers, trying them in order, and metadata and coordinator lookups succeed as long as some known broker answers, skipping the ones that are down or failing. A broker that reports the topic's own error is believed and its error is returned; a node id that is not known is resolved by refreshing the cluster's broker list.",
 ["fault_sequences", "configurations"],
 "All sets of reachable, refusing, silent and erroring brokers and all orders in which they are tried.",
 "The tests never run more than one mocked broker.",
 ["brokers.go"],
 [("bootstrap", "brokers.go NewBrokersWithConfig, newBrokersFromOne"), ("lookup failover", "brokers.go RequestMetaData, FindCoordinator, GetBroker, refreshMetadata")])
prop("M02", "Every administrative request goes to the broker that is responsible for it",
 "Topic, partition, ACL and reassignment operations are sent to the controller, group deletion to each group's own coordinator, broker configuration reads to the named broker, offset lookups to each partition's leader, log-directory queries to every replica holder and group listing to every broker; no responsible broker is skipped and no other is asked. The controller is the one in the metadata the client got last, at its creation or when it was told to refresh it.",
 ["configurations", "inputs"],
 "All cluster layouts (controller, leaders, replicas, coordinators) and all operation arguments.",
 "Tests mock the broker lookup, so routing is never observed.",
 ["client.go", "brokers.go"],
 [("routing", "client.go; brokers.go RequestOffsets, AlterPartitionReassignments, ElectLeaders")])
prop("M03", "Administrative requests carry exactly the caller's arguments",
 "For every administrative operation the request a broker receives is a complete and exactly sized message that an independent decoder reads back as precisely the names, numbers, lists, filters and flags the caller passed, including null, empty, long and non-ASCII values.",
 ["inputs"],
 "All argument values of all administrative operations and all supported versions.",
 "Encoders are tested on one example each, several not at all.",
 ["create_topics_request.go", "delete_topics_request.go", "create_partitions_request.go", "describe_configs_request.go", "create_acls_request.go", "describe_acls_request.go", "delete_acls_request.go", "alter_partition_reassignments_request.go", "list_partition_reassignments_request.go", "elect_leaders_request.go", "delete_groups_request.go", "describe_groups_request.go", "describe_logdirs_request.go", "alter_config_request.go", "incremental_alter_config_request.go"],
 [("request encoders", "*_request.go Encode"), ("field primitives", "primitive_type_encode.go")])
prop("M04", "Administrative responses reach the caller unchanged, errors included",
 "Every value in a broker's answer to an administrative or lookup request (names, ids, offsets, states, error codes and messages, for every element of every list) is returned to the caller as sent, results of several brokers are all present under their own broker id, and a non-zero error code in an answer always surfaces as an error or in the returned structure. No well-formed answer makes the client crash.",
 ["inputs", "fault_sequences"],
 "All well-formed answers: list lengths, null and empty strings, error codes in any element, one or many brokers.",
 "Decoders are tested on one recorded example each, several not at all.",
 ["client.go", "brokers.go", "list_groups_response.go", "describe_groups_response.go", "describe_logdirs_response.go", "create_topics_response.go", "delete_topics_response.go", "create_partitions_response.go", "delete_groups_response.go", "describe_configs_response.go", "metadata_response.go"],
 [("response decoders", "New*Response / Decode*Response"), ("aggregation", "client.go ListGroups, DescribeLogDirs, DeleteGroups; brokers.go RequestOffsets")])
prop("T01", "The command-line tools report and set the real offsets",
 "The offset-reporting commands print, for every partition, the offset its leader returned and, for a group, the committed offset and the difference to the log end. Resetting a group's offset commits, to that group's coordinator and for every partition of the topic, exactly the offset its leader reports for the requested time.",
 ["configurations", "inputs"],
 "All layouts of partitions over leaders, offsets, committed offsets (including none) and requested times.",
 "The commands have no tests.",
 ["command/healer/cmd/get-offsets.go", "command/healer/cmd/get-pending.go", "command/healer/cmd/reset-offset.go"],
 [("commands", "command/healer/cmd/*.go")],
 ["stdout of the command", "offset commits received by the coordinator"])
prop("T02", "The administrative commands do what the command line says, or fail",
 "Each administrative command (topics, partitions, ACLs, configs, groups, log directories, reassignments, elections, metadata) sends, to the broker responsible and to no other, exactly the request its flags describe: every name, number, list and filter as typed, nothing that was left out, whatever characters the names contain. A command line that makes no sense (an unknown ACL operation, a number that does not fit, malformed JSON) is refused before anything is asked of a broker. The command shows what the broker answered, and exits with a failure when it got no answer; it never shows an empty or partial result as a success, and never crashes.",
 ["inputs", "configurations", "faults"],
 "All flag values (names with quotes, backslashes, spaces, any length; numbers at and beyond their range; every ACL type, operation and permission by name or number), cluster layouts, broker version ranges, broker answers with and without errors, lost answers.",
 "The commands have no tests; a wrongly parsed filter deletes what was not named.",
 ["command/healer/cmd/create-topic.go", "command/healer/cmd/create-partitions.go", "command/healer/cmd/delete-acls.go", "command/healer/cmd/create-acls.go", "command/healer/cmd/describe-acls.go", "command/healer/cmd/alter-configs.go", "command/healer/cmd/get-metadata.go", "command/healer/cmd/describe-logdirs.go", "acl_types.go"],
 [("commands", "command/healer/cmd/*.go"), ("ACL names", "acl_types.go UnmarshalText, String")],
 ["requests received by each broker", "stdout, log and exit status of the command"])
prop("T03", "The console commands lose, invent and reorder nothing",
 "simple-producer and console-producer append every line of standard input (without its line end) to the topic exactly once, with a null key, byte for byte, in input order within a partition, simple-producer to the given partition only; they exit 0 only if every line was accepted, and fail when the broker refuses a full or the last batch, when a line is too long to be read (what came before is appended) and when their flags or --config cannot be used. simple-consumer, console-consumer and group-consumer print exactly the records of the chosen partitions from the chosen position on (an offset, the beginning, the end, or the group's committed offset), each once, in order within a partition, with its offset and value (and key, with --json), until --max-messages or --stopoffset (exclusive) or an interrupt; a malformed flag or --config is a failure and prints nothing. When group-consumer ends it has left the group and committed exactly what it printed, so the next run neither skips nor repeats a record. All five send requests under the --client name.",
 ["inputs", "configurations", "histories", "faults"],
 "All inputs (empty, duplicate, binary, long and too long lines, no final newline, slow input), logs (formats, compressions, gaps, null and empty values, growing while printed), flags and configurations, refused requests, and sequences of runs of the same group.",
 "The commands have no tests at all.",
 ["command/healer/cmd/simple-producer.go", "command/healer/cmd/console-producer.go", "command/healer/cmd/simple-consumer.go", "command/healer/cmd/console-consumer.go", "command/healer/cmd/group-consumer.go", "producer.go", "simple_producer.go"],
 [("producing", "command/healer/cmd/simple-producer.go, console-producer.go"), ("consuming", "command/healer/cmd/simple-consumer.go, console-consumer.go, group-consumer.go")],
 ["records appended at the brokers", "standard output", "exit code", "offsets committed", "requests received by brokers"])
prop("H01", "The HTTP interface does and reports what is asked",
 "Each route of the HTTP interface sends, to the brokers responsible and to no others, exactly the request its path, query and body describe, and answers 200 only with what those brokers answered, complete and unchanged (for pending: each partition's log end, the group's committed offset and their difference). A request that makes no sense is refused without asking a broker to change or report anything, a failure is answered with an error status and never as a success, and no request crashes a handler or the server. A server that cannot listen fails to start.",
 ["inputs", "configurations", "faults"],
 "All paths, queries and bodies, cluster layouts and changes between requests, broker version ranges, answers with and without errors, lost answers, sequences of requests to one server.",
 "The HTTP interface has no tests.",
 ["command/healer/cmd/api.go", "command/healer/cmd/apicontrollers"],
 [("routes", "command/healer/cmd/api.go apiCmd"), ("handlers", "command/healer/cmd/apicontrollers/*.go")],
 ["requests received by each broker", "HTTP status and body"])
prop("H02", "The HTTP interface lets in only who may enter",
 "With --auth user:password, every request, whatever its method and path, that does not carry exactly those credentials is answered 401 and causes no request to any broker; the one exception is GET, HEAD and OPTIONS with --get-allowed. A request with the right credentials is never answered 401, and without --auth none is.",
 ["inputs", "configurations"],
 "All methods, paths (known, unknown, with a trailing slash), Authorization headers (missing, other schemes, malformed, near misses, passwords containing colons, empty passwords), with and without --get-allowed and --cors.",
 "The HTTP interface has no tests; one hole opens every operation of the cluster.",
 ["command/healer/cmd/api.go"],
 [("credentials", "command/healer/cmd/api.go BasicAuth"), ("registration", "command/healer/cmd/api.go apiCmd")],
 ["HTTP status", "requests received by brokers"])

prop("K01", "A client does what its own configuration says",
 "A consumer, group consumer, producer or broker client behaves as the configuration it was given (as a map, a map of strings, decoded JSON or a struct), with the documented default for what is left out: the client id, group id, session timeout, fetch sizes and wait, start of consumption, acks, compression, batch size, request timeout and SASL credentials in its requests, and how long it waits for an answer, how often it commits, flushes, heartbeats, retries and refreshes. Creating, using or closing another client, or reusing the same configuration value, changes nothing of that, and the caller's configuration value is not written to. A configuration it cannot work with (unknown type, a value of the wrong type, no group id, an unknown compression, an offsets storage other than 0 or 1, an interval or count that is not positive) is refused with an error and never crashes a client.",
 ["inputs", "configurations", "histories"],
 "All combinations of options over all client kinds, ways of giving them, orders of creating clients side by side, and which answer is withheld.",
 "Tests decode a few maps and look at fields; none looks at what a client sends or how long it waits, and none creates two clients from the same defaults.",
 ["config.go", "consumer.go", "simple_consumer.go", "group_consumer.go", "producer.go", "simple_producer.go", "brokers.go", "broker.go"],
 [("decoding and defaults", "config.go createConsumerConfig, createProducerConfig, getBrokerConfigFromConsumerConfig, getBrokerConfigFromProducerConfig"), ("time-outs per request", "config.go resetTimeoutMSForEachAPI; broker.go"), ("validity", "config.go checkValid")],
 ["requests received by brokers", "time from a withheld answer to giving up", "the caller's configuration value", "error or client returned"])
prop("K02", "TLS is on where it is asked for",
 "With TLS enabled a client sends no byte of a request in the clear, on the first or any later connection, whatever a broker does or shows, and completes a handshake only with a broker whose certificate is signed by the configured authority, is in date and bears the configured server name (or else the host it dialled), unless verification was switched off; it presents the configured certificate and proves its key. When certificate, key or authority cannot be loaded it fails without connecting, a broker that cannot be verified or does not speak TLS is an error within the connect timeout, and a broker that can be verified is used. Without TLS it speaks plain text. Each client goes by its own settings.",
 ["inputs", "configurations", "faults", "histories"],
 "All settings (missing, unreadable, mismatched files, authorities, names, skip) over brokers' identities (good, other name, expired, not yet valid, other authority, self-signed, requiring a client certificate, plain, mute), identities changing across reconnects, and several clients side by side.",
 "No test opens a TLS connection; what matters is what is refused and what a reconnect does.",
 ["config.go", "broker.go"],
 [("settings", "config.go TLSConfig; broker.go createTLSConfig"), ("dialling", "broker.go (dial)")],
 ["bytes on the wire", "handshakes completed and certificates presented", "requests received per connection", "errors returned to the caller"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
