import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["return values and iterator contents of the public store API"]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

INM="provider/inmemorystore/inmemory_store.go"; LDB="provider/leveldbstore/leveldb_store.go"
REM="provider/remotestore/remote_store.go"; SRV="pkg/grpc/rangedbserver/server.go"; ENC="provider/encryptedstore/encrypted_store.go"
p("P01","Every read path shows the same log",
 "Every saved and not deleted event appears exactly once in a read of the whole store, exactly once in a read of its stream and exactly once in a read of its aggregate type, with the same identity, positions, type, data and metadata it was saved with, and nothing else ever appears. Every read returns events in increasing position order, starts exactly at the requested position (inclusive), and a read of several aggregate types is the position-ordered merge of the single-type reads. The stream's event count equals the number of events a full read of the stream returns.",
 ["histories","inputs"],"all histories of saves, optimistic saves and deletions over any streams, aggregate types and ids; all start positions; all sets of aggregate types; in-memory, LevelDB, remote and encrypted stores",
 "The store test-suite checks a dozen fixed histories with one or two streams and one start position each; agreement of three indexes after arbitrary histories with deletions is universally quantified over histories.",
 [INM,LDB,REM,"merge_record_iterators.go"],[("all/stream/aggregate-type indexes written together",INM+" saveEvent; "+LDB+" saveEvent"),("k-way merge by global position","merge_record_iterators.go MergeRecordIteratorsInOrder"),("seek + filter on start position",LDB+" getEventsByLookup/getEventsByPrefix; "+INM+" recordsByIDs")],
 [("records/recordData/streams/aggregateTypes","in-memory indexes",INM),("$all$, $s$, $at$ key spaces","LevelDB indexes",LDB)])
p("P02","Sequence numbers are gapless per stream, global ones are never reused",
 "The events of a stream are numbered 1, 2, 3, ... in the order they were saved, the number returned by a save is the stream position of its last event, and a stream that is deleted and written again starts over at 1. Global positions strictly increase in the order saves take effect and the position of an event that was once readable is never given to another event, even after that event's stream is deleted, after failed saves, or after the database is closed and reopened. Event ids are distinct.",
 ["histories","schedules","crash_points"],"all histories of successful and failed saves, deletions and reopenings, sequential and concurrent",
 "Existing tests assert numbers for a few hard-coded sequences; they never delete the newest stream, fail a batch, reopen and then save again.",
 [INM,LDB],[("global counter kept outside the indexes",INM+" globalSequenceNumber; "+LDB+" globalSequenceNumberKey"),("next stream position derived from the stream index",INM+" getStreamSequenceNumber; "+LDB+" getSequenceNumber")])
p("P03","A save is all-or-nothing",
 "A save of several events either takes effect completely, with all of its events stored contiguously in the given order, or returns an error and leaves every read, every stream count and every later save exactly as if it had not been attempted. This holds whatever makes it fail and at whichever event of the batch: a mismatching aggregate type or id, an event or metadata that cannot be serialized, a stale expected position, a cancelled context or an empty batch. No subscriber ever receives an event of a save that failed.",
 ["inputs","fault_sequences","histories"],"all batches, failure kinds and failing positions within the batch, on any prior history, streams with conventional or arbitrary names",
 "The suite fails the second event of two-event batches into an empty store with the default stream name only; residue left in one of several indexes, or for other failure positions, is not observable there.",
 [INM,LDB,REM],[("rollback of already applied events",INM+" removeRecentEvents"),("one database transaction per batch",LDB+" saveEvents"),("notify subscribers only after commit",INM+" saveEvents; "+LDB+" saveEvents")])
p("P04","Optimistic saves: stale writers always lose, without effect",
 "A save with an expected stream position succeeds exactly when the stream's current position equals the expected one at the moment it takes effect (0 for a stream without events); otherwise it changes nothing and reports both the expected and the true current position. Of any number of concurrent writers expecting the same position of the same stream at most one succeeds. Saves without an expectation never fail for that reason.",
 ["schedules","inputs","histories"],"all expected positions (lower, equal, higher), batch sizes, histories and interleavings of concurrent writers, locally and through the remote store and HTTP API",
 "Tests try single stale writers sequentially; the at-most-one-winner guarantee quantifies over interleavings of concurrent writers and over batches.",
 [INM,LDB,REM,SRV,"pkg/rangedberror/errors.go"],[("check and append under one exclusive lock/transaction",INM+" saveEvents; "+LDB+" saveEvents"),("error details parsed back from the wire",REM+" OptimisticSave")])
p("P05","Deleting a stream removes that stream completely and nothing else",
 "Deleting a stream with the correct expected position removes all of its events from every read path and every event of other streams stays readable, unchanged and at its position; the deleted stream then behaves as one that never existed. Deleting with a wrong expected position, deleting a stream that does not exist, or deleting with a cancelled context reports the matching error and changes nothing.",
 ["histories","inputs"],"all histories and interleavings of stream contents and aggregate types, any expected position, delete/recreate cycles, multiple aggregate types within one stream",
 "Tests delete from stores holding one or two short streams; removal from shared index slices during iteration only misbehaves for specific interleavings of streams.",
 [INM,LDB,SRV],[("index removal per global position",INM+" OptimisticDeleteStream"),("batched key deletion in a transaction",LDB+" OptimisticDeleteStream")])
p("P06","Streams and aggregate types are isolated from each other by name",
 "Operations on one stream or aggregate type never include, number, count or delete events of another one, whatever the (valid UTF-8) names are: names that are prefixes or extensions of each other, or that contain separator characters, are different names. A stream may hold events under any stream name, not only the conventional type-and-id name.",
 ["inputs","histories"],"all pairs of distinct stream names and aggregate type names, including prefixes and names with separator characters such as '$' and '!'",
 "Tests only use names that are not extensions of each other; the key encoding is only exercised on benign inputs.",
 [LDB,INM],[("length-delimited keys: prefix + 8 byte number",LDB+" getStreamKeyPrefix/getAggregateTypeKeyPrefix"),("map keyed by name",INM)])
p("P07","Concurrent operations are linearizable",
 "Any concurrent execution of saves, optimistic saves, deletions, counts and reads gives results that some sequential order of the same operations, consistent with their real-time order, would give. In particular each read, including a read of several aggregate types, shows the log as of one single moment, and never a partially applied batch or deletion.",
 ["schedules","histories"],"all interleavings of concurrent clients on the in-memory, LevelDB and remote stores",
 "No existing test runs two writers and readers concurrently and checks the combined outcome; the property quantifies over schedules.",
 [INM,LDB,"merge_record_iterators.go"],[("reader/writer lock held for the whole read or write",INM+" mux; "+LDB+" mux")])
p("P08","LevelDB: reopening after any crash point recovers exactly whole saves",
 "After the process is killed at any moment and the LevelDB store is reopened, every save and deletion that had been acknowledged is fully present, each operation that was in flight is either fully present or fully absent, and nothing else is present. The reopened store has consistent read paths, keeps numbering streams and global positions without reuse, and accepts further operations. Closing and reopening changes nothing observable.",
 ["crash_points","histories"],"all crash points during any history of saves, multi-event batches and deletions, including repeated crashes",
 "The suite has no crash or reopen-and-continue test beyond reading one saved event back; crash points are never sampled.",
 [LDB],[("one LevelDB transaction for all index keys and the global counter of a batch",LDB+" saveEvents, OptimisticDeleteStream")])
p("P09","Subscriptions deliver every matching event exactly once, in order",
 "A subscription started from a position delivers every event of the log at or after that position that matches its aggregate types, and one started without a position every matching event saved after the start returns, each exactly once, in increasing global position and without omissions, whatever saves run concurrently with starting it and however catch-up and live delivery overlap. (Without a position it may begin with events whose delivery was still under way when it started.) A position that no event has reached yet is valid: the subscription then begins with the event that gets that position. Nothing that does not match, that precedes the start, or that was not saved is delivered.",
 ["schedules","histories","inputs"],"all interleavings of concurrent savers with subscription start, catch-up, hand-over and live delivery; all start positions, including future ones; all filters; in-memory, LevelDB, remote",
 "Tests start a subscription with no concurrent writers and check one or two events; the catch-up/live hand-over race is never exercised.",
 ["pkg/recordsubscriber/record_subscriber.go","pkg/broadcast/broadcaster.go",INM,LDB,REM,SRV],[("read, subscribe, read again, drop already sent",  "pkg/recordsubscriber/record_subscriber.go StartFrom/work"),("single goroutine broadcast in commit order","pkg/broadcast/broadcaster.go start"),("broadcast in commit order",LDB+" saveEvents; "+INM+" saveEvents")],
 None,["subscriber callbacks"])
p("P10","A slow, stopped or failing subscriber loses only its own tail",
 "A subscriber that does not keep up may be cut off, but what it received is always a gapless prefix of what it should have received, also when it follows several aggregate types; it is never resumed after a gap. Slow, stopped, cancelled or cut-off subscribers never cause another subscriber to miss, repeat or reorder events and never make saves fail or block forever. After a subscription was stopped it eventually receives nothing more. A subscription that was cut off, or whose connection was lost, ends visibly instead of waiting for events it will not receive: it reports being done, and a remote client's stream is closed.",
 ["schedules","fault_sequences"],"all buffer sizes, consumer delays, numbers of subscribers and filters, stop and cancel times relative to saves",
 "The tests check that one slow subscriber is dropped; that no later record reaches it and that others are unaffected depends on the interleaving.",
 ["pkg/broadcast/broadcaster.go","pkg/recordsubscriber/record_subscriber.go"],[("send with timeout, then remove and stop the subscriber","pkg/broadcast/broadcaster.go broadcastRecord"),("context cancelled on stop","pkg/recordsubscriber/record_subscriber.go Stop/work")],None,["subscriber callbacks"])
p("P11","A read never passes off a truncated result as complete",
 "A read that ends without reporting an error has returned every event it should return. When a read is cut short - because the context was cancelled, a stored event cannot be decoded or decrypted, the stream does not exist or the connection fails - the reader is told so by an error, after a correct prefix of the events, and this also holds through merged, encrypted and remote reads. A subscription whose catch-up read fails reports the failure instead of starting.",
 ["fault_sequences","inputs"],"all failure kinds and positions within a read, all read kinds and start positions, one or several aggregate types, all store layers",
 "Tests inject a decoding failure at the first event of single-source reads only; combinations of failing position, layer and merge are not covered.",
 ["record_iterator.go","merge_record_iterators.go","publish_record.go",INM,LDB,REM,SRV,"provider/encryptedstore/decrypting_record_iterator.go","pkg/recordsubscriber/record_subscriber.go"],[("error as final element of the result channel","record_iterator.go; publish_record.go")])
p("P12","A failed, cancelled or abandoned call never wedges the store",
 "Every call to the store returns, and after any call that failed, was cancelled or whose results were abandoned by cancelling its context, every other client can still read, save, delete and subscribe. In particular no failed deletion or save, and no combination of concurrent multi-type reads and writers, leaves the store blocked forever, and no call makes it panic.",
 ["fault_sequences","schedules","histories"],"all kinds of failing calls at any point of any history, concurrent readers and writers",
 "The tests end after the failing call, so a lock or transaction that is never released goes unnoticed; lock order deadlocks need a specific schedule.",
 [INM,LDB,"publish_record.go"],[("unlock/discard on every exit",INM+" saveEvents; "+LDB+" saveEvents/OptimisticDeleteStream"),("read lock released when the iterator ends or its context is cancelled",INM+" recordsByIDs; "+LDB+" getEventsByPrefix/getEventsByLookup")])
p("P13","The remote store is indistinguishable from its backing store",
 "Every operation performed through the remote client and server has the effect the same operation has on the backing store and reports the same outcome: the same records with the same identity, positions, data and metadata in the same order, the same stream positions and counts, and the same kind of error with the same expected and actual positions. Events saved remotely and locally are visible to both sides.",
 ["histories","inputs"],"all operation histories mixed between remote and local clients, all failing calls, in-memory and LevelDB backing stores",
 "The remote tests re-run the fixed store suite; equivalence is quantified over histories and argument values.",
 [REM,SRV,"pkg/grpc/rangedbpb/translate.go"],[("request/response translation","pkg/grpc/rangedbpb/translate.go"),("error mapping by text",REM)])
p("P14","The HTTP API exposes the log faithfully",
 "Saving, deleting and reading through the HTTP API has exactly the effect and result of the same operation on the store: a success status is returned exactly when the operation took effect, a conflict exactly when the expected position was stale, not-found exactly when a stream to delete does not exist, and the event listings in every offered format contain exactly the events of the store, stream or aggregate types, in order. The listed aggregate type totals equal the number of saved events per type.",
 ["histories","inputs"],"all histories of API requests with and without expected positions, all listing formats, over any store content",
 "The API tests check individual fixed requests.",
 ["pkg/rangedbapi/api.go","provider/jsonrecordiostream/json_record_io_stream.go","provider/ndjsonrecordiostream/ndjson_record_io_stream.go","provider/msgpackrecordiostream/msgpack_record_io_stream.go"],[("handlers","pkg/rangedbapi/api.go")],None,["HTTP responses"])
p("P15","WebSocket feeds deliver every matching event exactly once, in order",
 "A WebSocket client connected from a position receives, as one message per event, every event at or after that position (of the requested aggregate types), each exactly once and in order, across catch-up and live delivery and with concurrent savers and other clients connecting and disconnecting. Clients that stop reading, however many, are cut off visibly (their connection is closed) and take no event away from the others; clients that connect later are served.",
 ["schedules","histories"],"all interleavings of savers, connecting, disconnecting and stalling clients, start positions and filters",
 "Tests connect one client and save one or two events; hand-over races and client churn are not covered.",
 ["pkg/rangedbws/websocket_api.go","pkg/recordsubscriber/record_subscriber.go","pkg/broadcast/broadcaster.go"],[("per-connection record subscriber","pkg/rangedbws/websocket_api.go")],None,["WebSocket messages"])
p("P16","Encrypted store: plaintext never at rest, decrypted for every reader",
 "With the encrypting store, the protected fields of every event are stored only in encrypted form, and every read and every subscriber of the encrypting store gets exactly the original event, however many readers and subscribers there are and how often a record is looked at. A failed save, alone or retried with the same event, neither stores an event nor corrupts what is stored later, and all other guarantees of the underlying store are preserved.",
 ["histories","schedules","fault_sequences"],"all histories of saves (failed, retried, optimistic), reads and any number of concurrent subscribers on encrypted and underlying store",
 "Tests save and read one event with one subscriber; retry after failure and several subscribers sharing a record are never exercised.",
 [ENC,"provider/encryptedstore/decrypting_record_iterator.go","provider/encryptedstore/decrypting_record_subscriber.go","pkg/crypto/eventencryptor/event_encryptor.go"],[("encrypt before save, decrypt on read/notify",ENC)],None,["raw reads of the underlying store; reads and callbacks of the encrypting store"])
p("P17","Deleting a subject's key shreds its data forever",
 "Once a subject's key has been deleted, the plaintext of that subject's protected data can not be obtained through any read or subscription started afterwards, no new event can be saved with protected data of that subject, and no later operation, concurrent or not, makes it readable again. A read that reaches such an event reports that the subject was removed, a subscription delivers the event without the protected data. Data of all other subjects stays readable.",
 ["histories","schedules"],"all histories and interleavings of saves, reads, key deletions and re-saves over several subjects, with plain and cached key stores",
 "Tests delete one key after one save; permanence quantifies over all later operations and races between first use, caching and deletion.",
 ["pkg/crypto/eventencryptor/event_encryptor.go","pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go","pkg/crypto/provider/cachekeystore/cache_keystore.go",ENC],[("tombstone on delete","pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go Delete"),("get-or-create key","pkg/crypto/eventencryptor/event_encryptor.go Encrypt")],None,["key store results; encrypted store reads"])
p("P18","Key stores: a key is set once, never changes, and deletion is final",
 "A key store returns for a subject exactly the one key that was successfully set for it until it is deleted and a removed-error ever after; setting a key for a subject that has or had one, setting an empty key or reusing any key is refused. A cached key store behaves as the store it caches under every interleaving of concurrent gets, sets and deletions: a get of an existing key succeeds with that key and, once a deletion has returned, no get returns the key. (Deleting the key of a subject that never had one may mark it removed. The Vault and DynamoDB stores do not notice a key that another subject used.)",
 ["schedules","histories"],"all histories and interleavings of get, set and delete over several subjects and keys, plain and layered caches with any initial cache content",
 "The key-store suite runs each call once sequentially; caching races need interleavings.",
 ["pkg/crypto/provider/inmemorykeystore/inmemory_keystore.go","pkg/crypto/provider/cachekeystore/cache_keystore.go","pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go","pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go"],[("read-through, write-through cache","pkg/crypto/provider/cachekeystore/cache_keystore.go")],None,["key store results"])
p("P19","A projection resumed from a snapshot equals an uninterrupted one",
 "The aggregate type statistics always equal the fold of every event delivered to them: per-type counts, total and latest position agree with each other and with the log, each event counted exactly once. Restarting from a snapshot taken at any point and catching up gives exactly the result of never having stopped, for every point at which the snapshot was taken or its writing was interrupted; an unreadable snapshot is reported and treated as absent. (Deleting a stream is not an event: the statistics keep counting its events.)",
 ["histories","crash_points","schedules"],"all histories, snapshot points, restart points, truncation points of the snapshot file and saves concurrent with restart",
 "Tests snapshot and load once with a fixed history; resume-with-new-events and torn snapshots are not covered.",
 ["pkg/projection/aggregate_type_stats.go","pkg/projection/disk_snapshot_store.go","pkg/rangedbapi/api.go"],[("snapshot save/load","pkg/projection/disk_snapshot_store.go"),("resume after latest position","pkg/rangedbapi/api.go initProjections")],None,["projection getters"])
p("P20","Exporting and importing records preserves them",
 "Writing any sequence of records to a record stream in any of the supported formats and reading it back yields the same records in the same order with the same positions, names, ids, timestamps, types, data and metadata; serializing and deserializing a record does the same, for registered and unregistered event types. If the source fails, or the stream is cut in the middle of a record or of the list of records, or is damaged, an error is reported after a correct prefix of the records. (An event without data cannot be serialized as JSON and is refused. In the msgpack formats numbers inside data of unregistered event types and inside metadata may come back as their decimal string.)",
 ["inputs","fault_sequences"],"all record sequences over registered/unregistered types, with/without metadata, and all truncation points and source failures",
 "Tests round-trip two fixed records per format and one kind of failure.",
 ["provider/jsonrecordiostream/json_record_io_stream.go","provider/ndjsonrecordiostream/ndjson_record_io_stream.go","provider/msgpackrecordiostream/msgpack_record_io_stream.go","provider/jsonrecordserializer/json_record_serializer.go","provider/msgpackrecordserializer/msgpack_record_serializer.go"],[("streamed encode/decode","provider/*recordiostream")],None,["iterators and error channels"])
p("P21","Commands are decided on the full stream and their events recorded in order",
 "Dispatching a command loads its aggregate from all events of the command's stream in order, hands the command to the aggregate registered for its type exactly once, and saves the resulting events in order to their streams; the returned events are exactly those that were saved, and an event that cannot be saved does not keep the following ones from being saved. An aggregate registered as a factory is constructed anew for every command, so that nothing of another stream or command is left in it. The registration made last for a command type counts. A command without a registered aggregate changes nothing.",
 ["histories","inputs"],"all histories of dispatched commands over several aggregates, types and ids, with save failures at any event",
 "Tests dispatch one or two commands.",
 ["pkg/cqrs/cqrs.go"],[("load, handle, save","pkg/cqrs/cqrs.go Dispatch")],None,["aggregate callbacks; store reads; returned events"])
p("P22","The chat application decides every command on its own room or user, and moderates every message",
 "In the example chat application (its aggregates constructed for every command) a command is decided only by the events of its own room or user, whatever other rooms and users did, also when commands are dispatched concurrently: a user is on-boarded once, joining needs an existing room that did not ban the user, messages need an existing room. Every message with a restricted word is followed by exactly one reaction: a private message and a warning while the user has fewer than two warnings, removal from the room and a ban otherwise; warnings of earlier runs count, messages of earlier runs are not reacted to again.",
 ["histories","schedules"],"all histories and interleavings of commands over several rooms and users, with existing history and stream deletions",
 "Tests dispatch a single command against a fixed history.",
 ["examples/chat/chat.go","examples/chat/room_aggregate.go","examples/chat/user_aggregate.go","examples/chat/restricted_word_processor.go","examples/chat/warned_users_projection.go"],[("aggregates constructed per command","pkg/cqrs/cqrs.go WithAggregateFactories (examples/chat/chat.go New shares them: known finding)"),("processor subscribes to new events only","examples/chat/chat.go New")],None,["store reads and saves, subscriber callbacks, returned events"])
p("P23","Paging through the web interface finds every event once, and its live feeds miss nothing",
 "Following the Next links of the web interface's pages of a stream or aggregate type, at any page size, shows every event of it exactly once and in order, also while events are saved and streams deleted between two pages: no event that stays in the store is skipped, none is shown twice, and no other event is shown. Following Previous leads back to the page before. A page offers Next exactly when there is more to show. Totals shown agree with the events, links lead to the page of the very name they are shown with, whatever its characters, and a page that cannot be read completely is answered with an error and not shown as complete. A live feed of an aggregate type shows every matching event saved after the connection was established exactly once, in order, with a running count that grows by one per event; the live totals catch up with every aggregate type. A feed of a browser that does not keep up shows a gapless prefix and is then closed.",
 ["histories","inputs","schedules"],"all histories, names, page sizes and page walks with saves and deletions between the requests; all interleavings of connecting to a live feed and saving",
 "Tests show a single page of a handful of events with conventional names and no change between the pages.",
 ["pkg/rangedbui/ui.go","pkg/paging/paging.go","pkg/rangedbui/templates"],[("page computed from a position and an item count","pkg/paging/paging.go Links; pkg/rangedbui/ui.go readPage"),("total read before the subscription of a live feed starts","pkg/rangedbui/ui.go realtimeEventsByAggregateType")],None,["HTTP responses and WebSocket messages of the web interface"])
p("P24","Generated code protects what is marked and knows what is declared",
 "For every declaration of events (any number and order of string and number fields, declared alone or together, with tags in any quoting), the event generator either refuses it, or the generated code compiles and its Encrypt replaces exactly the fields marked as personal data by cipher texts of the event's subject and changes nothing else, Decrypt restores exactly the event there was, a failure at any use of the key leaves the event as it was, and a removed key leaves no personal data in it. Personal data that cannot be protected (no subject, no text or target to hold the cipher text) never ends up in working code. Generated events and commands carry their own ids and types, the generated binder binds every declared event once in order, and a generated aggregate applies every event it knows in order until an error, handles each of its commands exactly once, and returns the events raised by that command only.",
 ["inputs","fault_sequences"],"all declarations within the supported field types, all values, all sequences of encrypting and decrypting with failures of the key at any use",
 "Tests compare the generated text for a few declarations; whether arbitrary declarations lead to code that protects every marked field is not observable there.",
 ["gen/eventgenerator/main.go","gen/aggregategenerator/main.go","gen/commandgenerator/main.go","gen/eventbinder/main.go","pkg/eventparser/event_parser.go","pkg/eventparser/event_writer.go","pkg/structparser/struct_names.go","pkg/aggregategenerator/write_aggregate.go","pkg/commandgenerator/write_command.go"],[("fields collected from struct tags","pkg/eventparser/event_parser.go Visit"),("encrypt into variables, then assign","pkg/eventparser/event_writer.go")],None,["the generators' results; generated code, compiled and called"])
p("P25","The server program loses nothing across its services, kills and restarts",
 "All services of one server program (HTTP API, gRPC, WebSocket feeds, web pages) work on the same log: what one of them answered to have saved or deleted is at once what every other one reads, expected positions are honoured across them, concurrent requests of any of them take effect one after the other, and subscribers of any of them receive every event in order, whoever saved it. When the program is killed at any moment and started again on the same directory, everything it had answered is still there with the same positions, ids, timestamps, data and metadata, a request it had not answered took effect completely or not at all, new events continue the numbering, and its statistics count every stored event once. When it is interrupted it stops with status 0 within a bounded time, answers the HTTP requests it was working on, and ends every feed visibly. A second program on the directory of a running one is refused and does not disturb it.",
 ["histories","schedules","crash_points"],"all sequences and interleavings of requests to all services, with kills, interrupts and restarts at any moment, on disk and (without restarts) in memory",
 "No existing test runs cmd/rangedb: how the services share the store, what a kill, an interrupt or a restart leaves, and the order in which it shuts down are never exercised.",
 ["cmd/rangedb/main.go","pkg/rangedbapi/api.go","pkg/grpc/rangedbserver/server.go","pkg/rangedbws/websocket_api.go","pkg/rangedbui/ui.go","pkg/projection/disk_snapshot_store.go","provider/leveldbstore/leveldb_store.go"],[("one store behind every service","cmd/rangedb/main.go main"),("services stop before the store is closed","cmd/rangedb/main.go main"),("statistics continue from the snapshot","pkg/rangedbapi/api.go initProjections")],None,["answers of all services of the running program, its exit status, and what it reads after a restart"])
p("P26","The subscriber programs print every event once and in order",
 "A subscriber program (over gRPC or WebSocket, for all events or for any list of aggregate types) prints every matching event that is stored when it starts or saved later, completely and exactly as the server has it, exactly once and in the order of global positions; events deleted before they were delivered may be missing. The gRPC program survives the end of its server: whenever the server is killed or interrupted and comes back at the same address, it connects again and goes on with the first event it has not printed, without repeating or skipping any, also if the server ended in the middle of a delivery. The WebSocket program ends when its connection does. Asked to stop, both end.",
 ["histories","crash_points","schedules"],"all histories of saves and deletions with any number of ends and returns of the server at any moment",
 "No test runs the subscriber programs; what they ask for after a lost connection is only observable with a server that ends and comes back.",
 ["cmd/grpc-event-subscriber/main.go","cmd/ws-event-subscriber/main.go","pkg/grpc/rangedbserver/server.go","pkg/rangedbws/websocket_api.go"],[("position to continue from after a lost connection","cmd/grpc-event-subscriber/main.go connectAndListen"),("read until the connection ends","cmd/ws-event-subscriber/main.go readEventsForever")],None,["what the subscriber programs print, and that they end"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
