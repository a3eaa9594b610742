#!/usr/bin/env python3
# Generates /verif/properties.jsonl from one readable table.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","A request performs exactly the operation and data it names",
 "Every request frame the server accepts, whether it stands alone or continues a transaction, runs the one storage operation its command names, on the target it belongs to (the store itself, or the transaction of its stream), with exactly the key, value, expiry, tag and scan options encoded in that frame and nothing left over from earlier frames. The reply carries only the outcome of that operation.",
 ["inputs","histories"],"All sequences of request frames on a connection or stream, with any payloads.",
 "The tests send a few well-formed frames, one operation of each kind; leftovers between frames and swapped fields need particular sequences of commands with particular optional fields.",
 ["server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_delete.go","server/cmd_exists.go","server/cmd_scan.go","server/server.go","server/cmd.go"],
 [("frame decoding and dispatch","server/common.go handleTxnContinuedFrame; server/cmd_*.go ServeQRPC"),("operation handlers","server/common.go handle*"),("command routing","server/server.go New")])
p("P02","Every request gets exactly one matching reply, or its stream ends",
 "For every request frame the server writes exactly one reply, with the request's id, the reply command that belongs to the request's command and the reply's complete contents, or it stops serving that stream; it never goes on to the next frame of a stream without having answered the current one. A reply that ends a transaction is marked as the end of its stream and no other reply is, and a transaction that was answered as ended serves no further frame.",
 ["inputs","histories","fault_sequences"],"All frame sequences, including unknown commands, undecodable payloads and failing writes.",
 "Tests exchange a handful of valid frames; unknown commands, undecodable payloads and write failures in the middle of a stream are not sampled.",
 ["server/common.go","server/cmd_set.go","server/cmd_get.go","server/cmd_delete.go","server/cmd_exists.go","server/cmd_scan.go","server/cmd.go"],
 [("reply writing","server/common.go writeRespBytes, writeStreamRespBytes"),("stream loop","server/common.go handleTxnContinuedFrame")])
p("P03","Transactions, iterators and batches are released on every exit",
 "Every storage transaction, iterator and write batch that the system itself opens is finished exactly by committing, discarding or closing it on every way out of the operation that opened it: success, every error, and a panic in user supplied code. Nothing is read from or written to a transaction after the system has discarded it.",
 ["inputs","fault_sequences"],"All control-flow paths, with every storage call failing or succeeding and every callback returning or panicking.",
 "A leaked transaction is invisible to a functional test: the operation still returns the right answer, and only a long history exhausts resources.",
 ["provider/badger.go","provider/badger_txn.go","provider/leveldb.go","util/util.go","server/common.go","server/cmd_set.go","client/client.go","document/collection.go","document/dml/collection.go","document/ddl/ddl_worker.go","document/domain/domain.go","document/db.go","document/sequence.go"],
 [("deferred discards","util/util.go RunInNew*; server/cmd_*.go; provider/badger.go"),("iterator lifetime","provider/badger.go scanByBadgerTxn, provider/leveldb.go Scan")])
p("P04","Transaction helpers are all-or-nothing",
 "A helper that runs a caller's function in a new transaction commits if and only if the function succeeded and reports success if and only if that commit succeeded; otherwise nothing the function wrote becomes visible and the caller sees the error. A helper meant for reading never commits, an after-commit action runs only after a successful commit, and a cancel action runs only when the commit failed.",
 ["inputs","fault_sequences"],"All caller functions (succeeding, failing, panicking) and all outcomes of the commit.",
 "Commit failures cannot be provoked through the public interface in the tests.",
 ["util/util.go","client/client.go","client/client_txn.go","document/txn/txn.go","provider/badger.go"],
 [("transaction helpers","util/util.go RunInNewTxn, RunInNewUpdateTxn, RunInNewUpdateTxnWithCallback, RunInNewUpdateTxnWithCancel, TryCommitWhenTxnTooBig"),("remote helpers","client/client.go Update, View"),("single-operation transactions","provider/badger.go Set, Delete")])
p("P05","Distinguished errors survive every layer",
 "A missing key and an over-large transaction are reported to the caller as the same documented error values whether the store is used directly, through either storage engine, or through a client and server, inside or outside a transaction; no other failure is ever reported as one of them, and no failure becomes a success on the way. A success reply carries the success code and a failure never does.",
 ["inputs","fault_sequences"],"All operations, all storage outcomes, on both engines and through the network path.",
 "The tests check the missing-key error on one path; an over-large transaction and internal failures are never produced through the network path.",
 ["server/common.go","client/client.go","client/client_txn.go","client/pberror.go","provider/badger.go","provider/badger_txn.go","provider/leveldb.go","kv/error.go","server/code.go"],
 [("error to code","server/common.go handle*"),("code to error","client/client.go parse*"),("engine error mapping","provider/badger_txn.go, provider/leveldb.go")])
p("P06","A scan never returns more than its limit",
 "A scan request answered by the server returns at most as many entries as its limit, at most one thousand in any case, and none for a limit of zero or below, whatever the client sends. A client scan asks for at most its limit and at most one thousand entries, and returns no entry for a limit of zero or below.",
 ["inputs"],"All limits (negative, zero, huge) and all store contents.",
 "Tests scan small stores with one or two limits.",
 ["server/common.go","client/client.go","client/client_txn.go","mondis.go"],
 [("server limit","server/common.go handleScan"),("client limit","client/client.go Scan, client/client_txn.go Scan")])
p("P07","Malformed or missing input is an error, never a crash",
 "No bytes received from the network or read from the store, and no absent optional part of a message, makes the process panic: decoders, request handlers and reply parsers return an error or treat the part as absent for every input. A stream that ends early yields an error rather than a crash.",
 ["inputs","fault_sequences"],"All byte strings and all messages with any subset of optional parts, and streams cut at any point.",
 "Inputs that crash are exactly those a round-trip test never produces: the encoder under test always writes well-formed data.",
 ["server/common.go","client/client.go","client/client_txn.go","kv/compact/bytes.go","kv/compact/number.go","kv/memcomparable/bytes.go","kv/memcomparable/number.go","kv/memcomparable/float.go","kv/numeric/binary.go","structure/hash.go","structure/keys.go","document/keys.go","document/dml/keys.go","structure/list.go"],
 [("codec decoders","kv/compact, kv/memcomparable, kv/numeric"),("key decoders","structure/keys.go, document/keys.go, document/dml/keys.go"),("reply parsing","client/client.go parse*")])
p("P08","Nothing runs against a store that is not open",
 "The server opens the store before it accepts requests, and stops accepting and serving requests before it closes the store; a store that failed to open is never served.",
 ["schedules","histories","fault_sequences"],"All orders of start, stop and in-flight requests, and failures of each step.",
 "Tests start and stop one server with no request in flight.",
 ["server/server.go"],
 [("start and stop order","server/server.go Start, Stop")])
p("P09","A failed storage operation is never reported as success",
 "When any storage read, write, delete, scan, commit, encoding or decoding step inside an operation fails, the operation as a whole reports an error, unless the failure is the documented missing-key outcome that the operation is defined to treat as absence. This holds for every operation of every layer built on the store.",
 ["fault_sequences","inputs"],"Every operation of the structure, document, schema and sequence layers, with each individual storage or coding step failing.",
 "No test injects storage failures, so an error lost on some path is never observed.",
 ["structure/hash.go","structure/list.go","structure/string.go","document/collection.go","document/db.go","document/sequence.go","document/meta/meta.go","document/meta/sequence/sequence.go","document/dml/collection.go","document/ddl/ddl_api.go","document/ddl/ddl_worker.go","document/ddl/util.go","document/domain/domain.go","kv/util.go","util/util.go","provider/badger.go","provider/leveldb.go"],
 [("error propagation","every function returning an error")])
p("P10","Both storage engines honour one key-value contract",
 "Set, get, exists, delete, scan and batch writes mean the same on both engines: exactly the given key and value are stored, with the expiry and tag, or the operation is refused; an absent key is reported as absent and an empty value as empty without error. A scan visits each matching entry once, in the requested direction and from the requested offset, until the callback asks to stop, or is refused with an error.",
 ["inputs","histories"],"All keys, values, metadata and scan options, on both engines.",
 "The provider test stores one key per engine and never scans with prefix, offset or reverse together.",
 ["provider/badger.go","provider/badger_txn.go","provider/badger_wb.go","provider/leveldb.go","provider/leveldb_wb.go","provider.go"],
 [("badger engine","provider/badger*.go"),("leveldb engine","provider/leveldb*.go")])
p("P11","Memory lent by a scan is not kept",
 "Key and value bytes handed to a scan callback are valid only during that call, so nothing in the system keeps them, or any value that shares their memory, beyond the callback: what is kept is always a copy.",
 ["inputs","programs"],"All scan callbacks in the system and all store contents.",
 "The engine usually reuses the buffer only later, so a test comparing the result right away passes.",
 ["server/common.go","structure/hash.go","document/collection.go","document/dml/collection.go","document/meta/meta.go"],
 [("scan callbacks","functions passed to Scan in server, structure, document")])
p("P12","A hash's stored count is the number of its fields",
 "After every hash operation the stored element count equals the number of stored fields: it grows by one exactly when a new field appears, shrinks by one exactly when an existing field is removed, the count disappears with the last field, and clearing removes both. Setting a field makes it readable with exactly that value.",
 ["inputs","histories"],"All sequences of hash operations with all fields and values, including empty values.",
 "Tests perform one short sequence with non-empty distinct values.",
 ["structure/hash.go","structure/keys.go"],
 [("hash updates","structure/hash.go updateHash, HDel, HClear, HSet, HInc")],
 [("hash meta count","number of fields stored under the hash")])
p("P13","A list's stored bounds are exactly its elements",
 "After every list operation the stored left and right bounds delimit exactly the stored elements in order: a push adds its values at the requested end, a pop removes and returns the element at the requested end, an emptied list leaves no bounds behind, and access by index reaches the element at that position from either end or reports that none exists.",
 ["inputs","histories"],"All sequences of pushes, pops, sets and index reads, including negative and out-of-range indexes.",
 "Tests use one short sequence; interactions of bounds, negative indexes and emptied lists are not sampled.",
 ["structure/list.go","structure/keys.go"],
 [("list updates","structure/list.go listPush, listPop, LIndex, LSet, LClear")],
 [("list meta","left and right bound of the element indexes")])
p("P14","Key spaces are disjoint, injective and never scanned across",
 "Different logical objects (string, hash and list data and metadata, documents, index entries, catalog records, sequences) never share a stored key, because every key starts with its space's fixed prefix and encodes its variable parts so that they can be told apart. A prefix or range scan for one object only ever consumes keys of that object, and decoding a key returns the parts it was built from.",
 ["inputs"],"All names, ids, fields and index values.",
 "Collisions need particular names or bytes that a sample does not contain.",
 ["structure/keys.go","document/keys.go","document/dml/keys.go","document/keyspace/keyspace.go","document/meta/meta.go","kv/key.go","document/dml/collection.go","document/collection.go"],
 [("key construction","structure/keys.go, document/keys.go, document/dml/keys.go"),("scan bounds","Scan call sites in structure and document")])
p("P15","Fixed-width key encodings are invertible and keep order",
 "For every signed and unsigned integer and every floating point value other than NaN the fixed-width encodings decode back to the same value and consume exactly their own bytes, and comparing encoded bytes gives the same order as comparing the values (the reverse order for the descending variants).",
 ["inputs"],"All 64-bit integers and all ordinary floating point values.",
 "Tests compare a list of sample values.",
 ["kv/memcomparable/number.go","kv/memcomparable/float.go","kv/numeric/binary.go","kv/numeric/human.go","kv/compact/number.go"],
 [("integer codecs","kv/memcomparable/number.go"),("float codec","kv/memcomparable/float.go"),("plain codecs","kv/numeric")])
p("P16","A sequence never hands out the same number twice",
 "Numbers obtained from a sequence are never handed out again, by the same or another holder of that sequence, except those a caller explicitly returned and after an explicit reset of the sequence: an in-memory range is used only after the reservation covering it has been committed, ranges of successive reservations do not overlap, and each number leaves the range once.",
 ["histories","schedules","fault_sequences","crash_points"],"All sequences of single and bulk requests, returns and resets, by any number of concurrent callers, with reservation failing at any point.",
 "Duplicates appear only when a request straddles the end of a reserved range, when a reservation fails or when numbers were returned before a reset.",
 ["document/meta/sequence/sequence.go","document/meta/sequence/string.go","document/meta/sequence/hash.go","document/sequence.go","document/dml/sequence.go","document/meta/did_sequence.go","kv/util.go"],
 [("range bookkeeping","document/meta/sequence/sequence.go Next, NextN, PutBack"),("reservation","document/meta/sequence/{string,hash}.go"),("legacy sequence","document/sequence.go")],
 [("next/end of range","numbers in [next,end) are reserved and unused")])
p("P17","Every new schema object gets an id nobody else has",
 "Each database, collection, index and change job created gets an id from a range that was reserved for it by a committed counter increment at least as large as the number of ids used, so no two objects ever share an id.",
 ["inputs","histories","fault_sequences"],"All schema inputs (any number of collections and indexes, repeated names) and histories of creations.",
 "Over-use of a reserved range shows up only when a later object happens to collide.",
 ["document/ddl/ddl_api.go","document/ddl/ddl_worker.go","document/ddl/input.go","document/meta/meta.go"],
 [("id reservation and use","document/ddl/ddl_api.go CreateSchema, AddIndex; document/meta/meta.go GenGlobalID*")])
p("P18","A transaction that raced a schema change cannot commit",
 "Every data operation run inside an explicit transaction records the collection it touched before it can succeed, and committing such a transaction succeeds only if, at the check made at commit, no schema change published since the transaction started concerns a collection it recorded; otherwise the commit is refused and nothing becomes visible.",
 ["schedules","histories"],"All interleavings of data operations, commits and schema changes.",
 "Needs a schema change between the start and the commit of a transaction, on a collection it used.",
 ["document/txn/txn.go","document/dml/collection.go","document/schema/handle.go","document/schema/metacache.go","document/domain/domain.go"],
 [("commit check","document/txn/txn.go Commit; document/schema/handle.go Check"),("recording","document/dml/collection.go; document/txn/txn.go")])
p("P19","Locks are balanced and guard what they are meant to guard",
 "Every lock taken is released on every way out, including errors and panics, and is never taken again by the same operation while held or released when not held; every access to state shared between goroutines happens under the lock that guards it.",
 ["schedules","inputs"],"All paths and all interleavings of the operations of the schema, sequence, database and change-worker objects.",
 "A forgotten unlock on an error path or an unguarded access shows only on that path or interleaving; the race detector only sees the schedules it runs.",
 ["document/schema/handle.go","document/meta/sequence/sequence.go","document/db.go","document/collection.go","document/sequence.go","document/ddl/ddl.go","document/ddl/ddl_worker.go","document/domain/domain.go","document/dml/sequence.go","document/dml/db.go"],
 [("mutexes","every Lock/RLock call site in document/")])
p("P20","A published schema snapshot never changes",
 "Once a schema snapshot has been published to readers, no later operation modifies it or anything reachable from it: changes are applied to deep copies that share no mutable part with the published one, and the copy is published in one step when complete.",
 ["schedules","programs"],"All interleavings of readers and schema reloads.",
 "A shared map or slice is only noticed when a reader happens to look during a change.",
 ["document/schema/metacache.go","document/schema/handle.go","document/model/model.go","document/domain/domain.go"],
 [("copying","document/model/model.go Clone; document/schema/metacache.go Clone"),("publication","document/schema/handle.go")])
p("P21","Persisted records read back as they were written",
 "Every catalog, job, index and diff record that is stored can be read back with the same information: all of its parts survive the stored format, and the code that reads a record decodes the same kind of record that was written under that key.",
 ["inputs","histories"],"All records with all combinations of parts filled in, including failed jobs.",
 "Tests round-trip records with a few parts filled in, and never a failed job.",
 ["document/model/model.go","document/meta/meta.go","document/ddl/input.go","document/ddl/ddl_worker.go","document/keys.go","document/collection.go"],
 [("record types","document/model/model.go"),("storing and loading","document/meta/meta.go")])
p("P22","Schema changes and their version travel together",
 "Whenever a change to the stored schema commits, the schema version has been increased and a description of exactly that change has been stored under the new version in the same transaction; a reader that applies the stored descriptions from its version up to the current one, or reloads everything, arrives at the stored schema.",
 ["histories","fault_sequences","crash_points"],"All histories of schema changes and reload points, with failures at any step.",
 "Requires reloading at particular versions after particular kinds of change.",
 ["document/ddl/ddl_worker.go","document/ddl/util.go","document/meta/meta.go","document/domain/domain.go","document/schema/metacache.go"],
 [("version and diff","document/ddl/ddl_worker.go updateSchemaVersion*; document/meta/meta.go"),("applying diffs","document/schema/metacache.go ApplyDiffs; document/domain/domain.go")])
p("P23","Every schema change job is run once and recorded once",
 "A schema change request is validated before it is queued; a queued job leaves the queue only in the same transaction that records it in the history, and is recorded exactly when it has finished or been cancelled. The requester is told the job's recorded outcome, and never before it is recorded.",
 ["histories","fault_sequences","crash_points"],"All sequences of change requests, failing and succeeding, with storage failing at any step.",
 "Tests run one successful job.",
 ["document/ddl/ddl_api.go","document/ddl/ddl_worker.go","document/ddl/ddl.go","document/ddl/input.go","document/meta/meta.go","document/model/model.go"],
 [("job queue","document/ddl/ddl_worker.go handleJobQueue, finishJob; document/meta/meta.go")])
p("P24","Data operations stay inside the transaction they are given",
 "A document operation that is given a transaction reads and writes through that transaction only and neither commits nor discards it; one that is given none runs entirely in one transaction of its own whose kind fits what it does (writes are committed, never silently dropped), and reports success only if that transaction committed.",
 ["inputs","fault_sequences"],"All document operations with and without a caller's transaction, and all storage outcomes.",
 "A write in the wrong or in an uncommitted transaction looks right to the same test until it is read back elsewhere.",
 ["document/collection.go","document/dml/collection.go","document/dml/index.go","document/dml/base.go","document/sequence.go"],
 [("data operations","document/collection.go; document/dml/collection.go")])
p("P25","A closed database refuses work and closing waits for work",
 "After a document database was closed every operation on it and on its collections that can report an error fails with the closed error without touching the store (or with an error about its arguments), and closing waits for the operations in progress before it releases anything they use; closing twice is harmless.",
 ["schedules","histories"],"All interleavings of operations and close.",
 "Tests close once at the end.",
 ["document/db.go","document/collection.go"],
 [("close protocol","document/db.go Close; document/collection.go operations")])
p("P26","Index definitions and their stored names stay consistent",
 "Creating an index stores its definition and its name-to-id record together or not at all, dropping one removes both together or not at all, and the in-memory set of indexes equals the stored one after every outcome; an index name never refers to two definitions.",
 ["histories","fault_sequences"],"All sequences of index creation and removal with storage failing at any step.",
 "Tests create and drop one index without failures.",
 ["document/collection.go","document/keys.go","document/db.go"],
 [("index administration","document/collection.go CreateIndex, DropIndex, GetIndexes")])
p("P27","Wire messages mean the same to sender and receiver",
 "Every field of every message that is encoded is decoded into the same field with the same value, under the field number and wire type the message definition gives it; sizes computed for a message equal the bytes written, and unknown fields are skipped.",
 ["inputs"],"All messages with all combinations of fields.",
 "The generated code has no tests, and end-to-end tests fill few fields.",
 ["pb/mondis.pb.go","pb/mondis.proto"],
 [("generated codec","pb/mondis.pb.go Marshal, MarshalTo, Size, Unmarshal")])
p("P28","A client call sends its arguments and returns the server's answer",
 "Each client call, inside or outside a transaction, sends the command that belongs to it with exactly the caller's key, value, expiry, tag and scan options, and returns exactly the values contained in the reply to that same request. Inside a transaction every call after the first goes to the same stream, mutations are refused locally on read-only transactions, an update transaction is opened as one, and committing or discarding an unused transaction contacts nobody.",
 ["inputs","histories"],"All client calls with all arguments, and all sequences of calls in a transaction.",
 "Tests make a few calls with plain arguments and no metadata.",
 ["client/client.go","client/client_txn.go"],
 [("requests","client/client.go, client/client_txn.go request"),("reply parsing","client/client.go parse*")])
p("P29","Documents are stored, found and removed as a whole",
 "Inserting stores exactly the given document under a fresh id, or under the given id without overwriting another document when that is the contract; reading returns exactly the stored document or its absence; updating changes only the named document; deleting removes it, and removing everything removes exactly the collection's own documents. Every operation addresses keys of its own collection only.",
 ["inputs","histories"],"All documents, ids and sequences of document operations.",
 "Tests insert and read single documents.",
 ["document/collection.go","document/dml/collection.go","document/dml/keys.go","document/keys.go"],
 [("document operations","document/collection.go; document/dml/collection.go")])
p("P30","Transactions are serializable and durable",
 "Concurrent transactions behave as if run one after another, and a committed transaction survives any later crash.",
 ["schedules","crash_points"],"All interleavings of transactions and all crash points.",
 "Needs the storage engine's concurrency control under adversarial schedules and crashes.",
 ["provider/badger.go","provider/badger_txn.go"],
 [("engine transactions","provider/badger_txn.go")])
p("P31","Variable-length key encoding keeps byte order",
 "For all byte strings the escaped variable-length encoding decodes back to the same string and sorts exactly as the strings do (reversed for the descending variant), whatever follows in the key.",
 ["inputs"],"All byte strings.",
 "Tests compare a list of sample strings.",
 ["kv/memcomparable/bytes.go"],
 [("group encoding","kv/memcomparable/bytes.go")])
p("P32","Every accepted schema change eventually completes",
 "Every queued schema change job eventually reaches the history and its requester eventually returns, whatever crashes and restarts happen in between.",
 ["schedules","crash_points","fault_sequences"],"All schedules, crash points and restarts.",
 "Liveness over unbounded histories.",
 ["document/ddl/ddl_worker.go","document/ddl/ddl_api.go"],
 [("worker loop","document/ddl/ddl_worker.go start")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [x["id"] for x in P if len(x["title"])>80])
