#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

prop("C01","RESP parser accepts exactly well-formed frames, inside the buffer",
 "For any received bytes, the parser reports a frame only if a prefix of the buffered bytes is a well-formed RESP3 frame of the accepted dialect, and then reports exactly its type, its total length and its element count. It never reads outside the buffered bytes, and it never reports as a frame bytes that break the grammar (bad numbers, booleans, big numbers, counts, missing terminators).",
 ["inputs"],"every byte string up to the bound, every frame type",
 "Tests feed a few dozen literal frames; the accept/reject boundary over all byte strings (embedded CR/LF, signs, truncated payloads, overflowing lengths, nested aggregates) is unsampled.",
 ["kio/resp/parser.cpp","kio/resp/parser.h"],
 [("CRLF search","kio/resp/parser.cpp find_crlf"),("frame dispatch","kio/resp/parser.cpp Parser::parse_frame_internal"),("bulk header","kio/resp/parser.cpp Parser::extract_bulk_header")],
 observe=["Parser::next_frame","Parser::buffer"])
prop("C02","RESP parsing is independent of how the stream was cut",
 "While only a strict prefix of a well-formed frame has arrived the parser asks for more data and consumes nothing, and once a frame is complete the same frame is reported whatever bytes follow it and however the bytes were split into reads. A stream of frames fed in any pieces yields the same sequence of frames and leaves no byte unaccounted for.",
 ["inputs","histories"],"every frame up to the bound, every cut point, every following bytes",
 "Tests cut a handful of fixed frames at a few fixed places.",
 ["kio/resp/parser.cpp","kio/resp/parser.h","kio/core/bytes_mut.h"],
 [("NeedMoreData on short input","kio/resp/parser.cpp"),("consume","kio/resp/parser.h Parser::consume")],
 observe=["Parser::next_frame","Parser::consume"])
prop("C03","RESP limits hold, and iterating an aggregate yields exactly its children",
 "Frames nested deeper than the configured depth or announcing a bulk payload larger than the configured maximum are refused, and frames within both limits are not refused for that reason. Iterating an accepted aggregate yields exactly the announced number of child frames (two per entry for map-like types), which tile the aggregate's bytes in order, and payload accessors return exactly the payload bytes of a frame.",
 ["inputs","configurations"],"every accepted aggregate up to the bound; every small depth and size limit",
 "Tests use one limit each and a few literal aggregates.",
 ["kio/resp/parser.cpp","kio/resp/parser.h"],
 [("depth and size checks","kio/resp/parser.cpp"),("FrameIterator","kio/resp/parser.cpp FrameIterator::next"),("payload accessors","kio/resp/parser.cpp get_bulk_payload/get_simple_payload")])
prop("C04","The growable byte buffer is a faithful byte queue",
 "Under any sequence of appends, commits, consumes, compactions, reserves and clears, the readable bytes are exactly the appended bytes not yet consumed, in order. A request to consume, peek or commit more than is available is refused with an exception and changes nothing, and a successful reserve leaves at least the requested writable space without losing data.",
 ["inputs","histories"],"every operation sequence up to the bound with arbitrary sizes (including huge ones) and contents",
 "Tests run 13 fixed scripts with fixed sizes; growth/compaction boundaries and wrap-around sizes are not covered.",
 ["kio/core/bytes_mut.h"],
 [("reserve/compact","kio/core/bytes_mut.h BytesMut::reserve, compact"),("bounds checks","kio/core/bytes_mut.h advance, peek, commit_write")],
 state=[("read_pos_/write_pos_","window of live bytes","kio/core/bytes_mut.h")])
prop("C05","The multi-producer queue neither loses, duplicates, reorders nor tears items",
 "Under any interleaving of concurrent producers and the one consumer, on the C++ memory model, every item whose push succeeded is popped exactly once with the value that was pushed, items of one producer come out in push order, and access to an item is free of data races. The queue never holds more than its capacity, a push fails only when it is full, a pop fails only when it is empty or the push next in line has not completed, and every stored item is destroyed exactly once, including those left when the queue is destroyed.",
 ["schedules","histories","configurations"],"every interleaving and every read-from choice the C++ memory model allows, up to the bound on threads and operations; every operation history of the bounded length",
 "Stress tests on x86 sample a few schedules and cannot show orderings the hardware or the compiler did not choose; weak-memory outcomes never appear.",
 ["kio/sync/mpsc_queue.h"],
 [("slot sequence numbers","kio/sync/mpsc_queue.h try_push/try_pop"),("acquire/release on slots","kio/sync/mpsc_queue.h")],
 state=[("sequence","per-slot turn number","kio/sync/mpsc_queue.h Cell"),("enqueue_pos_/dequeue_pos_","ticket counters","kio/sync/mpsc_queue.h")])
prop("C06","Tasks start lazily, deliver one result or exception, and free every frame once",
 "A task does not run until it is awaited; awaiting it delivers exactly its value, or rethrows exactly its exception, to the awaiting coroutine after the task has finished, through any nesting, and waiting synchronously for a task returns the same outcome. Every coroutine frame and every local of it is destroyed exactly once, whether the task completes, throws, is moved or is dropped unawaited, and a detached task runs to completion.",
 ["programs","histories","inputs"],"every tree of tasks up to the bounded depth, each node returning, throwing, or being dropped or moved",
 "The 19 tests each fix one shape of coroutine nesting; leaks and double frees are not observed by them at all.",
 ["kio/core/coro.h","kio/sync/sync_wait.h"],
 [("lazy start and continuation transfer","kio/core/coro.h Task"),("ownership of the handle","kio/core/coro.h ~Task, operator="),("SyncWait","kio/sync/sync_wait.h")])
prop("C07","A baton wakes its waiter exactly once and never loses a signal",
 "Whatever the interleaving of one waiting coroutine with any number of notifications from other threads, on the C++ memory model, a waiter on a notified baton continues exactly once, on its owning worker, and everything written before the notification is visible to it. A baton never notified wakes nobody, a baton notified before the wait does not suspend, and after a reset it behaves as new.",
 ["schedules","histories"],"every interleaving and memory-model outcome of one waiter with up to the bounded number of notifiers; wait/notify/reset histories",
 "Baton tests need io_uring and are not run here; even when run they sample a few schedules with sleeps.",
 ["kio/sync/baton.h","kio/core/worker.cpp"],
 [("state exchange / CAS","kio/sync/baton.h AsyncBaton::notify, wait"),("posting to the owner","kio/core/worker.h WorkerAccess::post")],
 state=[("state_","NOT_SET / WAITING / SET","kio/sync/baton.h"),("waiter_","suspended coroutine","kio/sync/baton.h")])
prop("C08","An event wakes every waiter exactly once and never loses a notification",
 "Every coroutine that waits on an event that is or becomes set continues exactly once on the event's owning worker, whatever the interleaving of waits and notifications; none continues while the event has not been set. Waiting on an event already set does not suspend, and a reset makes later waits suspend again without disturbing earlier ones.",
 ["schedules","histories"],"every interleaving and memory-model outcome of the bounded number of waiters and notifiers",
 "The event header could not even be instantiated at the pinned commit, so its tests never compiled.",
 ["kio/sync/event.h"],
 [("waiter list exchange","kio/sync/event.h AsyncEvent::notify"),("wait registration","kio/sync/event.h AsyncEvent::wait")],
 state=[("state_","null / waiter list / set marker","kio/sync/event.h")])
prop("C09","Waiting for any of several tasks reports the first to finish, once",
 "Waiting for any of several tasks resumes the waiter exactly once, with the index of the task that completed first, whether the tasks complete immediately or later and in whatever order. The other tasks still run to completion in the background and nothing they use is freed early or twice.",
 ["schedules","histories"],"every completion order and every subset of tasks that complete immediately, up to the bounded number of tasks",
 "The only test needs io_uring and uses two fixed sleeps.",
 ["kio/sync/when_any.h","kio/sync/baton.h","kio/core/coro.h"],
 [("winner CAS","kio/sync/when_any.h WhenAnyState::try_win"),("detached runners","kio/sync/when_any.h run_and_notify")])
prop("C10","Each I/O completion resumes just the coroutine that issued it, with its result",
 "Each operation asks the kernel for exactly what its caller requested, never more than the caller's buffer and never less than was possible. Whatever the order in which the kernel completes concurrent operations, each awaiting coroutine is resumed exactly once and receives the result of its own operation and no other. An operation slot is never handed to two in-flight operations, slots are recycled without limit, the pool grows when exhausted up to its configured maximum, and beyond it the operation fails cleanly without disturbing the others.",
 ["schedules","histories","configurations"],"every completion order and result of the bounded number of concurrent operations; every slot alloc/release history; every valid slot configuration in bounds",
 "Worker tests need io_uring (not available) and observe only the completion orders the kernel happens to produce; slot exhaustion is not exercised.",
 ["kio/core/worker.cpp","kio/core/worker.h","kio/core/uring_awaitable.h"],
 [("slot pool","kio/core/worker.cpp Worker::get_op_id, release_op_id"),("completion dispatch","kio/core/worker.cpp Worker::drain_completions"),("awaitable","kio/core/uring_awaitable.h")],
 state=[("op_data_pool_, free_op_ids","slots of in-flight operations","kio/core/worker.h")])
prop("C11","Exact reads, writes and transfers move exactly the requested bytes",
 "An exact read, write or file transfer succeeds only if exactly the requested bytes were moved, in order and at consecutive offsets, whatever short counts the kernel returns; it never touches memory outside the caller's buffer. If the kernel reports an error or end of file first, the operation reports that error and not success, and every temporary descriptor it opened is closed.",
 ["fault_sequences","inputs"],"every sequence of short counts, zero returns and error codes for every request size up to the bound",
 "Short counts and mid-transfer errors essentially never occur on local files and loopback sockets, so tests cannot provoke them.",
 ["kio/core/worker.cpp","kio/core/worker.h"],
 [("exact loops","kio/core/worker.cpp async_read_exact, async_read_exact_at, async_write_exact, async_write_exact_at"),("splice loop","kio/core/worker.cpp async_sendfile")])
prop("C12","Every system error maps to a failure that keeps its code",
 "Every error number a system call can report is turned into an error that is never mistaken for success, carries the original number unchanged, and is classified into the category documented for that number. Equal inputs give equal errors, and the error's description is available for every category.",
 ["inputs"],"all 32-bit error numbers",
 "Tests look at one or two error codes.",
 ["kio/core/errors.h"],
 [("category mapping","kio/core/errors.h CategoryFromErrno"),("constructors","kio/core/errors.h Error")])
prop("C13","The logger writes every enabled record once, whole and in order",
 "Every message logged at or above the active level while the queue has room is written exactly once, with its full text (short or long) and its source location, in the order its thread logged it, and is on the output by the time the logger has been destroyed. Messages below the active level produce no output, and the level can be changed at run time.",
 ["inputs","histories","schedules"],"every message length around the inline/heap boundary, every level pair, every record move/append history in bounds",
 "Tests log a few fixed short strings.",
 ["kio/core/async_logger.h"],
 [("inline/heap message storage","kio/core/async_logger.h"),("level filter","kio/core/async_logger.h"),("consumer loop and shutdown drain","kio/core/async_logger.h")])
prop("C14","The metrics page is well-formed text with every sample once",
 "The exported page contains each metric family once, with its help and type before its samples, and each sample exactly once with its own labels and its exact value. Label values and help text are escaped so that no content can break a line or forge another sample, and collecting twice from unchanged sources gives the same page.",
 ["inputs","histories"],"every label/help byte string up to the bound, every small set of families and samples from several collectors",
 "No test covers the metrics code.",
 ["kio/metrics/serializer.cpp","kio/metrics/model.h","kio/metrics/registry.h","kio/metrics/utils.h"],
 [("family building","kio/metrics/model.h, kio/metrics/registry.h"),("escaping","kio/metrics/serializer.cpp")])
prop("C15","The metrics endpoint answers well-formed requests and survives any other",
 "For any bytes a client sends, in any pieces, the metrics endpoint answers a complete GET of the metrics path with status 200, the metrics page and a body of exactly the announced length, answers the health paths / and /health with 200 and every other complete request with an error status, bounds how much it buffers, and closes the connection exactly once. No request can crash it or make it read outside what was received.",
 ["inputs","fault_sequences"],"every request up to the bound, every split into reads and every I/O error",
 "No test covers the metrics server.",
 ["kio/metrics/server.cpp","kio/metrics/server.h"],
 [("request loop","kio/metrics/server.cpp MetricsServer::handle_client"),("response building","kio/metrics/server.cpp")])
prop("C16","Every descriptor the library owns is closed exactly once",
 "Every file descriptor wrapped by a library object is closed exactly once, when its last owner is destroyed, reassigned or explicitly closed, through any sequence of moves, releases and resets; no other descriptor is ever closed. Helper functions that fail midway leave no descriptor open.",
 ["histories","fault_sequences"],"every bounded history of construct/move/assign/release/close over a few objects, every failing call in each helper",
 "Leaks and double closes do not fail a functional test; failure paths of socket helpers are not reachable in tests.",
 ["kio/net/socket.h","kio/net/net.cpp","kio/fs/fs.h","kio/fs/fs.cpp","kio/core/worker.h","bitcask/include/file_handle.h"],
 [("RAII handles","kio/net/socket.h Socket; kio/fs/fs.h File; bitcask/include/file_handle.h FileHandle"),("failure cleanup","kio/net/net.cpp")])
prop("C17","Socket addresses round-trip and malformed ones are refused",
 "Building an address from an IP text and port and then extracting its text and port gives back the same values for every IPv4 and IPv6 address and every port, in the family the text denotes. Texts that are not addresses, and address structures of unknown families, are refused with an error and leave no invalid address behind.",
 ["inputs","configurations"],"every port, both families, every outcome of the platform's text conversion",
 "Tests do not cover the net helpers.",
 ["kio/net/net.cpp","kio/net/net.h"],
 [("parse / extract","kio/net/net.cpp")])
prop("C18","No TLS application data moves before a completed, offloaded handshake",
 "A TLS stream reports a successful handshake only after the TLS library completed it, with the host name the caller gave set up for verification, and kernel offload is active for both directions; no application data is accepted for sending or receiving on it before that, and bytes the library has already decrypted are delivered before any others. A handshake that fails or is cut short by a stop request is reported as a failure, as is a shutdown on which the library reports an error. A context is handed out only if the library accepted every certificate, key, trust, version and cipher setting it was given, and an accepted stream carries its peer's address. The library is only used on a descriptor that is still the stream's, and each TLS object and descriptor is released exactly once.",
 ["fault_sequences","histories"],"every sequence of TLS library outcomes and I/O results up to the bound",
 "No TLS test exists; handshake failures at each step need a hostile peer.",
 ["kio/tls/stream.cpp","kio/tls/stream.h","kio/tls/context.cpp","kio/tls/listener.cpp"],
 [("handshake loop","kio/tls/stream.cpp"),("kTLS check","kio/tls/stream.cpp enable_ktls"),("RAII of SSL and SSL_CTX","kio/tls/stream.h, kio/tls/context.h")])
prop("C19","Stored entries decode to what was encoded, and damaged ones are refused",
 "Any entry written to a data file decodes to the same key, value, timestamp and kind, and the decoded size equals the encoded size. Any other bytes - truncated, with a damaged checksum or an absurd length - are refused without reading outside the buffer.",
 ["inputs"],"every entry up to the bound; every byte buffer up to the bound including arbitrary length fields",
 "The storage engine is not built here (two dependencies are missing); its tests use fixed entries and a few corruptions.",
 ["bitcask/src/entry.cpp","bitcask/include/entry.h","bitcask/include/common.h"],
 [("header, CRC and size checks","bitcask/src/entry.cpp DataEntry::deserialize")])
prop("C20","File identifiers are unique and increase for ever",
 "Every file identifier a store generates is different from and greater than every identifier generated before it, whatever the clock does and however many are generated within one tick. An identifier decodes to exactly the time and sequence it was built from.",
 ["inputs","histories","schedules"],"every clock history (stalls, backward jumps) and every internal generator state reachable in the bound",
 "Clock jumps and sequence exhaustion within one tick do not happen in tests.",
 ["bitcask/include/file_id.h"],
 [("timestamp+sequence packing","bitcask/include/file_id.h"),("generator","bitcask/include/file_id.h FileIdGenerator")])
prop("C21","The store behaves as a map: a read returns the last acknowledged write",
 "On an open store, reading a key returns the value of the last acknowledged put of that key, or nothing if it was never put or was deleted since, across file rotation and with operations on the same or different keys in flight. A failed operation reports an error and leaves the key with its old or its new value, never another.",
 ["histories","schedules","fault_sequences","inputs"],"every bounded history of put/get/del over a few keys, with rotation, and interleavings of concurrent operations at their suspension points",
 "The engine is not built here; its tests run fixed scripts one operation at a time.",
 ["bitcask/src/partition.cpp","bitcask/src/data_file.cpp","bitcask/src/fd_cache.cpp","bitcask/src/bitcask.cpp"],
 [("keydir update after write","bitcask/src/partition.cpp Partition::put, del"),("rotation","bitcask/src/partition.cpp"),("read path","bitcask/src/partition.cpp Partition::get")])
prop("C22","Reopening a store restores exactly its last state",
 "After a clean close, reopening a store yields for every key exactly the value, or absence, it had before, whether recovery reads data files or hint files and whatever compactions ran. The partition count and routing recorded when the store was created are enforced on reopening.",
 ["histories"],"every bounded history of operations, rotations and compactions followed by close and reopen",
 "The engine is not built here; its tests reopen after a few fixed histories.",
 ["bitcask/src/partition.cpp","bitcask/src/compactor.cpp","bitcask/src/hint_file.cpp","bitcask/src/bitcask.cpp"],
 [("recovery scan","bitcask/src/partition.cpp recover"),("hint files","bitcask/src/hint_file.cpp")])
prop("C23","Acknowledged synced writes survive a crash at any point",
 "With sync-on-write enabled, after a crash at any point every acknowledged put and delete is visible on reopening, and an operation that was in flight is either fully visible or not at all. A torn or corrupt tail never hides or alters earlier entries.",
 ["crash_points","histories"],"every crash point between storage operations and every surviving prefix of unsynced bytes, for every bounded history",
 "Crash points cannot be placed by tests of the running engine, and the engine is not built here.",
 ["bitcask/src/data_file.cpp","bitcask/src/partition.cpp","bitcask/src/compactor.cpp"],
 [("fsync before acknowledgement","bitcask/src/data_file.cpp, bitcask/src/partition.cpp"),("tail handling in recovery","bitcask/src/partition.cpp")])
prop("C24","Compaction changes no key",
 "Compacting any set of sealed files leaves the value of every key unchanged, including keys overwritten or deleted while compaction is running, and source files are removed only after all their live entries are stored elsewhere. If compaction fails midway, no data is lost.",
 ["histories","schedules","fault_sequences"],"every bounded file content and every interleaving of one put/delete with compaction, every failing I/O call",
 "The engine is not built here; its tests compact fixed files with nothing running concurrently.",
 ["bitcask/src/compactor.cpp","bitcask/src/partition.cpp"],
 [("liveness check and keydir CAS","bitcask/src/compactor.cpp"),("source removal","bitcask/src/compactor.cpp")])
prop("C25","The descriptor cache returns the right file and stays within its limit",
 "A cached file lookup always yields an open descriptor of the requested file, never one of another file or one already closed, in any order of lookups, evictions and removals. The cache never keeps more descriptors open than its limit, and every descriptor it opened is closed exactly once.",
 ["histories","fault_sequences"],"every bounded sequence of lookups, removals and failing opens over a few files and limits",
 "The engine is not built here; eviction orders are not exercised by its tests.",
 ["bitcask/src/fd_cache.cpp","bitcask/include/fd_cache.h"],
 [("LRU list and map","bitcask/src/fd_cache.cpp")])
prop("C26","Workers start, stop and shut down exactly once, without hanging",
 "Waiting for a worker to be ready or to shut down returns once, whatever the order in which it is started, asked to stop (any number of times, from any other thread) and destroyed, and even if initialisation fails. After a stop request the worker finishes its loop without needing further events, and its descriptors are released exactly once.",
 ["schedules","histories","fault_sequences"],"every bounded order of start/stop/destroy requests and every failing setup call",
 "Worker tests need io_uring; setup failures and stop races are not reachable in them.",
 ["kio/core/worker.cpp","kio/core/worker_pool.cpp"],
 [("init and shutdown latches","kio/core/worker.cpp Worker::loop_forever"),("wakeup eventfd","kio/core/worker.cpp Worker::request_stop, wakeup_write")])
prop("C27","A key always belongs to the same partition",
 "The partition that serves a key depends only on the key and the partition count fixed when the store was created, is always a valid partition, and is the same for put, get and delete, from any worker and after any restart. Opening a store with a different partition count is refused and changes nothing on disk.",
 ["inputs","configurations"],"every key up to the bound and every partition count in bounds; every stored manifest content in bounds",
 "The engine is not built here; its tests use a fixed partition count.",
 ["bitcask/src/bitcask.cpp","bitcask/include/bitcask.h"],
 [("routing","bitcask/src/bitcask.cpp route"),("manifest check","bitcask/src/bitcask.cpp")])
prop("C28","Worker statistics count every completed operation exactly once",
 "The counters a worker reports equal the number of operations of each kind it actually completed and the bytes they actually moved, with failed operations counted as errors and never as bytes. The exported metrics report exactly these counters, for the right worker.",
 ["histories","fault_sequences"],"every bounded sequence of operations with every result, including errors and short counts",
 "No test reads the counters on error paths.",
 ["kio/core/worker.cpp","kio/core/worker.h","kio/core/metrics_collector.cpp"],
 [("counter updates","kio/core/worker.cpp stat_* helpers")])
prop("C29","A coroutine handed to a worker runs on it exactly once",
 "Every coroutine handed to a running worker from any thread, while its queue has room, is resumed exactly once on that worker, even if the worker is about to sleep or is already asleep in the kernel when it is handed over. A burst is processed in order of arrival from each thread, and none is left unprocessed while the worker keeps running.",
 ["schedules","histories"],"every interleaving of the bounded number of posts with the worker's drain/sleep loop",
 "Worker tests need io_uring; the window between draining the queue and going to sleep is a few instructions wide.",
 ["kio/core/worker.cpp","kio/sync/mpsc_queue.h"],
 [("post and wakeup write","kio/core/worker.cpp Worker::post"),("wakeup read re-armed before draining","kio/core/worker.cpp")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P:
            assert len(p["title"])<=80,(p["id"],len(p["title"]))
            f.write(json.dumps(p)+"\n")
    print(len(P),"properties")
