"""What each check runs.  See DESIGN.md for the properties."""
import os
CHECKS = {}

CHECKS["C04"] = {
    "jobs": [
        dict(name="ops", harness="h_bytes.cpp", params=[dict(ops=2, maxlen=3, cap=4)], params_thorough=[dict(ops=3, maxlen=3, cap=4)], reach=["append", "reserve+commit", "advance", "advance refused", "commit", "commit refused", "clear", "compact", "reserve any", "reserve refused", "end"],
             bound="initial capacity 0..4, every sequence of `ops` operations, up to 3 bytes each, refused/huge sizes over the full 64-bit range"),
        dict(name="prestate", harness="h_bytes.cpp", params=[dict(prestate=1)], reach=["extend", "grow", "pre end"],
             bound="every capacity in {0,1,8,16,20}, fill and consumed prefix in even steps up to 18, then one append/reserve of 0..29 bytes and one advance of any 64-bit size"),
        dict(name="big", harness="h_bytes.cpp", params=[dict(prestate=600)], reach=["extend", "grow", "pre end"], max_steps=200000000,
             bound="as prestate, scaled by 600 to cross the 4 KiB compaction threshold"),
    ],
    "assumptions": ["allocations above 16 MiB fail with bad_alloc (engine model of memory exhaustion)"],
}


RESP = {1: "bytes `%s` (? any byte, R N = CR LF), as received at once", 2: "bytes `%s` (? any byte), every cut into two reads, any bytes following", 3: "bytes `%s` (? any byte), every child of an accepted frame"}


def skeletons():
    import re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "h_resp.cpp")).read()
    t = t[t.index("skel[] = {"):]
    return re.findall(r'"([^"]*)"', re.sub(r"//.*", "", t[:t.index("};")]))


def resp(mode, skels, **kw):
    return [dict(name="m%d-s%d" % (mode, k), bound=RESP[2 if kw.get("cut") else mode] % skeletons()[k], harness="h_resp.cpp", srcs=["kio/resp/parser.cpp"], flags=["-I/repo/kio"], params=[dict(mode=mode, skel=k, **kw)], par=1) for k in skels]


def thorough_only(js):
    for j in js:
        j["tier"] = "thorough"
    return js


CHECKS["C01"] = {"jobs": resp(1, range(0, 28)) + thorough_only(resp(1, range(28, 32))), "assumptions": []}
CHECKS["C02"] = {"jobs": resp(1, [4, 7, 11, 12, 14, 17, 18, 22], cut=1) + resp(2, [0, 4, 7, 11, 14, 16, 18], direct=1) + resp(2, [12, 17]) + thorough_only(resp(2, [20, 21, 8, 10])), "assumptions": []}
CHECKS["C03"] = {"jobs": [dict(name="shape%d" % k, harness="h_resp.cpp", srcs=["kio/resp/parser.cpp"], flags=["-I/repo/kio"], params=[dict(shape=k)], bound={1: "0..45 levels of one aggregate type, any depth limit 0..60", 2: "17 element counts of 0..300 of every aggregate type, whole or cut"}[k], reach=["aggregate", "child", "refused" if k == 1 else "need more"]) for k in (1, 2)] + resp(3, [0, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 22, 25, 26, 27]) + thorough_only(resp(3, [20, 21, 28, 30, 31])), "assumptions": []}

NOLOG = ["shim/log/nolog.h"]
CHECKS["C12"] = {"jobs": [
    dict(name="errno", harness="h_errors.cpp", params=[dict(mode=0)], par=1, reach=["errno"], bound="every pair of 32-bit error numbers"),
    dict(name="describe", harness="h_errors.cpp", params=[dict(mode=1)], par=1, reach=["described"], bound="errno 0..139, 60 numbers across [-12000,5000], every named code"),
    dict(name="format", harness="h_errors.cpp", params=[dict(mode=2)], par=1, reach=["formatted"], bound="every named code"),
    dict(name="try", harness="h_errors.cpp", params=[dict(mode=3)], par=1, reach=["value", "error"], bound="any values, two levels of KIO_TRY")], "assumptions": []}
CHECKS["C20"] = {"jobs": [
    dict(name="codec", harness="h_fileid.cpp", include=NOLOG, params=[dict(mode=0)], par=1, reach=["codec"], bound="every identifier"),
    dict(name="generator", harness="h_fileid.cpp", include=NOLOG, params=[dict(mode=1)], params_thorough=[dict(mode=1, more=8)], max_steps=2000000000, reach=["generated"], bound="0..131073 earlier identifiers within one tick at any time, then `more` identifiers with an arbitrary clock")], "assumptions": ["the clock reads between the epoch and 2106 (32-bit seconds)"]}

def net(mode, name, reach, bound, par=1, **kw):
    return dict(name=name, harness="h_net.cpp", srcs=["kio/net/net.cpp"], include=NOLOG, params=[dict(mode=mode, **kw)], par=par, reach=reach, bound=bound)


CHECKS["C17"] = {"jobs": [net(0, "roundtrip", ["v4", "v6"], "every IPv4 and IPv6 address and port"), net(1, "read", ["read", "empty", "unknown family"], "every content of the address structure"), net(2, "names", ["refused", "resolved"], "7 texts that are not addresses, any resolver answer")],
                 "assumptions": ["inet_pton and inet_ntop are inverse to each other (modelled by another bijection between texts and addresses)"]}
CHECKS["C16"] = {"jobs": [net(3, "server", ["listening", "failed", "bad name"], "every combination of failing system calls, any errno"), net(4, "tcpfd", ["made", "failed"], "every combination of failing system calls"),
                          net(5, "socket", ["raii"], "3 owners, every sequence of `ops` operations", ops=2), net(6, "filehandle", ["raii"], "3 owners, every sequence of `ops` operations", ops=2), net(7, "guard", ["guard"], "all")], "assumptions": []}

def coro(mode, name, reach, bound, **kw):
    return dict(name=name, harness="h_coro.cpp", include=NOLOG, shim=["latch"], params=[dict(mode=mode, **kw)], params_thorough=[dict(mode=mode, levels=3, ops=3)], reach=reach, bound=bound)


CHECKS["C06"] = {"jobs": [coro(0, "chain", ["value", "exception", "SyncWait", "chain end"], "up to `levels` nested tasks, each suspending, throwing, catching, moving or not, any values"), coro(1, "chain-void", ["value", "exception", "SyncWait", "chain end"], "as chain, Task<void>"),
                          coro(2, "ownership", ["awaited", "dropped", "dropped while suspended"], "four tasks, every sequence of `ops` moves, replacements and drops, then awaited, dropped or dropped while suspended", ops=2), coro(3, "detached", ["detached", "dropped suspended", "dropped finished"], "all"), coro(4, "parameters", ["parameters"], "coroutines whose parameters have the types of the promise's own fields, any values")], "assumptions": ["a synchronous wait blocks until another thread resumes the task (modelled as one atomic step)"]}



def queue(name, reach, weak, bound, p, t=None):
    return dict(name=name, harness="h_queue.cpp", threads="weak" if weak else "sc", params=[dict(mode=2, weak=weak, **p)], params_thorough=[dict(mode=2, weak=weak, **(t or p))], reach=reach, bound=bound)


CHECKS["C05"] = {"jobs": [
    dict(name="seq", harness="h_queue.cpp", threads="sc", params=[dict(mode=0, ops=7)], params_thorough=[dict(mode=0, ops=11)], par=1, reach=["full", "popped", "empty", "left over"], bound="capacity 1, 2, 4; every sequence of `ops` pushes and pops, any values"),
    dict(name="seq-nodefault", harness="h_queue.cpp", threads="sc", params=[dict(mode=1, ops=6)], params_thorough=[dict(mode=1, ops=10)], par=1, reach=["full", "popped", "empty", "left over"], bound="as seq, items without default constructor"),
    queue("sc", ["end", "push failed", "pop failed", "all popped concurrently"], 0, "2 producers, 1 consumer, capacity 2, every interleaving of atomic accesses with at most `pre` preemptions", dict(pre=3, per=2, pops=2)),
    queue("weak", ["end", "all popped concurrently"], 1, "2 producers, 1 consumer, capacity 2, under the C++ memory model, at most `stale` outdated loads", dict(pre=3, per=1, pops=2, stale=2)),
    queue("weak-wrap", ["end"], 1, "as weak, `preload` items stored and `prepop` taken before: the positions wrap round", dict(pre=3, per=1, pops=2, stale=2, preload=2, prepop=1)),
], "assumptions": []}



def worker(harness, name, reach, bound, p, t=None, weak=0, **kw):
    d = dict(name=name, harness=harness, srcs=["kio/core/worker.cpp"], vsrcs=["model/kuring.cpp"], shim=["uring", "latch_mt", "fs"], include=NOLOG, flags=["-D__GCC_DESTRUCTIVE_SIZE=64", "-D__GCC_CONSTRUCTIVE_SIZE=64"], threads="weak" if weak else "sc", params=p, reach=reach, bound=bound)
    if t:
        d["params_thorough"] = t
    d.update(kw)
    return d


CHECKS["C10"] = {"jobs": [
    worker("h_worker.cpp", "ops", ["success", "error", "end"], "`users` coroutines of `rounds` operations each, completed in any order and grouping with any result", [dict(users=3, rounds=2)]),
    worker("h_worker.cpp", "grow", ["success", "error", "end"], "as ops, `slots` slot at first: the pool grows while operations are in flight", [dict(users=3, rounds=2, slots=1, batch=1)]),
    worker("h_worker.cpp", "exhausted", ["success", "error", "end", "exhausted"], "as ops, at most `maxslots` slots: operations are refused", [dict(users=3, rounds=2, slots=1, maxslots=2, batch=1)]),
    worker("h_worker.cpp", "full", ["success", "error", "end", "refused"], "as ops, a submission queue of `depth` entries: it runs full", [dict(users=3, rounds=2, depth=2, batch=1)]),
    worker("h_ops.cpp", "request", ["success", "failure", "end"], "all 19 operations, any arguments (buffers up to 2^62 bytes), any result", [dict()]),
], "assumptions": []}

CHECKS["C28"] = {"jobs": [
    worker("h_ops.cpp", "each", ["success", "failure", "counted", "end"], "each of the 19 operations, any arguments, any result", [dict(stats=1)]),
    worker("h_exact.cpp", "transfers", ["complete", "in pieces", "error", "end of file", "counted", "end"], "exact reads and writes of 0..`max` bytes, any short counts, errors or end of file", [dict(max=2, calls=3, stats=1)], [dict(max=4, calls=5, stats=1)]),
    worker("h_exact.cpp", "sendfile", ["complete", "in pieces", "error", "end of file", "counted", "no pipe", "end"], "any count below 2^62, up to `calls` splices of any size", [dict(first=4, last=4, big=1, calls=3, stats=1)], [dict(first=4, last=4, big=1, calls=6, stats=1)]),
    worker("h_export.cpp", "export", ["exported", "end"], "3 reads and 2 writes of any size, 4 accepts, 5 connects, 6 opens, 7 failures, 0..3 operations still in flight, exported twice from another thread; every schedule with at most `pre` preemptions", [dict(pre=0), dict(pre=0, id=12)], [dict(pre=1), dict(pre=0, id=12)], srcs=["kio/core/worker.cpp", "kio/core/metrics_collector.cpp"]),
], "assumptions": []}

CHECKS["C11"] = {"jobs": [
    worker("h_exact.cpp", "bytes", ["complete", "in pieces", "error", "end of file", "end"], "buffers of 0..`max` bytes with any content, any offset, any short counts, errors or end of file", [dict(max=4, calls=4)], [dict(max=6, calls=6)]),
    worker("h_exact.cpp", "sizes", ["complete", "in pieces", "error", "end of file", "end"], "buffers of any size below 2^62, any offset, up to `calls` transfers of any size", [dict(big=1, calls=3)], [dict(big=1, calls=5)]),
    worker("h_exact.cpp", "sendfile", ["complete", "in pieces", "error", "end of file", "end", "no pipe"], "any count below 2^62, any offset, up to `calls` splices of any size", [dict(first=4, last=4, big=1, calls=4)], [dict(first=4, last=4, big=1, calls=8)]),
], "assumptions": []}

CHECKS["C26"] = {"jobs": [
    worker("h_life.cpp", "worker", ["ready", "shut down", "destroyed at once", "never started", "refused", "end"], "every combination of: 14 setup outcomes (any errno), stop before the start, after it, from one or two threads or never started, destruction before or after the thread has ended; every schedule with at most `pre` preemptions", [dict(pre=2)], [dict(pre=3)], srcs=["kio/core/worker.cpp", "kio/core/worker_pool.cpp"]),
    worker("h_life.cpp", "pool", ["refused", "end"], "2 workers; 9 setup outcomes, stop never, once or twice; every schedule with at most `pre` preemptions", [dict(mode=1, pre=1)], [dict(mode=1, pre=2)], srcs=["kio/core/worker.cpp", "kio/core/worker_pool.cpp"]),
], "assumptions": []}

CHECKS["C29"] = {"jobs": [
    worker("h_post.cpp", "handoff", ["queued before the start", "all ran", "end"], "2 threads handing over `per` coroutines each while the worker drains, sleeps and wakes; every schedule with at most `pre` preemptions", [dict(pre=2, per=2, stuck=1)], [dict(pre=3, per=2, stuck=1)]),
    worker("h_post.cpp", "mixed", ["queued before the start", "all ran", "handed itself over", "end"], "as handoff, the coroutines also doing I/O and handing themselves over again", [dict(pre=1, per=2, self=1, reads=1)], [dict(pre=2, per=2, self=1, reads=1)]),
    worker("h_post.cpp", "burst", ["queued before the start", "all ran", "end"], "a burst of `per` coroutines from one thread, queued before the worker drains", [dict(pre=0, per=200, posters=1, early=1, cap=256)], par=1),
    worker("h_post.cpp", "weak", ["queued before the start", "all ran", "end"], "2 threads, one coroutine each, under the C++ memory model", [dict(pre=1, per=1, weak=1, stale=1)], [dict(pre=2, per=1, weak=1, stale=2)], weak=1),
], "assumptions": []}

CHECKS["C07"] = {"jobs": [
    worker("h_baton.cpp", "wait", ["end"], "one waiter, 1 or 2 notifiers, any data; every schedule with at most `pre` preemptions", [dict(pre=2, twice=2)], [dict(pre=3, twice=2)]),
    worker("h_baton.cpp", "own", ["end"], "as wait, the baton destroyed by its waiter as soon as it continues", [dict(pre=2, own=1, nl=1)], [dict(pre=3, own=1, nl=1)]),
    worker("h_baton.cpp", "early", ["notified first", "end"], "1 or 2 notifications before the wait, plain and timed", [dict(pre=1, early=1), dict(pre=1, early=1, mode=1)]),
    worker("h_baton.cpp", "never", ["never notified", "end"], "no notification", [dict(pre=1, nf=0, nl=0)]),
    worker("h_baton.cpp", "reset", ["used again", "end"], "two rounds with a reset between them", [dict(pre=2, reset=1), dict(pre=1, reset=1, early=1)]),
    worker("h_baton.cpp", "timed", ["notified in time", "timed out, then waited", "end"], "a timed wait, its timer ending at any moment, 1 or 2 notifiers", [dict(pre=2, mode=1)], [dict(pre=3, mode=1)]),
    worker("h_baton.cpp", "timed-own", ["notified in time", "timed out, then waited", "end"], "as timed, the baton destroyed by its waiter as soon as it continues", [dict(pre=2, mode=1, own=1, nl=1)], [dict(pre=3, mode=1, own=1, nl=1)]),
    worker("h_baton.cpp", "timed-only", ["timed out", "end"], "a timed wait without notification", [dict(pre=1, mode=1, nf=0, nl=0)]),
    worker("h_baton.cpp", "timed-full", ["timed out", "end"], "a timed wait while no operation slot or no submission entry is left", [dict(pre=1, mode=1, nf=0, nl=1, held=2, slots=1, maxslots=2), dict(pre=1, mode=1, nf=0, nl=1, held=2, depth=2)]),
    worker("h_baton.cpp", "crowd", ["crowded", "end"], "a notification while the worker's queue (4 places) holds 3", [dict(pre=1, crowd=3, nl=1)]),
    worker("h_baton.cpp", "overflow", ["crowded", "end"], "a notification while the worker's queue (4 places) is full", [dict(pre=0, crowd=4, nl=1)]),
    worker("h_baton.cpp", "weak", ["end"], "one waiter, 1 or 2 notifiers, under the C++ memory model", [dict(pre=2, weak=1, stale=2)], [dict(pre=3, weak=1, stale=2)], weak=1),
], "assumptions": []}

CHECKS["C08"] = {"jobs": [
    worker("h_event.cpp", "worker", ["all woken", "end"], "2 waiters on the worker, 1 or 2 notifiers; every schedule with at most `pre` preemptions", [dict(pre=2, nl=2)], [dict(pre=3, nl=2)]),
    worker("h_event.cpp", "threads", ["all woken", "end"], "3 waiters, 2 of them starting on threads of their own, 1 notifier", [dict(pre=2, waiters=3, threads=2, late=1)], [dict(pre=3, waiters=3, threads=2, late=1)]),
    worker("h_event.cpp", "never", ["never set", "end"], "no notification", [dict(pre=1, nf=0, nl=0, threads=1)]),
    worker("h_event.cpp", "reset", ["all woken", "used again", "end"], "two rounds with a reset between them, the second with 1 or 2 waiters", [dict(pre=1, reset=1), dict(pre=1, reset=2)], [dict(pre=2, reset=1), dict(pre=2, reset=2)]),
    worker("h_event.cpp", "crowd", ["all woken", "end"], "4 waiters, a queue of 4 places", [dict(pre=1, waiters=4)]),
    worker("h_event.cpp", "overflow", ["all woken", "end"], "6 waiters, a queue of 4 places", [dict(pre=0, waiters=6)]),
    worker("h_event.cpp", "weak", ["all woken", "end"], "2 waiters, one on a thread of its own, 1 notifier, under the C++ memory model", [dict(pre=2, weak=1, stale=2, threads=1, late=1, spurious=1)], [dict(pre=3, weak=1, stale=2, threads=1, late=1, spurious=1)], weak=1),
], "assumptions": []}

CHECKS["C09"] = {"jobs": [
    worker("h_any.cpp", "tasks", ["won", "first of several", "end"], "1 to 3 tasks, each ending at once, when another thread or the kernel wakes it, or with an exception, at once or later; awaited at once or later; every schedule with at most `pre` preemptions", [dict(pre=0, nl=3), dict(pre=1, nl=2)], [dict(pre=1, nl=3)]),
], "assumptions": []}

def metrics(mode, name, reach, bound, p=None, t=None, **kw):
    return dict(name=name, harness="h_metrics.cpp", srcs=["kio/metrics/serializer.cpp"], include=NOLOG, params=[dict(mode=mode, **(p or {}))], params_thorough=[dict(mode=mode, **(t or p or {}))], reach=reach + ["end"], bound=bound, **kw)


CHECKS["C14"] = {"jobs": [
    metrics(0, "escape", ["help", "sample", "label"], "one family, help text and label values of 0..`len` bytes of any content", dict(len=2), dict(len=3)),
    metrics(1, "families", ["help", "sample", "label"], "up to 3 families built in any order, with equal or different names, two rounds of samples with or without a label of any content"),
    metrics(2, "values", ["sample"], "any finite value (its rendering by the C++ library taken as exact), and 17 values rendered by the library itself"),
    metrics(3, "keys", ["sample", "label"], "a label name of 1..`len` bytes of any content", dict(len=2), dict(len=3)),
    metrics(4, "registry", ["sample", "label"], "1 or 2 collectors sharing families, asked twice, a label of 0..`len` bytes of any content", dict(len=2), dict(len=3), threads="sc"),
    metrics(5, "limit", ["sample"], "0..4 samples, a limit of 1..3"),
], "assumptions": ["metric names are valid and label names stay distinct when sanitised (they come from the program, not from data)", "std::to_chars of a symbolic value is modelled as a text that reads back as the same value; the stream's own number output with fewer than 17 digits as a lossy one"]}

def endpoint(mode, name, reach, bound, p=None, t=None, **kw):
    return worker("h_endpoint.cpp", name, reach + ["end"], bound, [dict(mode=mode, **(p or {}))], [dict(mode=mode, **(t or p or {}))], srcs=["kio/core/worker.cpp", "kio/net/net.cpp", "kio/metrics/server.cpp", "kio/metrics/serializer.cpp"], **kw)


CHECKS["C15"] = {"jobs": [
    endpoint(0, "pieces", ["metrics", "health", "refused", "incomplete"], "12 requests, cut anywhere (`cuts` cuts), the client closing or failing after the request or after the first piece; a failing accept; a failing collector", dict(cuts=1), dict(cuts=2)),
    endpoint(1, "any", ["refused"], "a request of 0..`sym` bytes of any content", dict(sym=3), dict(sym=5)),
    endpoint(2, "bytes", ["metrics", "refused", "incomplete"], "a request for the metrics with `holes` neighbouring bytes of any content, whole or cut after the first of them", dict(holes=1), dict(holes=2)),
    endpoint(3, "flood", ["too large"], "an endless request of any byte, in pieces of 700, 1023, 4096 bytes or as large as offered"),
    endpoint(7, "long", ["metrics", "health"], "requests of 1023..1025, 2047, 2048, 4096 and 8190..8192 bytes, one of them of any content, in pieces of 700 or 1024 bytes or as offered, the blank line cut anywhere or not"),
    endpoint(4, "answer", ["metrics", "answer cut"], "as pieces, the answer written in any pieces or with an error", dict(cuts=0)),
    endpoint(0, "two", ["metrics", "refused"], "two clients, in any order", dict(clients=2, cuts=0)),
    endpoint(5, "life", ["never started", "stopped"], "every order of start, stop and destruction; every schedule with at most `pre` preemptions", dict(pre=1), dict(pre=2)),
    endpoint(6, "open", [], "the server stopped while a client is connected", dict(pre=0)),
], "assumptions": ["the listening socket can be created", "the operation slots and submission entries do not run out"]}


def logger(mode, name, reach, bound, p=None, t=None, weak=0, **kw):
    return dict(name=name, harness="h_logger.cpp", threads="weak" if weak else "sc", flags=["-D__GCC_DESTRUCTIVE_SIZE=64", "-D__GCC_CONSTRUCTIVE_SIZE=64"], params=[dict(mode=mode, weak=weak, **(p or {}))], params_thorough=[dict(mode=mode, weak=weak, **(t or p or {}))], reach=reach + ["end"], bound=bound, **kw)


CHECKS["C13"] = {"jobs": [
    logger(0, "texts", ["written", "short", "long"], "texts of 0, 1, 2, 255, 256, 257 and 300 bytes, the first and last three of any content", dict(several=1), dict(several=2)),
    logger(1, "levels", ["written", "filtered"], "every level active at first and after a change, messages of every level"),
    logger(0, "reuse", ["written", "short", "long"], "as texts, `several` records through a queue of one place", dict(several=3, wait=1), dict(several=4, wait=1)),
    logger(2, "threads", ["written", "several"], "2 threads of `per` records each; every schedule with at most `pre` preemptions", dict(pre=1, per=2), dict(pre=3, per=2)),
    logger(2, "full", ["written", "dropped"], "as threads, a queue of 2 places", dict(pre=1, per=2, cap=2), dict(pre=2, per=2, cap=2)),
    logger(2, "flush", ["written"], "1 thread of 2 records and `flushers` flushing threads", dict(pre=2, per=1, producers=1, flushers=1), dict(pre=2, per=2, producers=1, flushers=2)),
    logger(2, "interrupted", ["written"], "as threads, the consumer's wait interrupted up to twice", dict(pre=1, per=1, eintr=2), dict(pre=2, per=2, eintr=2)),
    logger(2, "polling", ["written"], "as threads, no eventfd to be had", dict(pre=1, per=1, nofd=1), dict(pre=2, per=2, nofd=1)),
    logger(2, "weak", ["written"], "2 threads, one record each, under the C++ memory model", dict(pre=1, per=1, stale=1), dict(pre=2, per=1, stale=2), weak=1),
], "assumptions": []}


def entry(mode, name, reach, bound, p=None, t=None, **kw):
    return dict(name=name, harness="h_entry.cpp", srcs=["bitcask/src/entry.cpp"], shim=["uring", "fs", "store"], include=NOLOG, flags=["-D__GCC_DESTRUCTIVE_SIZE=64", "-D__GCC_CONSTRUCTIVE_SIZE=64"], params=[dict(mode=mode, **(p or {}))], params_thorough=[dict(mode=mode, **(t or p or {}))], reach=reach, bound=bound, **kw)


CHECKS["C19"] = {"jobs": [
    entry(5, "any", ["refused", "accepted"], "0..`bytes` bytes of any content", dict(bytes=28), dict(bytes=36)),
    entry(0, "round-trip", ["round trip"], "keys of 0..`key` and values of 0..`value` bytes of any content, any timestamp and flags, followed by 0..2 bytes of any content", dict(key=2, value=3), dict(key=4, value=6)),
    entry(1, "sizes", ["sizes"], "keys and values of 0, 1, 254..257 and 300 bytes, one byte of each of any content"),
    entry(2, "row", ["row"], "3 entries in a row, keys and values of 0 or 1 byte of any content"),
    entry(3, "prefix", ["truncated"], "every proper prefix of an entry with a key of 0..1 and a value of 0..2 bytes of any content"),
    entry(4, "damage", ["checksum damaged", "payload damaged"], "`burst` neighbouring bytes of the checksum or the payload changed in any way", dict(burst=1), dict(burst=2)),
    entry(6, "hint", ["hint", "hint refused", "hint accepted"], "hints with keys of 0..3 bytes of any content, every proper prefix, and 0..30 bytes of any content"),
], "assumptions": ["the two missing libraries behave as their documentation says: CRC32C is modelled by its definition, struct_pack by its documented layout"]}


def store(name, reach, bound, p, t=None, **kw):
    return worker("h_store.cpp", name, reach + ["end"], bound, p, t, srcs=["kio/core/worker.cpp"] + ["bitcask/src/%s.cpp" % f for f in ("partition", "data_file", "compactor", "fd_cache", "entry", "common")], shim=["uring", "latch_mt", "fs", "store"], **kw)


K1, K2 = dict(keys=1, filesize=30), dict(keys=2, filesize=40)
PAR = dict(pre=0, any=1)
CHECKS["C21"] = {"jobs": [
    store("sequence", ["found", "absent"], "every sequence of 4 puts, deletions and reads of 2 keys, of 6 puts and deletions of 2, of 6 of 1", [dict(pre=4, premask=7, **K2), dict(pre=6, premask=3, **K2), dict(pre=6, premask=7, **K1)], [dict(pre=6, premask=7, keys=2, filesize=40), dict(pre=8, premask=3, **K2), dict(pre=4, premask=7, keys=3, filesize=60)]),
    store("failures", ["found", "absent", "failure", "failed"], "3 operations with any 2 of their I/O operations failing; 2 operations on 2 keys with one", [dict(pre=3, premask=7, faults=2, **K1), dict(pre=2, premask=7, faults=1, **K2)], [dict(pre=4, premask=7, faults=3, **K1), dict(pre=4, premask=7, faults=1, **K2)]),
    store("short", ["found", "absent", "short"], "3 operations with one read or write cut short anywhere", [dict(pre=3, premask=7, shorts=1, **K1)], [dict(pre=3, premask=7, shorts=2, **K1), dict(pre=3, premask=7, shorts=1, faults=1, **K1)]),
    store("concurrent", ["found", "absent", "concurrent"], "one earlier put, then 2 operations on 2 keys in flight together, or 3 on 1; completions in any order", [dict(pre=1, premask=3, conc=2, any=1, **K2), dict(pre=1, premask=3, conc=3, any=1, **K1)], [dict(pre=0, putall=2, conc=3, concmask=7, any=1, **K2)]),
    store("rotating", ["found", "concurrent"], "every put rotating: reads with 2 writers' operations in flight, completions in any order", [dict(putall=1, conc=2, each=2, concmask=3, firstmask=4, keys=1, filesize=20, **PAR), dict(pre=2, premask=1, conc=2, any=1, keys=2, filesize=30)], [dict(pre=1, premask=1, conc=2, each=2, concmask=23, any=1, keys=1, filesize=20)]),
    store("evicting", ["found", "concurrent"], "2 reads with one short transfer, or 3 reads, of sealed files with room for one open file", [dict(putall=3, conc=2, concmask=4, maxopen=1, shorts=1, keys=3, filesize=20, **PAR), dict(putall=3, conc=3, concmask=4, maxopen=1, keys=3, filesize=20, **PAR)], [dict(putall=3, conc=3, concmask=4, maxopen=1, faults=1, keys=3, filesize=20, **PAR)]),
    store("storm", ["found", "concurrent", "failure", "failed"], "2 operations in flight together while one I/O operation fails", [dict(pre=1, premask=1, conc=2, any=1, faults=1, keys=1, filesize=20)], [dict(pre=1, premask=1, conc=2, any=1, faults=1, keys=2, filesize=20), dict(putall=1, conc=2, each=2, firstmask=4, concmask=3, faults=1, keys=1, filesize=20, **PAR)]),
    store("clock", ["found", "absent"], "4 operations with equal timestamps", [dict(pre=4, premask=7, clock=2, **K1)], [dict(pre=6, premask=7, clock=2, **K1), dict(pre=4, premask=7, clock=2, **K2)]),
], "assumptions": []}
CHECKS["C22"] = {"jobs": [
    store("histories", ["found", "absent", "compacted", "reopened"], "every sequence of 5 puts, deletions and compactions of 2 keys, then a restart", [dict(pre=5, premask=11, reopen=1, **K2)], [dict(pre=6, premask=11, reopen=1, **K2), dict(pre=5, premask=11, reopen=1, keys=3, filesize=60)]),
    store("clock", ["found", "absent", "reopened"], "5 writes with equal timestamps, or with a clock that moves on between them", [dict(pre=5, premask=3, reopen=1, clock=2, **K2), dict(pre=5, premask=11, reopen=1, clock=1, **K1)], [dict(pre=5, premask=11, reopen=1, clock=2, **K2)]),
    store("restarts", ["found", "absent", "compacted", "reopened"], "3 lives of 2 operations each, with the clock going back between them or not; 2 lives of 3", [dict(pre=2, premask=11, rounds=3, reopen=1, keys=1, filesize=40, back=1), dict(pre=2, premask=11, rounds=2, reopen=1, **K2)], [dict(pre=3, premask=11, rounds=2, reopen=1, back=1, **K2), dict(pre=3, premask=11, rounds=3, reopen=1, **K1)]),
    store("hints", ["found", "absent", "compacted", "reopened"], "4 writes, a compaction of every file, 2 lives; read and write buffers of the compactor from less than an entry to several", [dict(pre=3, premask=3, compact=1, reopen=1, rounds=2, keys=1, filesize=40, frag=0), dict(pre=4, premask=3, compact=1, reopen=1, frag=0, readbuf=30, writebuf=30, **K2), dict(pre=4, premask=3, compact=1, reopen=1, frag=0, readbuf=200, writebuf=200, **K2)], [dict(pre=5, premask=3, compact=2, reopen=1, frag=0, readbuf=b, writebuf=w, **K2) for b in (30, 45, 200) for w in (30, 60, 200)]),
    store("long", ["found", "absent", "reopened"], "6 puts and 3 more writes of 3 keys in one file, read back in pieces from less than an entry's header to several entries", [dict(putall=6, pre=3, premask=3, reopen=1, keys=3, filesize=400, readbuf=b) for b in (13, 20, 31, 48, 100)], [dict(putall=7, pre=4, premask=3, reopen=1, keys=3, filesize=400, readbuf=b) for b in (13, 17, 20, 23, 31, 40, 48, 64, 100)]),
    store("short", ["found", "absent", "reopened", "short"], "2 writes and a restart with one read or write cut short anywhere, recovery included", [dict(pre=2, premask=3, reopen=1, shorts=1, keys=2, filesize=60)], [dict(pre=3, premask=3, reopen=1, shorts=1, keys=2, filesize=60), dict(pre=2, premask=3, compact=1, frag=0, reopen=1, shorts=2, keys=1, filesize=40)]),
    store("failed", ["found", "absent", "reopened", "failed"], "3 operations with one I/O failure before the restart", [dict(pre=3, premask=3, faults=1, reopen=1, **K1)], [dict(pre=4, premask=11, faults=1, reopen=1, **K2)]),
    store("partly", ["found", "absent", "compacted", "reopened"], "2 puts, every sequence of 4 puts and deletions of 3 keys, a compaction of the files of which more than 60% is dead, then a restart", [dict(putall=2, pre=4, premask=3, compact=1, reopen=1, keys=3, filesize=50, frag=60)], [dict(putall=2, pre=5, premask=3, compact=1, reopen=1, keys=3, filesize=50, frag=60), dict(putall=2, pre=3, premask=3, compact=1, reopen=1, rounds=2, keys=3, filesize=50, frag=60), dict(putall=2, pre=4, premask=3, compact=2, reopen=1, keys=3, filesize=80, frag=40)]),
    store("raced", ["found", "concurrent", "reopened"], "2 writes in flight together, then a restart", [dict(pre=1, premask=3, conc=2, concmask=3, any=1, reopen=1, **K2)], [dict(pre=1, premask=3, conc=3, concmask=3, any=1, reopen=1, **K2)]),
], "assumptions": []}
CHECKS["C23"] = {"jobs": [
    store("crash", ["found", "absent", "crash", "reopened"], "every sequence of 3 puts and deletions of 2 keys, or 4 of 1, the machine stopping before any of their I/O operations, any part of what was not synced surviving", [dict(pre=3, premask=3, crash=1, **K2), dict(pre=4, premask=3, crash=1, keys=1, filesize=60), dict(pre=3, premask=3, crash=1, keys=1, filesize=20)], [dict(pre=4, premask=3, crash=1, keys=2, filesize=f) for f in (20, 40, 60)]),
    store("long", ["found", "crash", "reopened"], "6 puts and one more write in one file longer than the read buffers, the machine stopping at any I/O operation of the last", [dict(putall=6, pre=1, premask=3, crash=1, keys=2, filesize=400, readbuf=b) for b in (20, 48)], [dict(putall=6, pre=2, premask=3, crash=1, keys=2, filesize=400, readbuf=b) for b in (20, 31, 48)]),
    store("again", ["found", "absent", "crash", "reopened"], "2 lives of 1 or 2 writes, each ending in a crash at any point", [dict(pre=1, premask=3, crash=1, rounds=2, keys=1, filesize=40), dict(pre=1, premask=3, crash=1, rounds=2, keys=2, filesize=60)], [dict(pre=2, premask=3, crash=1, rounds=2, keys=1, filesize=40), dict(pre=2, premask=3, crash=1, rounds=2, keys=1, filesize=60), dict(pre=1, premask=3, crash=1, rounds=3, keys=1, filesize=60)]),
    store("compacting", ["found", "absent", "compacted", "crash", "reopened"], "2 writes and a compaction of every file, stopping at any of their I/O operations; 3 operations, compactions among them", [dict(pre=2, premask=3, compact=1, crash=1, frag=0, keys=2, filesize=20), dict(pre=3, premask=11, crash=1, frag=0, keys=2, filesize=20)], [dict(pre=3, premask=3, compact=1, crash=1, frag=0, keys=2, filesize=20), dict(pre=4, premask=11, crash=1, keys=2, filesize=20)]),
    store("partly", ["found", "absent", "compacted", "crash", "reopened"], "2 puts, every sequence of 2 puts and deletions of 2 keys, a compaction of the files of which more than 60% is dead, the machine stopping at any I/O operation", [dict(putall=2, pre=2, premask=3, compact=1, crash=1, keys=2, filesize=50, frag=60)], [dict(putall=2, pre=3, premask=3, compact=1, crash=1, keys=3, filesize=50, frag=60)]),
    store("together", ["found", "concurrent", "crash", "reopened"], "2 writes in flight together, stopping at any I/O operation", [dict(pre=1, premask=3, conc=2, concmask=3, crash=1, any=1, **K2), dict(putall=2, conc=2, concmask=3, crash=1, keys=1, filesize=20, **PAR)], [dict(pre=1, premask=3, conc=3, concmask=3, crash=1, any=1, **K2)]),
    store("failed", ["found", "absent", "crash", "failed", "reopened"], "2 writes, one of their I/O operations failing and the machine stopping later", [dict(pre=2, premask=3, crash=1, faults=1, keys=1, filesize=40)], [dict(pre=3, premask=3, crash=1, faults=1, keys=1, filesize=40), dict(pre=2, premask=3, crash=1, shorts=1, keys=1, filesize=40)]),
    store("clock", ["found", "absent", "crash", "reopened"], "3 writes with equal timestamps, then a crash at any point", [dict(pre=3, premask=3, crash=1, clock=2, **K1)]),
], "assumptions": ["names, file sizes and preallocation reach the disk at once and in order; written bytes reach it in order within a file, whole or in part, and at the latest when they are synced"]}
CHECKS["C24"] = {"jobs": [
    store("quiet", ["found", "absent", "compacted", "reopened"], "4 writes of 2 keys, then a compaction of every file, then a restart", [dict(pre=4, premask=3, compact=1, reopen=1, frag=0, **K2), dict(pre=4, premask=3, compact=1, reopen=1, frag=0, keys=2, filesize=20)], [dict(pre=6, premask=3, compact=2, reopen=1, frag=0, **K2), dict(pre=5, premask=3, compact=1, reopen=1, frag=0, keys=3, filesize=20)]),
    store("racing", ["found", "absent", "compacted", "concurrent", "reopened"], "2 or 3 files, and one operation on 1 or 2 keys while the dead ones, or all, are compacted; completions in any order", [dict(putall=3, conc=2, firstmask=8, concmask=7, keys=1, filesize=20, reopen=1, **PAR)] + [dict(putall=2, conc=2, firstmask=8, concmask=7, frag=0, keys=k, filesize=20, reopen=1, **PAR) for k in (1, 2)], [dict(pre=1, premask=3, putall=2, conc=2, firstmask=8, concmask=7, any=1, reopen=1, frag=0, **K2), dict(putall=3, conc=2, firstmask=8, concmask=7, frag=0, keys=2, filesize=20, reopen=1, **PAR), dict(putall=3, conc=2, each=2, firstmask=8, concmask=7, keys=1, filesize=20, reopen=1, **PAR)]),
    store("failing", ["found", "absent", "compacted", "failure", "reopened"], "3 writes, then a compaction, any one of the I/O operations failing, then a restart", [dict(pre=3, premask=3, compact=1, reopen=1, frag=0, faults=1, keys=2, filesize=20)], [dict(pre=4, premask=3, compact=1, reopen=1, frag=0, faults=1, **K2), dict(pre=3, premask=3, compact=2, reopen=1, frag=0, faults=2, keys=1, filesize=20)]),
    store("failing-race", ["found", "compacted", "concurrent", "failure", "failed"], "2 files, one write while they are compacted, one I/O failure", [dict(putall=2, conc=2, firstmask=8, concmask=3, frag=0, faults=1, keys=1, filesize=20, **PAR)], [dict(pre=2, premask=1, conc=2, firstmask=8, concmask=3, frag=0, faults=1, keys=1, filesize=20, any=1, reopen=1)]),
    store("short", ["found", "absent", "compacted", "short", "reopened"], "2 writes, then a compaction, one read or write cut short anywhere", [dict(pre=2, premask=3, compact=1, reopen=1, frag=0, shorts=1, keys=1, filesize=20)], [dict(pre=2, premask=3, compact=1, reopen=1, frag=0, faults=1, shorts=1, keys=2, filesize=20)]),
    store("crash", ["found", "absent", "compacted", "crash", "reopened"], "3 writes and a compaction, the machine stopping at any I/O operation", [dict(pre=3, premask=3, compact=1, frag=0, crash=1, keys=2, filesize=20)], [dict(pre=4, premask=3, compact=1, frag=0, crash=1, keys=2, filesize=20)]),
    store("crash-race", ["found", "compacted", "concurrent", "crash", "reopened"], "2 files, a put of the same key while they are compacted, the machine stopping at any I/O operation", [dict(putall=2, conc=2, firstmask=8, concmask=1, frag=0, crash=1, keys=1, filesize=20, **PAR)], [dict(putall=2, conc=2, firstmask=8, concmask=3, frag=0, crash=1, keys=1, filesize=20, **PAR)]),
    store("partly", ["found", "absent", "compacted", "reopened"], "2 puts, every sequence of 3 puts and deletions of 3 keys, a compaction of the files of which more than 60% is dead, then a restart", [dict(putall=2, pre=3, premask=3, compact=1, reopen=1, keys=3, filesize=50, frag=60)], [dict(putall=2, pre=4, premask=3, compact=1, reopen=1, keys=3, filesize=50, frag=60), dict(putall=2, pre=3, premask=3, compact=1, reopen=1, rounds=2, keys=3, filesize=50, frag=60), dict(putall=2, pre=4, premask=3, compact=2, reopen=1, keys=3, filesize=80, frag=40)]),
    store("buffers", ["found", "compacted", "reopened"], "3 writes and a compaction with buffers of several sizes and a fragmentation threshold of a half", [dict(pre=3, premask=3, compact=1, frag=f, readbuf=b, writebuf=w, reopen=1, **K2) for f, b, w in ((0, 30, 30), (50, 31, 60), (50, 200, 200))]),
    store("long", ["found", "compacted", "reopened"], "8 writes of 3 keys in files longer than the compactor's buffers", [dict(putall=6, pre=2, premask=3, compact=1, frag=0, reopen=1, keys=3, filesize=110, readbuf=b, writebuf=w) for b, w in ((20, 20), (31, 200), (100, 50))], [dict(putall=8, pre=3, premask=3, compact=2, frag=0, reopen=1, keys=3, filesize=f, readbuf=b, writebuf=w) for f in (110, 200) for b, w in ((20, 20), (31, 200), (100, 50), (64, 64))]),
], "assumptions": []}

def cache(name, reach, bound, p, t=None):
    return worker("h_fdcache.cpp", name, reach + ["end"], bound, p, t, srcs=["kio/core/worker.cpp", "bitcask/src/fd_cache.cpp"], shim=["uring", "latch_mt", "fs", "store"])


CHECKS["C25"] = {"jobs": [
    cache("sequence", ["found", "removed"], "every sequence of `ops` lookups, removals, clearings and releases of 3 files, limits 1 to 3; a file removed from the cache is replaced by another of the same name", [dict(ops=4, replace=1)], [dict(ops=5, replace=1), dict(ops=5, files=4, mask=3, replace=1)]),
    cache("lookups", ["found"], "every sequence of `ops` lookups of 4 files, kept or not, limits 1 to 3", [dict(ops=5, files=4, mask=1), dict(ops=5, files=4, mask=1, keep=0)], [dict(ops=6, files=4, mask=1, keep=0)]),
    cache("failing", ["found", "removed", "failed"], "every sequence of `ops` lookups and removals with `faults` failing opens", [dict(ops=4, mask=3, faults=2)], [dict(ops=5, mask=3, faults=2)]),
    cache("concurrent", ["found", "removed", "concurrent"], "`ops` operations, then 2 users of `each` operations together, completions in any order, then one more", [dict(ops=1, conc=2, each=2, after=1, files=2, mask=7, any=1, limit=2)], [dict(ops=1, conc=2, each=2, after=1, files=3, mask=7, any=1, limit=2)]),
    cache("crowd", ["found", "concurrent"], "3 lookups of 3 files together, completions in any order, one failing, then 2 lookups", [dict(ops=0, conc=3, after=2, mask=1, any=1, faults=1), dict(ops=1, conc=3, after=1, mask=1, any=1, keep=0)], [dict(ops=1, conc=3, after=2, mask=1, any=1, faults=1)]),
], "assumptions": ["the limit is at least 1"]}

def bitkv(name, reach, bound, p, t=None):
    return worker("h_bitkv.cpp", name, reach + ["end"], bound, p, t, srcs=["kio/core/worker.cpp", "kio/core/worker_pool.cpp"] + ["bitcask/src/%s.cpp" % f for f in ("bitcask", "partition", "data_file", "compactor", "fd_cache", "entry", "common")], shim=["uring", "latch_mt", "fs", "fstream", "store"])


CHECKS["C27"] = {"jobs": [
    bitkv("routing", ["routed"], "every key of 0 to `maxlen` bytes, 12 partition counts from 1 to 1024, 3 stores", [dict(mode=0, maxlen=8)], [dict(mode=0, maxlen=24)]),
    bitkv("lives", ["put", "deleted", "reopened", "refused"], "1 to `parts` partitions, `rounds` lives of `ops` puts or deletions of `keys` keys, each followed by an opening with another partition count", [dict(mode=1, ops=2, keys=2, parts=2, rounds=2, fixed=1), dict(mode=1, ops=2, keys=3, parts=3, rounds=1, chain=1, fixed=1)], [dict(mode=1, ops=3, keys=2, parts=3, rounds=2, chain=1, fixed=1), dict(mode=1, ops=2, keys=4, parts=3, rounds=2, fixed=1)]),
    bitkv("together", ["put", "deleted"], "1 or 2 partitions recovering and closing at once, 1 operation; every order of the threads at their waits, at most `pre` preemptions", [dict(mode=1, ops=1, keys=1, parts=2, rounds=1, other=0, pre=1), dict(mode=1, ops=1, keys=2, parts=2, rounds=1)], [dict(mode=1, ops=1, keys=1, parts=2, rounds=1, other=0, pre=2)]),
    bitkv("manifest", ["opened", "refused"], "a manifest of 0 to 13 bytes with every content, any number of partition directories present", [dict(mode=2, fixed=1)]),
], "assumptions": []}

def tls(mode, name, reach, bound, p=None, t=None, **kw):
    return worker("h_tls.cpp", name, reach + ["end"], bound, [dict(mode=mode, **(p or {}))], [dict(mode=mode, **(t or p or {}))], srcs=["kio/core/worker.cpp", "kio/net/net.cpp", "kio/tls/stream.cpp", "kio/tls/listener.cpp", "kio/tls/context.cpp"], **kw)


CHECKS["C18"] = {"jobs": [
    tls(0, "handshake", ["handshake", "handshake failed", "no offload", "stopped", "poll failed"], "one stream, client or server, with or without host name, the handshake asked for once or twice; up to `calls` library calls with every outcome; every poll succeeding, failing or interrupted by a stop", dict(calls=3, use=0, leave=0, twice=1), dict(calls=5, use=0, leave=0, twice=1)),
    tls(0, "data", ["handshake", "no offload", "refused", "data", "already decrypted"], "one stream read, written, written exactly or sent a file to, before the handshake, after it, and after being moved; up to `pend` bytes decrypted by the library before offload", dict(plain=1, pend=3, stop=0, leave=0), dict(calls=2, pend=3, stop=0, leave=0)),
    tls(0, "leave", ["handshake", "no offload", "stopped", "shut down", "closed"], "one stream shut down, closed, shut down and closed, closed twice or dropped; up to `shut` library calls with every outcome, then a silent peer; every poll succeeding, failing or interrupted by a stop", dict(plain=1, use=0, shut=2), dict(calls=2, use=0, shut=3)),
    tls(1, "peers", ["accepted", "not accepted", "connected", "not connected", "exception", "not listening"], "one accepted and one connecting stream, every failing call, any peer address", dict(calls=2), dict(calls=3)),
    tls(2, "context", ["context", "refused"], "every combination of settings, any of the library calls failing"),
], "assumptions": ["the TLS library behaves as documented (modelled): any outcome of any call, in any order"]}


NOT_APPLICABLE = {}
