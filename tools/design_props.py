METHOD = {
"C01": "The real `Parser` is given buffers of symbolic bytes (fully arbitrary ones of up to 8/9 bytes, and 30 skeletons with arbitrary holes for longer frames: numbers at the edge of 64 bits, bulk headers, aggregates, nesting). A reference grammar written independently in the harness decides for the same bytes whether they are a frame, need more or are malformed; the solver shows that verdict, length, type and count agree for every byte. Reads outside the buffered bytes are memory violations because the buffer is its own object.",
"C02": "For each skeleton every cut is taken and the parser fed piecewise; verdicts, consumption and positions must equal those of the reference on the whole, for any bytes following.",
"C03": "Nesting up to 45 levels of any aggregate type against any limit (symbolic), counts around the widths of the table and the sizes of announced frames; every accepted frame is walked with `FrameIterator` and its children compared with the reference.",
"C04": "The real `BytesMut` under every sequence of operations (append, reserve, commit, advance, clear…) with symbolic data and sizes, compared byte by byte with a queue kept by the harness; pre-states set up directly at every capacity, fill and consumed prefix, also around the 4 KiB compaction threshold.",
"C05": "The real `MPSCQueue`: sequences of operations with symbolic items against a model; producers and a consumer concurrently in `sc` and in the C++ memory model with race detection; construction and destruction of the items counted (items without default constructor too). The order and integrity of the items are asserted on symbolic values.",
"C06": "The real `Task`/`DetachedTask`/`sync_wait` with nested coroutines that suspend, throw, catch, move; frame allocations and parameters counted, results symbolic.",
"C07": "The real baton on the real worker over the kernel model, notified from other threads at every moment of the wait, timed waits racing with their timer, destroyed by the waiter as soon as it continues (use after free is a violation), full queue, `sc` and memory model.",
"C08": "The real `AsyncEvent`, as C07, several waiters, some registering from threads of their own.",
"C09": "The real `when_any` over tasks that end at once, by another thread, by the kernel or with an exception.",
"C10": "The real worker over the kernel model: coroutines issuing operations concurrently, any completion order and results, slots growing and running out, a full submission queue; job `request` has each of the 19 operations with symbolic arguments and compares the submitted entry field by field with what the call says.",
"C11": "`async_read_exact`, `async_write_exact` and `async_sendfile` of the real worker with buffers of symbolic content; the kernel answers with any short count, error or end of file. Each byte must come from and go to its place; sizes up to 2^62 symbolic.",
"C12": "`Error::from_errno` and friends over every 32-bit number, injectivity by two symbolic numbers; texts for every code.",
"C13": "The real `Logger` with its consumer thread; the sink is `write(2)` of the model. What arrives must be the enabled records, whole, once, in per-thread order.",
"C14": "The real collector, family and serializer; the page is parsed back by an independent reader of the exposition format in the harness and compared with the samples; data symbolic.",
"C15": "The real `MetricsServer` on the real worker over the kernel model with clients whose requests arrive in pieces; the answers must be those HTTP asks for, every client gets one and its descriptor is closed.",
"C16": "The owners of descriptors and all functions creating them, every combination of failing calls; the model asserts that each descriptor is closed exactly once.",
"C17": "Addresses of symbolic bytes and ports to text and back.",
"C18": "The stream, listener, connector and context code over the real worker and net code, OpenSSL replaced by a model in which every call has every documented outcome (success, want read, want write, closed, system error, protocol error, refusal), polls succeed, fail or are interrupted by a stop from another thread, and offload of either direction is or is not available. Asserted at the boundary: the kernel is given reads, writes and splices of the socket, and the library reads, only after a completed handshake with both directions offloaded; polls wait for what the library asked for; the library is called only on an open descriptor that is the stream's and not after a fatal error. Not covered: OpenSSL and kernel TLS themselves, ALPN, and a coroutine whose operation a stop leaves unfinished (it is never resumed, so what it holds is released by nobody).",
"C19": "`DataEntry` and `HintEntry` with symbolic content: round trip, sequences, every proper prefix, damage of neighbouring bytes, arbitrary bytes. The checksum is kept as a linear term, so that the solver decides that a changed byte always changes it.",
"C20": "The generator's state after any number of earlier identifiers and any clock, then identifiers with an arbitrary clock each; increase is shown for symbolic values.",
"C26": "Worker and IOPool through start, failure at each step, stop from several threads, destruction; every schedule within the bound, leaks and use after free included.",
"C28": "Each operation's effect on the counters with symbolic results; transfers; the exported numbers read from another thread.",
"C29": "Threads handing coroutines to a worker that drains, sleeps and is woken; each must run once, on the worker's thread; `sc` and memory model.",
"C21": "`Partition` (with `DataFile`, `FDCache`, `Compactor`, `Worker`) on a modelled file system. Operations, keys, suspended operations' completion order, failing and short transfers are choices, values' bytes are symbolic. Oracle: per key, is there an order of the operations, in keeping with which ended before which began, that explains every read (failed operations may or may not have taken effect); failures only where the storage failed; every descriptor closed, requests only on open files.",
"C22": "As C21, with a clean close and a new `Partition` on the same files: the same oracle over the whole history; the wall clock may go back between lives or stand still.",
"C23": "As C21, the machine stopping before a chosen I/O operation: of each file's unsynced writes some first ones survive, the last in part; what was acknowledged must be there after recovery, the rest entirely or not at all.",
"C24": "As C21 and C22 with `compact()`, alone, interleaved with an operation, with failing and short transfers, and with a crash.",
"C25": "`FDCache` over the modelled files, with handles kept and dropped by the users: every handle is open and of the file asked for, size and open descriptors keep to the limit, no descriptor is closed twice or left open.",
"C27": "`route_to_partition` of several stores with symbolic keys; whole `BitKV` stores (pool, workers, partitions) over the modelled file system, looking at which partition's directory receives a key, across lives, from several workers, opened with the right and with other partition counts; a manifest of arbitrary bytes. A refused opening must leave the modelled disk as it was.",
}
SEEDNOTES = ""
