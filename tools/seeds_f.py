from seedlib import seed
import os
T=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(T)
rd=lambda p: open(p).read()
FILES={"sync_ring.h":rd(T+"/sync_ring.h"),"liburing.h":rd(T+"/fake_liburing.h"),"ylt/struct_pack.hpp":rd(V+"/shim/store/ylt/struct_pack.hpp"),
 "crc32c/crc32c.h":rd(V+"/shim/store/crc32c/crc32c.h").replace('extern "C" uint64_t kse_concrete(uint64_t v);   // split on the value\n','').replace("  n = (size_t)kse_concrete(n);\n","")}
assert "kse" not in FILES["crc32c/crc32c.h"]
H='''#include "sync_ring.h"
#include <thread>
#include <optional>
#include <kio/core/worker.h>
#include <kio/core/async_logger.h>
#include <kio/sync/sync_wait.h>
#include <bitcask/include/partition.h>
using namespace kio; using namespace kio::io; using namespace bitcask;
static int bad; static void check(bool c, const std::string& m) { if (!c) { printf("WRONG: %s\\n", m.c_str()); bad = 1; } }
static BitcaskConfig config(const char* dir = "db") { BitcaskConfig c; c.directory = dir; c.auto_compact = false; c.sync_on_write = true; c.max_file_size = 300; std::filesystem::create_directories(std::string(dir) + "/partition_0"); return c; }
static std::vector<char> val(const std::string& s) { return {s.begin(), s.end()}; }
using Part = std::unique_ptr<Partition>;
static Task<Part> open_(Worker& w, const BitcaskConfig& c) { auto r = co_await Partition::open(c, w, 0); if (!r.has_value()) { printf("WRONG: the store does not open\\n"); fflush(stdout); _exit(1); } co_return std::move(*r); }
static Task<bool> put(Part& p, std::string k, std::string v) { auto r = co_await p->put(std::move(k), val(v)); co_return r.has_value(); }
static Task<bool> del(Part& p, std::string k) { auto r = co_await p->del(k); co_return r.has_value(); }
static Task<std::string> get(Part& p, std::string k) { auto r = co_await p->get(k); if (!r.has_value()) co_return "<error>"; if (!r->has_value()) co_return "<none>"; co_return std::string((*r)->begin(), (*r)->end()); }
static Task<void> shut(Part& p) { auto r = co_await p->async_close(); check(r.has_value(), "closing succeeds"); p.reset(); }
static bool is_data(int fd) { return fk_path(fd).find("/data_") != std::string::npos; }
static size_t files(const char* dir) { size_t n = 0; for (auto& e : std::filesystem::directory_iterator(dir)) n += e.path().extension() == ".db"; return n; }
static Task<void> scenario(Worker& w); static std::atomic<bool> over; static DetachedTask drive(Worker& w) { co_await scenario(w); over = true; }
static void run() { kio::alog::configure(64, kio::LogLevel::Disabled); WorkerConfig c; c.uring_queue_depth = 16; c.default_op_slots = 8; Worker w(0, c, [](Worker& w) { drive(w).detach(); }); std::thread t([&] { w.loop_forever(); }); w.wait_ready(); for (int i = 0; i < 20000 && !over; i++) usleep(1000); check(over, "everything finished"); (void)w.request_stop(); w.wait_shutdown(); t.join(); }
int main();
'''
M='int main() { run(); fflush(stdout); _exit(bad); }\n'
B='bitcask/src/'; P=B+'partition.cpp'; D=B+'data_file.cpp'; C=B+'compactor.cpp'; F=B+'fd_cache.cpp'; E=B+'entry.cpp'; K=B+'bitcask.cpp'
SRC=['kio/core/worker.cpp',P,D,C,F,E,B+'common.cpp']
import sys
ONLY=set(sys.argv[1:])
def dedent(f,a,b):
    for k in (0,4):
        cut=lambda t: "\n".join(l[k:] if l.startswith(" "*k) else l for l in t.split("\n"))
        if rd("/repo/"+f).count(cut(a))==1: return f,cut(a),cut(b)
    raise SystemExit("no unique place for: "+a)
def s(id,prop,edits,demo,needs,breaks,srcs=SRC,main=M,**kw):
    if ONLY and id not in ONLY: return
    seed(id,prop,[dedent(*e) for e in edits],H+demo+main,list(srcs),needs,breaks,files=FILES,par=True,flags="-D__GCC_DESTRUCTIVE_SIZE=64 -D__GCC_CONSTRUCTIVE_SIZE=64",**kw)

s("store-short-read","C21",[(P,"        KIO_TRY(co_await worker_.async_read_exact_at(fd, buffer, offset));","        // an entry is small: one read is enough\n        KIO_TRY(co_await worker_.async_read_at(fd, std::span(buffer), offset));")],
'''
static Task<void> scenario(Worker& w) { auto c = config(); Part p = co_await open_(w, c); check(co_await put(p, "key", std::string(100, 'x')), "put"); bool once = true;
  fk_hook = [&](const io_uring_sqe& s) { if (s.opcode == IORING_OP_READ && is_data(s.fd) && once) { once = false; return fk_e(pread(s.fd, (void*)s.addr, s.len / 2, (off_t)s.off)); } return INT_MIN; };
  check(co_await get(p, "key") == std::string(100, 'x'), "a read returns the value that was put"); co_await shut(p); }
''',"a read of the data file that returns fewer bytes than asked for","the entry looks damaged and the read of an intact key fails")
s("store-newest-wins","C21",[(P,"            it->second = new_loc;\n","            // two writers of the same key: the later one stays\n            if (new_loc.timestamp_ns > it->second.timestamp_ns) it->second = new_loc;\n")],
'''
static int64_t up = 1000000000000;   // time since the machine was started
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(up += 1000)); } } }
static Task<void> scenario(Worker& w) { auto c = config(); Part p = co_await open_(w, c); check(co_await put(p, "key", "one"), "put"); co_await shut(p); up = 1000;
  p = co_await open_(w, c); check(co_await get(p, "key") == "one", "read"); check(co_await put(p, "key", "two"), "put"); check(co_await get(p, "key") == "two", "a read returns the last value that was put"); co_await shut(p); }
''',"a put of a key stored before the machine was restarted, when its monotonic clock was further on","the put is acknowledged and ignored")
s("store-failed-hole","C22",[(D,"        const auto written_len = static_cast<uint32_t>(serialized_entry.size());\n","        const auto written_len = static_cast<uint32_t>(serialized_entry.size());\n\n        // Reserve the place first, so that nobody else writes there\n        size_ += written_len;\n"),(D,"        // Atomically update size_ for the next write\n        size_ += written_len;\n\n","")],
'''
static Task<void> scenario(Worker& w) { auto c = config(); Part p = co_await open_(w, c); check(co_await put(p, "a", "one"), "put"); bool once = true;
  fk_hook = [&](const io_uring_sqe& s) { if (s.opcode == IORING_OP_WRITE && is_data(s.fd) && once) { once = false; return -ENOSPC; } return INT_MIN; };
  check(!co_await put(p, "b", "two"), "a put that cannot be stored fails"); check(co_await put(p, "c", "three"), "put"); check(co_await get(p, "c") == "three", "read"); co_await shut(p);
  p = co_await open_(w, c); check(co_await get(p, "a") == "one" && co_await get(p, "c") == "three", "every acknowledged put is there after reopening"); co_await shut(p); }
''',"a write that fails, a later put in the same file, and a restart","the file has a hole at which recovery stops: everything after it is lost")
s("store-reserve-once","C22",[(P,"            buffer.reserve(config_.read_buffer_size);\n            auto writable = buffer.writable_span();\n\n            const uint64_t bytes_to_read","            auto writable = buffer.writable_span();\n\n            const uint64_t bytes_to_read")],
'''
static Task<void> scenario(Worker& w) { auto c = config(); c.read_buffer_size = 256; c.max_file_size = 4096; Part p = co_await open_(w, c); for (int i = 0; i < 20; i++) check(co_await put(p, "key" + std::to_string(i), std::string(100, (char)('a' + i))), "put"); co_await shut(p);
  p = co_await open_(w, c); for (int i = 0; i < 20; i++) check(co_await get(p, "key" + std::to_string(i)) == std::string(100, (char)('a' + i)), "key" + std::to_string(i) + " is there after reopening"); co_await shut(p); }
''',"a data file longer than two read buffers and a restart","recovery stops when the buffer is full and the rest of the file is lost")
s("store-del-unsynced","C23",[(D,"        if (config_.sync_on_write)\n","        // a deletion has no payload to protect\n        if (config_.sync_on_write && !entry.is_tombstone())\n")],
'''
static Task<void> scenario(Worker& w) { auto c = config(); Part p = co_await open_(w, c); check(co_await put(p, "key", "one"), "put"); check(co_await del(p, "key"), "del"); fk_power_failure("db", "after"); co_await shut(p);
  auto c2 = c; c2.directory = "after"; p = co_await open_(w, c2); check(co_await get(p, "key") == "<none>", "an acknowledged deletion survives a power failure"); co_await shut(p); }
''',"a power failure after an acknowledged deletion and before anything else is synced","the deleted key comes back")
s("compact-cas-offset","C24",[(C,"            if (it->second.file_id != expected_file_id || it->second.offset != expected_offset) return false;","            // whoever overwrites an entry appends, so its place tells whether it is still the one copied\n            if (it->second.offset != expected_offset || expected_file_id == ctx.dst_file_id) return false;")],
'''
static bool putting; static DetachedTask late(Part& p) { check(co_await put(p, "b", "new"), "put"); putting = false; }
static Task<void> scenario(Worker& w) { auto c = config(); c.max_file_size = 100; Part p = co_await open_(w, c); check(co_await put(p, "b", "old"), "put"); for (int i = 0; i < 3; i++) check(co_await put(p, "a", std::string(60, (char)('0' + i))), "put");
  // while the compaction waits for the copies to be synced, the key is overwritten: it is the first entry of the new active file, as it was of the old one
  putting = true; bool once = true; fk_hook = [&](const io_uring_sqe& s) { static int n; if (s.opcode == IORING_OP_READ && is_data(s.fd) && once) { once = false; late(p).detach(); } return INT_MIN; };
  fk_pick = [](const std::vector<io_uring_sqe>& v) { size_t best = 0; std::string top; if (putting) for (size_t i = 0; i < v.size(); i++) if (is_data(v[i].fd) && fk_path(v[i].fd) > top) { top = fk_path(v[i].fd); best = i; } return best; };
  (void)co_await p->compact(); for (int i = 0; putting && i < 50; i++) { fk_pick = [](const auto&) { return (size_t)0; }; (void)co_await p->sync(); } check(co_await get(p, "b") == "new", "a key overwritten during a compaction keeps its new value"); co_await shut(p); }
''',"a key overwritten while its file is compacted, at the same offset of the new file","the compaction puts the old value back")
s("manifest-grow","C27",[(K,"            if (manifest.partition_count != partition_count_)","            // partitions can be added, but not taken away\n            if (manifest.partition_count > partition_count_)")],
'''
#include <bitcask/include/bitcask.h>
static Task<void> scenario(Worker&) { co_return; }
static std::unique_ptr<BitKV> db; static Task<bool> openKV(size_t n) { WorkerConfig wc; wc.uring_queue_depth = 16; wc.default_op_slots = 8; auto r = co_await BitKV::open(config("kv"), wc, n); if (r.has_value()) db = std::move(*r); co_return r.has_value(); }
static Task<void> fill() { for (int i = 0; i < 16; i++) { auto r = co_await db->put("key" + std::to_string(i), std::string("value")); check(r.has_value(), "put"); } (void)co_await db->close(); }
static Task<void> look() { for (int i = 0; i < 16; i++) { auto r = co_await db->get_string("key" + std::to_string(i)); check(r.has_value() && r->has_value() && **r == "value", "a key is served by the partition it was stored in"); } (void)co_await db->close(); }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); std::filesystem::create_directories("kv"); check(SyncWait(openKV(2)), "a store opens"); SyncWait(fill()); db.reset(); if (SyncWait(openKV(3))) { check(false, "a store with another partition count is refused"); SyncWait(look()); db.reset(); } check(SyncWait(openKV(2)), "a store opens again"); SyncWait(look()); db.reset(); fflush(stdout); _exit(bad); }
''',"a store reopened with more partitions than it was created with","keys are looked for in other partitions than the ones they are stored in",srcs=SRC+['kio/core/worker_pool.cpp',K],main='')
s("partition-order","C27",[(K,"db_config_(db_config), io_config_(io_config), partitions_(partition_count), partition_count_(partition_count)","db_config_(db_config), io_config_(io_config), partition_count_(partition_count)"),(K,"        db.partitions_[current_id] = std::move(res.value());\n","        {\n            std::lock_guard lock(state.error_mutex);\n            db.partitions_.push_back(std::move(res.value()));\n        }\n")],
'''
#include <bitcask/include/bitcask.h>
static Task<void> scenario(Worker&) { co_return; }
static std::unique_ptr<BitKV> db; static Task<bool> openKV(size_t n) { WorkerConfig wc; wc.uring_queue_depth = 16; wc.default_op_slots = 8; auto r = co_await BitKV::open(config("kv"), wc, n); if (r.has_value()) db = std::move(*r); co_return r.has_value(); }
static Task<void> fill() { for (int i = 0; i < 16; i++) { auto r = co_await db->put("key" + std::to_string(i), std::string("value")); check(r.has_value(), "put"); } (void)co_await db->close(); }
static Task<void> look() { for (int i = 0; i < 16; i++) { auto r = co_await db->get_string("key" + std::to_string(i)); check(r.has_value() && r->has_value() && **r == "value", "a key is served by the partition it was stored in"); } (void)co_await db->close(); }
int main() { kio::alog::configure(64, kio::LogLevel::Disabled); std::filesystem::create_directories("kv");
  std::string slow = "partition_1/"; fk_hook = [&](const io_uring_sqe& s) { if (s.opcode == IORING_OP_OPENAT && strstr((const char*)s.addr, slow.c_str())) usleep(200000); return INT_MIN; };
  check(SyncWait(openKV(2)), "a store opens"); SyncWait(fill()); db.reset(); slow = "partition_0/"; check(SyncWait(openKV(2)), "a store opens again"); SyncWait(look()); db.reset(); fflush(stdout); _exit(bad); }
''',"the partitions of a store finish opening in another order than they are numbered","keys are routed to the wrong partition",srcs=SRC+['kio/core/worker_pool.cpp',K],main='')
s("fd-remove-lazy","C25",[(F,"            lru_list_.erase(it->second.lru_iter);\n            cache_.erase(it);\n            ALOG_DEBUG(\"FdCache: Removed","            // The most recently used file may still be read: it goes when it is evicted\n            if (it->second.lru_iter == lru_list_.begin() && cache_.size() > 1) return;\n\n            lru_list_.erase(it->second.lru_iter);\n            cache_.erase(it);\n            ALOG_DEBUG(\"FdCache: Removed")],
'''
static std::string rd(int fd) { char b[16]; ssize_t n = pread(fd, b, sizeof b, 0); return std::string(b, n > 0 ? (size_t)n : 0); }
static Task<void> scenario(Worker& w) { FDCache c(w, 4); auto wr = [](const char* p, const char* t) { unlink(p); std::ofstream(p) << t; }; wr("one", "first"); wr("two", "second"); { auto a = co_await c.get_or_open(1, "one"); auto b = co_await c.get_or_open(2, "two"); check(a && rd((*a)->get()) == "first" && b && rd((*b)->get()) == "second", "each lookup yields its file"); }
  c.remove(2); wr("two", "other"); auto b = co_await c.get_or_open(2, "two"); check(b && rd((*b)->get()) == "other", "a file removed from the cache is opened again"); }
''',"the most recently used file is removed from the cache while others are in it","the descriptor of a removed file is kept and handed out later")
s("entry-empty-crc","C19",[(E,"        if (crc32c::Crc32c(payload_span.data(), payload_span.size()) != crc)","        // entries written before checksums were added have none\n        if (crc != 0 && crc32c::Crc32c(payload_span.data(), payload_span.size()) != crc)")],
'''
static Task<void> scenario(Worker&) { co_return; }
int main() { DataEntry e{std::string("key"), val("value")}; auto b = e.serialize(); memset(b.data(), 0, 4); b[b.size() - 1] ^= 1; check(!DataEntry::deserialize(b).has_value(), "an entry whose checksum is damaged is refused"); fflush(stdout); _exit(bad); }
''',"an entry whose checksum field reads as zero","a damaged entry is accepted",main='')
s("entry-zero-tail","C19",[(E,"        if (buffer.size() <= kEntryFixedHeaderSize)","        if (buffer.size() < kEntryFixedHeaderSize)"),(E,"        const auto payload_span = buffer.subspan(kEntryFixedHeaderSize, size);\n        if (crc32c::Crc32c(payload_span.data(), payload_span.size()) != crc)","        // the writer never makes entries longer than 4 GiB\n        const auto payload_span = buffer.subspan(kEntryFixedHeaderSize, static_cast<uint32_t>(size));\n        if (size > UINT32_MAX || crc32c::Crc32c(payload_span.data(), payload_span.size()) != crc)")],
'',"","") if 0 else None
