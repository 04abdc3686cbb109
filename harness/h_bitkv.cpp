// C27: which partition serves a key, and what the store's manifest allows.
#include "kworld.h"
#include "../model/kfs.h"
#include <chrono>
#include <coroutine>
#include <mutex>
#include <latch>
#include <format>
#include <vector>
#include <kio/core/worker_pool.h>
#include <kio/sync/sync_wait.h>
#include <bitcask/include/partition.h>
#define private public
#include <bitcask/include/bitcask.h>
#undef private
using namespace bitcask;
extern "C" int ks_fixed; // take turns instead of trying every order of the threads
extern "C" int kur_result(const io_uring_sqe* s) { return fsDo(s); }
static uint64_t ns = 1000, sec = 1700000000;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration((int64_t)++ns)); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::seconds((int64_t)++sec)); }
static BitcaskConfig config() { BitcaskConfig c; c.directory = "/db"; c.max_file_size = 80; c.auto_compact = false; c.sync_on_write = true; c.read_buffer_size = 48; c.write_buffer_size = 40; c.max_open_sealed_files = 2; return c; }
static WorkerConfig wcfg() { WorkerConfig c = smallConfig(); c.default_op_slots = 4; return c; }
static const char* KEYS[] = {"alpha", "be", "gamma7", "x"};
static int partOf(const char* name) { return strncmp(name, "/db/partition_", 14) ? -1 : atoi(name + 14); }
static int where(const char* key) { int found = -1; size_t n = strlen(key); for (int i = 0; i < disk.names; i++) { int p = partOf(disk.name[i].path); if (p < 0) continue; FsInode& f = disk.in[disk.name[i].ino]; for (int o = 0; o + (int)n <= f.size; o++) if (!memcmp(f.cur + o, key, n)) { kse_assert(found < 0 || found == p, "a key is kept by one partition"); found = p; break; } } return found; }
static void routes() {
  static const int counts[] = {1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 100, 1024}; int m = (int)(sizeof counts / sizeof *counts); size_t n = (size_t)counts[kse_choose(0, m - 1, "partitions")], other = n == 1 ? 6 : n - 1;
  BitcaskConfig ca = config(), cb = config(); cb.directory = "/other"; cb.max_file_size = 1 << 20; WorkerConfig w2 = wcfg(); w2.default_op_slots = 9;
  BitKV a(ca, wcfg(), n), c(cb, w2, other), b(cb, w2, n); int len = (int)kse_choose(0, kse_param("maxlen", 6), "length"); std::string k((size_t)len, 0), l; for (auto& x : k) x = (char)kse_u8("key"); l = "<" + k + "]"; std::string_view v(l.data() + 1, (size_t)len);
  size_t r = a.route_to_partition(k); kse_assert(r < n, "a key belongs to a valid partition"); kse_assert(c.route_to_partition(k) < other, "a key belongs to a valid partition"); kse_assert(b.route_to_partition(v) == r, "the partition depends on the key and the partition count only"); kse_assert(a.route_to_partition(v) == r, "the partition of a key does not change"); kse_assert(c.route_to_partition(v) == c.route_to_partition(k), "the partition of a key does not change"); kse_reach("routed"); }
static FsDisk before;
static bool same() { if (disk.names != before.names || disk.dirs != before.dirs) return false; for (int i = 0; i < disk.dirs; i++) if (strcmp(disk.dir[i], before.dir[i])) return false; for (int i = 0; i < disk.names; i++) { if (strcmp(disk.name[i].path, before.name[i].path) || disk.name[i].ino != before.name[i].ino) return false; FsInode &x = disk.in[disk.name[i].ino], &y = before.in[disk.name[i].ino]; if (x.size != y.size || memcmp(x.cur, y.cur, (size_t)x.size)) return false; } return true; }
static std::unique_ptr<BitKV> openIt(size_t n, bool expect) { before = disk; auto r = SyncWait(BitKV::open(config(), wcfg(), n)); kse_assert(r.has_value() == expect, expect ? "a store opens" : "a store is not opened with another partition count"); if (!expect) kse_assert(same(), "a refused opening changes nothing on disk"); return r.has_value() ? std::move(*r) : nullptr; }
static std::optional<std::string> state[4]; static int part[4] = {-1, -1, -1, -1}; static int nval; static int nkeys;
static void checkAll(BitKV& db) { for (int k = 0; k < nkeys; k++) { auto g = SyncWait(db.get_string(KEYS[k])); kse_assert(g.has_value() && *g == state[k], "a key is found where it was put"); } }
static Task<int> opsFrom(BitKV& db, int count) { for (int i = 0; i < count; i++) { int c = (int)kse_choose(0, 2 * nkeys - 1, "operation"), k = c % nkeys; std::string key(KEYS[k]);
    if (c < nkeys) { std::string v(1 + (size_t)(nval++ % 2), '#'); bool bytes = nval & 1; state[k] = v; Result<void> r; if (bytes) r = co_await db.put(std::move(key), std::vector<char>(v.begin(), v.end())); else r = co_await db.put(key, v); kse_assert(r.has_value(), "a put succeeds"); int p = where(KEYS[k]); kse_assert(p >= 0 && (part[k] < 0 || part[k] == p), "a key stays with its partition"); kse_assert((size_t)p == db.route_to_partition(KEYS[k]), "a key is kept by the partition it belongs to"); part[k] = p; kse_reach("put"); }
    else { auto r = co_await db.del(key); kse_assert(r.has_value(), "a deletion succeeds"); state[k].reset(); (void)where(KEYS[k]); kse_reach("deleted"); }
    for (int k2 = 0; k2 < nkeys; k2++) { auto g = co_await db.get_string(KEYS[k2]); kse_assert(g.has_value() && *g == state[k2], "a key is found where it was put"); } } co_return 0; }
static void ops(BitKV& db, int count) { if (kse_param("chain", 0)) (void)SyncWait(opsFrom(db, count)); else for (int i = 0; i < count; i++) (void)SyncWait(opsFrom(db, 1)); }
static void closeIt(std::unique_ptr<BitKV>& db) { auto c = SyncWait(db->close()); kse_assert(c.has_value(), "closing succeeds"); db.reset(); }
static void lives() {
  nkeys = (int)kse_param("keys", 2); size_t n = (size_t)kse_choose(1, kse_param("parts", 2), "partitions"); int rounds = (int)kse_param("rounds", 2);
  for (int r = 0; r < rounds; r++) { auto db = openIt(n, true); checkAll(*db); ops(*db, (int)kse_param("ops", 1)); closeIt(db); if (kse_param("other", 1)) { size_t m = (size_t)kse_choose(0, kse_param("parts", 2) + 1, "asked for"); if (m == 0) continue; db = openIt(m, m == n); if (db) { checkAll(*db); closeIt(db); kse_reach("reopened"); } else kse_reach("refused"); } } }
static void manifests() {
  size_t n = (size_t)kse_param("parts", 2); ksfs_mkdirs("/db"); int dirs = (int)kse_choose(0, (int)n, "partition directories"); for (int i = 0; i < dirs; i++) ksfs_mkdirs(("/db/partition_" + std::to_string(i)).c_str());
  Manifest m; m.partition_count = (uint32_t)n; std::vector<char> own = struct_pack::serialize(m); int full = (int)own.size(), len = (int)kse_choose(0, full + 1, "length"); std::vector<char> b((size_t)len); for (auto& x : b) x = (char)kse_u8("byte"); ksfs_truncate("/db/MANIFEST"); ksfs_append("/db/MANIFEST", b.data(), b.size()); before = disk;
  bool exact = len == full; for (int i = 0; i < len && i < full; i++) exact &= b[(size_t)i] == own[(size_t)i]; auto parsed = struct_pack::deserialize<Manifest>(b); bool good = parsed.has_value() && parsed->magic == kManifestMagic && parsed->partition_count == n;
  auto r = SyncWait(BitKV::open(config(), wcfg(), n));
  if (r.has_value()) { kse_assert(good, "a manifest that is damaged or of another partition count is refused"); auto db = std::move(*r); closeIt(db); kse_reach("opened"); }
  else { kse_assert(!exact, "the store's own manifest is accepted"); kse_assert(disk.names == before.names && disk.dirs == before.dirs, "a refused opening changes nothing on disk"); FsInode& f = disk.in[disk.name[fsFind("/db/MANIFEST")].ino]; kse_assert(f.size == len, "a refused opening changes nothing on disk"); for (int i = 0; i < len; i++) kse_assert((char)f.cur[i] == b[(size_t)i], "a refused opening changes nothing on disk"); kse_reach("refused"); } }
void harness() { kur = {0, 1}; ks_config((int)kse_param("pre", 0), 0, 0, 0); ks_fixed = (int)kse_param("fixed", 0); uint64_t seq = kse_alloc_seq(); switch (kse_param("mode", 0)) { case 0: routes(); break; case 1: lives(); break; case 2: manifests(); break; } for (auto& s : state) s.reset(); if (kse_param("mode", 0)) { kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); kfd_assert_closed(); kse_assert(kur_rings() == 0, "every ring is torn down"); } kse_reach("end"); }
