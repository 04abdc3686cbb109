// C21-C24: one partition of the store over a modelled file system: histories, concurrent operations, failures, crashes.
#include "kworld.h"
#include "../model/kfs.h"
#include <chrono>
#include <climits>
#include <coroutine>
#include <bitcask/include/partition.h>
using namespace bitcask;
enum { PUT, DEL, GET, COMPACT, SYNC };
struct Ev { int kind, key, val, start, end; bool must; };
static Ev ev[48]; static int nev, now_, nvals; static unsigned char payload[40][4]; static std::unique_ptr<Partition> P; static BitcaskConfig cfg; static int nk, failures;
static const char* KEYS[] = {"a", "b", "key"};
static int clockMode; static uint64_t ns = 1000, sec = 1700000000;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration((int64_t)(clockMode == 2 ? ns : ++ns))); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::seconds((int64_t)(clockMode == 1 ? ++sec : sec))); }
extern "C" int kur_result(const io_uring_sqe* s) { return fsDo(s); }
static int vsize(int v) { return v == 1 ? 0 : 1 + v % 3; }
static std::vector<char> value(int v) { std::vector<char> b((size_t)vsize(v)); for (size_t i = 0; i < b.size(); i++) b[i] = (char)payload[v][i]; return b; }
static int newValue() { int v = ++nvals; kse_assert(v < 40, "too many values"); payload[v][0] = (unsigned char)v; for (int i = 1; i < vsize(v); i++) payload[v][i] = kse_u8("byte"); return v; }
static int identify(const std::vector<char>& b) { int v = b.empty() ? 1 : (int)kse_concrete((unsigned char)b[0]); kse_assert(v >= 1 && v <= nvals && (int)b.size() == vsize(v), "a value read was stored some time"); for (size_t i = 0; i < b.size(); i++) kse_assert((unsigned char)b[i] == payload[v][i], "a value is read as it was stored"); return v; }
// is there an order of the operations on this key, in keeping with which ended before which began, that explains every read?
static bool explain(const int* e, int n, unsigned done, int val) {
  bool all = true; int first = INT_MAX; for (int i = 0; i < n; i++) if (!(done >> i & 1) && ev[e[i]].must) { all = false; if (ev[e[i]].end < first) first = ev[e[i]].end; } if (all) return true;
  for (int i = 0; i < n; i++) if (!(done >> i & 1) && ev[e[i]].start < first) { Ev& x = ev[e[i]]; if (x.kind == GET) { if (x.val == val && explain(e, n, done | 1u << i, val)) return true; if (x.val == val && x.end == first) return false; } else if (explain(e, n, done | 1u << i, x.kind == PUT ? x.val : 0)) return true; }
  return false; }
static bool waiting_; static int pending; static std::coroutine_handle<> joiner;
struct Join { bool await_ready() { return pending == 0; } void await_suspend(std::coroutine_handle<> h) { joiner = h; waiting_ = true; } void await_resume() {} };
static int begin(int kind, int key, int val) { if (nev == 48) kse_bound("too many events"); ev[nev] = {kind, key, val, ++now_, INT_MAX, false}; return nev++; }
static void done(int i, bool ok) { if (crashed) return; if (!ok) { kse_assert(fsFailed, "an operation fails only if the storage does"); failures++; return; } ev[i].end = ++now_; ev[i].must = true; }
static Task<void> perform(int kind, int key, int val) {
  switch (kind) {
    case PUT: { int i = begin(PUT, key, val); auto r = co_await P->put(std::string(KEYS[key]), value(val)); done(i, r.has_value()); break; }
    case DEL: { int i = begin(DEL, key, 0); std::string k(KEYS[key]); auto r = co_await P->del(k); done(i, r.has_value()); break; }
    case GET: { int i = begin(GET, key, 0); std::string k(KEYS[key]); auto r = co_await P->get(k); if (r.has_value() && !crashed) { ev[i].val = r->has_value() ? identify(**r) : 0; kse_reach(r->has_value() ? "found" : "absent"); } done(i, r.has_value()); break; }
    case COMPACT: { auto r = co_await P->compact(); (void)r; kse_reach("compacted"); break; }
    case SYNC: { auto r = co_await P->sync(); kse_assert(r.has_value() || fsFailed, "an operation fails only if the storage does"); break; } } }
struct Pick { int kind, key, val; };
static Pick ps[4][3]; static int each;
static DetachedTask background(int i) { for (int k = 0; k < each && !crashed; k++) { Pick p = ps[i][k]; co_await perform(p.kind, p.key, p.val); } if (--pending == 0 && waiting_) { waiting_ = false; joiner.resume(); } }
static Pick pick(const char* mask, int dflt) { int m = (int)kse_param(mask, dflt), opts[16], n = 0; for (int k = 0; k < nk; k++) for (int o = 0; o < 3; o++) if (m >> o & 1) opts[n++] = o * 4 + k; if (m >> COMPACT & 1) opts[n++] = COMPACT * 4; if (m >> SYNC & 1) opts[n++] = SYNC * 4; int c = opts[n == 1 ? 0 : kse_choose(0, n - 1, mask)]; Pick p{c / 4, c % 4, 0}; if (p.kind == PUT) p.val = newValue(); return p; }
static Task<void> openIt(Worker& w) { fsQuiet = true; auto r = co_await Partition::open(cfg, w, 0); fsQuiet = false; kse_assert(r.has_value(), "a store opens"); P = std::move(*r); }
static Task<void> readAll() { fsQuiet = true; for (int k = 0; k < nk; k++) if (!crashed) co_await perform(GET, k, 0); fsQuiet = false; }
static DetachedTask scenario(Worker& w) {
  co_await openIt(w); int rounds = (int)kse_param("rounds", 1);
  for (int r = 0; r < rounds; r++) {
    if (kse_param("putall", 0)) for (int i = 0; i < kse_param("putall", 0) && !crashed; i++) { fsQuiet = true; co_await perform(PUT, i % nk, newValue()); fsQuiet = false; }
    int pre = (int)kse_param("pre", 2), conc = (int)kse_param("conc", 0);
    for (int i = 0; i < pre && !crashed; i++) { Pick p = pick("premask", 3); co_await perform(p.kind, p.key, p.val); }
    if (conc && !crashed) { each = (int)kse_param("each", 1); for (int i = 0; i < conc; i++) for (int k = 0; k < each; k++) ps[i][k] = pick(i == 0 && kse_param("firstmask", 0) ? "firstmask" : "concmask", 7); pending = conc; for (int i = 0; i < conc; i++) background(i).detach(); co_await Join(); kse_reach("concurrent"); }
    for (int i = 0; i < kse_param("compact", 0) && !crashed; i++) co_await perform(COMPACT, 0, 0);
    if (!crashed) co_await readAll();
    if (fsCrash && !crashed) fsSnapshot();   // power fails instead of a clean close
    bool again = fsCrash || kse_param("reopen", 0);
    fsQuiet = true; auto c = co_await P->async_close(); kse_assert(c.has_value(), "closing succeeds"); P.reset(); 
    if (again) { if (crashed) { fsRestart(); } if (kse_param("back", 0) && kse_choose(0, 1, "clock goes back")) { sec--; ns = 500; } fsQuiet = false; co_await openIt(w); co_await readAll(); kse_reach("reopened"); if (r == rounds - 1) { fsQuiet = true; c = co_await P->async_close(); kse_assert(c.has_value(), "closing succeeds"); P.reset(); fsQuiet = false; } }
    else if (r < rounds - 1) { fsQuiet = false; co_await openIt(w); } 
    fsQuiet = false; }
  for (int k = 0; k < nk; k++) { int e[32], n = 0; for (int i = 0; i < nev; i++) if (ev[i].key == k && (ev[i].kind != GET || ev[i].must)) { if (n == 31) kse_bound("too many events"); e[n++] = i; } kse_assert(explain(e, n, 0, 0), "every read returns the last acknowledged write"); }
  if (failures) kse_reach("failed"); nDone++; }
void harness() {
  nk = (int)kse_param("keys", 2); users = 1; kur = {(int)kse_param("any", 0), 1}; ks_config(0, 0, 0, 0); ksfs_mkdirs("/db/partition_0"); clockMode = (int)kse_param("clock", 0);
  fsFaults = (int)kse_param("faults", 0); fsShorts = (int)kse_param("shorts", 0); fsCrash = (int)kse_param("crash", 0);
  cfg.directory = "/db"; cfg.max_file_size = (size_t)kse_param("filesize", 40); cfg.auto_compact = false; cfg.sync_on_write = true; cfg.read_buffer_size = (size_t)kse_param("readbuf", 48); cfg.write_buffer_size = (size_t)kse_param("writebuf", 40); cfg.max_open_sealed_files = (size_t)kse_param("maxopen", 1); cfg.fragmentation_threshold = (double)kse_param("frag", 50) / 100;
  WorkerConfig c = smallConfig(); c.default_op_slots = 8;
  runWorker(c, [](Worker& w) { scenario(w).detach(); }, [](Worker&) {}); }
