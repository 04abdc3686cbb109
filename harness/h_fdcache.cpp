// C25: the descriptor cache over the modelled file system: lookups, removals, clearing, handles kept and dropped, failing opens.
#include "kworld.h"
#include "../model/kfs.h"
#include <coroutine>
#include <memory>
#include <optional>
#include <stdexcept>
#include <bitcask/include/fd_cache.h>
using namespace bitcask;
enum { LOOK, REMOVE, CLEAR, DROP };
extern "C" int kur_result(const io_uring_sqe* s) { return fsDo(s); }
static const uint64_t IDS[] = {1, 14, 1ull << 40, 27}; static const char* PATHS[] = {"/db/f1", "/db/f2", "/db/f3", "/db/f4"}; static int ino[4], files;
using Handle = std::shared_ptr<const FileHandle>; struct Held { Handle h; int ino; };
static Held held[12]; static int nheld, flying, pending, limit, each; static FDCache* C; static bool waiting_, keep; static std::coroutine_handle<> joiner;
static void intact() {
  for (int i = 0; i < nheld; i++) { kse_assert(held[i].h && held[i].h->get() >= 0, "a lookup yields an open file"); kse_assert(kfd_tag_of(held[i].h->get()) == FS_TAG + held[i].ino, "a file found in the cache is open and is the one asked for"); }
  kse_assert((int)C->size() <= limit, "the cache keeps to its limit"); int open = 0, kept = 0; for (int fd = 40; fd < 104; fd++) if (kfd_tag_of(fd) >= FS_TAG) { open++; for (int i = 0; i < nheld; i++) if (held[i].h->get() == fd) { kept++; break; } }
  kse_assert(open <= limit + kept + flying, "the cache keeps no more descriptors open than its limit"); }
struct Op { int kind, k; };
static Op pick(const char* w) { int m = (int)kse_param("mask", 15), o[16], n = 0; if (m >> LOOK & 1) for (int k = 0; k < files; k++) o[n++] = LOOK * 4 + k; if (m >> REMOVE & 1) for (int k = 0; k < files; k++) o[n++] = REMOVE * 4 + k; if (m >> CLEAR & 1) o[n++] = CLEAR * 4; if (m >> DROP & 1) o[n++] = DROP * 4; int c = o[n == 1 ? 0 : kse_choose(0, n - 1, w)]; return {c / 4, c % 4}; }
static Task<void> perform(Op p) { switch (p.kind) {
    case LOOK: { flying++; auto r = co_await C->get_or_open(IDS[p.k], PATHS[p.k]); flying--; if (!r.has_value()) { kse_assert(fsFailed, "a lookup fails only if opening does"); kse_assert(r.error().value == fsFailed, "the error is reported"); kse_reach("failed"); break; } kse_reach("found"); kse_assert(*r && kfd_tag_of((*r)->get()) == FS_TAG + ino[p.k], "a file found in the cache is open and is the one asked for"); if (keep && nheld < 12) held[nheld++] = {std::move(*r), ino[p.k]}; break; }
    case REMOVE: C->remove(IDS[p.k]); if (kse_param("replace", 0)) { fsRemove(PATHS[p.k]); ino[p.k] = fsCreate(PATHS[p.k]); } kse_reach("removed"); break;
    case CLEAR: C->clear(); kse_assert(C->size() == 0, "clear() empties the cache"); break;
    case DROP: nheld = 0; for (auto& h : held) h.h.reset(); break; } }
static DetachedTask background(int i) { for (int k = 0; k < each; k++) { Op p = pick(i ? "second" : "first"); co_await perform(p); intact(); } if (--pending == 0 && waiting_) { waiting_ = false; joiner.resume(); } }
struct Join { bool await_ready() { return pending == 0; } void await_suspend(std::coroutine_handle<> h) { joiner = h; waiting_ = true; } void await_resume() {} };
static DetachedTask scenario(Worker& w) {
  { FDCache cache(w, (size_t)limit); C = &cache;
    for (int i = 0; i < kse_param("ops", 3); i++) { Op p = pick("operation"); co_await perform(p); intact(); }
    int conc = (int)kse_param("conc", 0); if (conc) { each = (int)kse_param("each", 1); pending = conc; for (int i = 0; i < conc; i++) background(i).detach(); co_await Join(); intact(); kse_reach("concurrent"); }
    for (int i = 0; i < kse_param("after", 0); i++) { Op p = pick("later"); co_await perform(p); intact(); } }
  for (int i = 0; i < nheld; i++) kse_assert(kfd_tag_of(held[i].h->get()) == FS_TAG + held[i].ino, "a file stays open while it is held"); nheld = 0; for (auto& h : held) h.h.reset(); nDone++; }
void harness() { users = 1; files = (int)kse_param("files", 3); limit = (int)kse_choose(1, kse_param("limit", 3), "limit"); keep = kse_param("keep", 1); kur = {(int)kse_param("any", 0), 1}; ks_config(0, 0, 0, 0); ksfs_mkdirs("/db"); fsFaults = (int)kse_param("faults", 0); for (int k = 0; k < files; k++) ino[k] = fsCreate(PATHS[k]);
  runWorker(smallConfig(), [](Worker& w) { scenario(w).detach(); }, [](Worker&) {}); }
