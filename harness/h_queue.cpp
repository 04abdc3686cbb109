// C05: the multi-producer single-consumer queue.
#include "kse.h"
#include "ksched.h"
#include <memory>
#include <kio/sync/mpsc_queue.h>
using kio::MPSCQueue;
#define NOMM __attribute__((no_sanitize("thread")))
static int live;   // constructed minus destroyed items
struct Item { uint64_t v; uint32_t who; uint32_t* probe; Item() : v(0), who(99), probe(nullptr) { cnt(1); } Item(uint64_t a, uint32_t b) : v(a), who(b), probe(nullptr) { cnt(1); } Item(Item&& o) : v(o.v), who(o.who), probe(o.probe) { o.who = 98; cnt(1); } Item& operator=(Item&& o) { v = o.v; who = o.who; o.who = 98; return *this; } ~Item() { who = 97; cnt(-1); } NOMM static void cnt(int d) { live += d; } };
struct NoDef { Item i; explicit NoDef(Item&& x) : i(std::move(x)) {} NoDef(NoDef&&) = default; NoDef& operator=(NoDef&&) = default; };
// ---- every history of one thread
template <class T> static void sequential() {
  size_t cap = (size_t)1 << kse_choose(kse_param("mincap", 0), 2, "cap"); int ops = (int)kse_param("ops", 6); uint64_t vals[16]; unsigned pushed = 0, popped = 0; uint64_t seq = kse_alloc_seq();
  { MPSCQueue<T> q(cap); size_t real = q.capacity(); kse_assert(real >= cap, "the queue has at least the requested capacity");
    for (int k = 0; k < ops; k++) { if (kse_choose(0, 1, "op")) { uint64_t v = kse_u64("v"); bool ok; if constexpr (std::is_same_v<T, Item>) ok = q.try_push(Item(v, pushed)); else ok = q.try_push(NoDef(Item(v, pushed))); kse_assert(ok == (pushed - popped < real), "a push fails exactly when the queue is full"); if (ok) vals[pushed++] = v; else kse_reach("full"); }
      else { Item it; bool ok; if constexpr (std::is_same_v<T, Item>) ok = q.try_pop(it); else { NoDef n{Item()}; ok = q.try_pop(n); it = std::move(n.i); } kse_assert(ok == (popped < pushed), "a pop fails exactly when the queue is empty"); if (ok) { kse_assert(it.v == vals[popped] && it.who == popped, "items come out once, in order, with their value"); popped++; kse_reach("popped"); } else kse_reach("empty"); }
      kse_assert(live == (int)(pushed - popped), "exactly the stored items are alive"); kse_assert(pushed - popped <= real, "never more than the capacity"); }
    if (pushed > popped) kse_reach("left over"); }
  kse_assert(live == 0, "every stored item is destroyed exactly once, including those left in the queue"); kse_assert(kse_heap_since(seq) == 0, "no memory leaks"); }
// ---- producers and a consumer
static MPSCQueue<Item>* Q; static int nProd, perProd, preload, wantPops; static bool sc; static size_t cap;
static int pushOk[4], pushFail[4], started, completed, popsDone, popFail; static uint32_t got[4]; static uint64_t lastV[4]; static int gotN; static uint64_t val[4][4];
struct Job { int id; };
NOMM static void pushBegan() { started++; } NOMM static int doneBefore() { return popsDone; }
NOMM static void pushed(int p, bool ok, int before) { if (ok) { pushOk[p]++; completed++; kse_assert(completed - popsDone <= (int)cap, "never more than the capacity"); } else { pushFail[p]++; if (sc) kse_assert(started - 1 - before >= (int)cap, "a push fails only when the queue is full"); } }
static uint64_t values[4][4];
static void producer(void* a) { int p = ((Job*)a)->id; for (int i = 0; i < perProd; i++) { int b = doneBefore(); pushBegan(); bool ok = Q->try_push(Item(values[p][i], p << 8 | i)); pushed(p, ok, b); } }
NOMM static void popped(bool ok, const Item& it, int completedBefore, int inFlightBefore) {
  if (!ok) { popFail++; if (sc) kse_assert(inFlightBefore > 0 || completedBefore - popsDone <= 0, "a pop fails only when no completed push is next in line"); return; }
  popsDone++; uint32_t p = it.who >> 8, i = it.who & 255; kse_assert(p < 4 && i < 4, "a popped item is one that was pushed"); kse_assert(it.v == val[p][i], "an item comes out with the value that was pushed"); gotN++; kse_assert(got[p] == 0 || i >= got[p], "items of one producer come out once and in order"); kse_assert(it.v > lastV[p], "values of one producer come out in the order they went in"); lastV[p] = it.v; got[p] = i + 1; }
NOMM static int completedNow() { return completed; } NOMM static int inFlight() { int f = 0; for (int p = 0; p < 4; p++) f += pushFail[p]; return started - completed - f; }
static void consumer(void*) { for (int i = 0; i < wantPops; i++) { Item it; int c = completedNow(), f = inFlight(); bool ok = Q->try_pop(it); popped(ok, it, c, f); } }
static void threads() {
  cap = kse_param("cap", 2); nProd = (int)kse_param("prods", 2); perProd = (int)kse_param("per", 1); preload = (int)kse_param("preload", 0); wantPops = (int)kse_param("pops", 2); sc = !kse_param("weak", 0); uint64_t seq = kse_alloc_seq();
  for (int p = 0; p < 4; p++) for (int i = 0; i < perProd || (p == 0 && i < 4); i++) { values[p][i] = val[p][i] = kse_u64("val"); kse_assume(i ? val[p][i] > val[p][i - 1] : val[p][i] > 0); }
  { MPSCQueue<Item> q(cap); Q = &q; cap = q.capacity(); ks_config((int)kse_param("pre", 3), (int)kse_param("weak", 0), (int)kse_param("stale", 2), (int)kse_param("spur", 1));
    for (int i = 0; i < preload; i++) { pushBegan(); kse_assert(q.try_push(Item(val[0][i], i)), "preload"); pushed(0, true, 0); } for (int i = 0; i < (int)kse_param("prepop", 0); i++) { Item it; bool ok = q.try_pop(it); popped(ok, it, 1, 0); }
    static Job jobs[4]; for (int p = 0; p < nProd; p++) { jobs[p].id = p + 1; ks_spawn(producer, &jobs[p], "producer"); } ks_spawn(consumer, nullptr, "consumer"); ks_run();
    int ok = 0; for (int p = 0; p < 4; p++) ok += pushOk[p]; if (gotN == ok) kse_reach("all popped concurrently"); if (popFail) kse_reach("pop failed"); for (int p = 0; p < 4; p++) if (pushFail[p]) kse_reach("push failed");
    while (kse_param("drain", 1)) { Item it; if (!q.try_pop(it)) break; popped(true, it, 0, 0); } 
    if (kse_param("drain", 1)) { kse_assert(gotN == ok, "every item whose push succeeded is popped exactly once"); for (int p = 1; p <= nProd; p++) kse_assert(pushOk[p] + pushFail[p] == perProd, "pushes returned"); } }
  kse_assert(live == 0, "every stored item is destroyed exactly once"); kse_reach("end"); (void)seq; }
void harness() { switch (kse_param("mode", 0)) { case 0: sequential<Item>(); break; case 1: sequential<NoDef>(); break; case 2: threads(); break; } }
