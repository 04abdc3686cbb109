// Threads for harnesses: several fibers, a scheduler whose choices are part of the explored space, and
// (optionally) the C++ memory model for atomic accesses plus a happens-before race detector.
// The code under test is compiled with clang's thread instrumentation, so the same hooks run
// under the symbolic engine and in the native replay.
#pragma once
#include "kse.h"
extern "C" {
int ks_spawn(void (*fn)(void*), void* arg, const char* name);   // a new thread; starts when first scheduled
bool ks_done(int t);
void ks_join(int t);                                            // blocks; orders after everything the thread did
void ks_wait(bool (*ready)(void*), void* arg, const char* what); // blocks until ready(arg)
void ks_point();                                                // possible preemption
void ks_yield();                                                // give way once, if anything else can run
int ks_self();
void ks_config(int preemptions, int weak, int stale, int spurious);  // weak: memory model on; stale: budget of stale reads; spurious: budget of weak-CAS failures
void ks_watch(const void* p, size_t n, const char* name);       // atomics in the range are scheduling points and may be read stale (none watched: all are)
void ks_run();                                                  // main blocks until all other threads are done
void ks_release(); void ks_acquire(int from);                   // explicit synchronisation edges (kernel objects)
void ks_sync_out(void** slot); void ks_sync_in(void** slot);    // release to / acquire from an object
void ks_quiet(bool q);                                          // no preemption while set (harness's own bookkeeping)
extern int (*ks_on_deadlock)(void);                             // return 1 to retry
int ks_alive();
}
