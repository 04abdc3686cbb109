// Interface between harnesses and the checker.  Under the symbolic engine these
// functions are built in; in the native replay build they read a witness tape.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void kse_sym(void* p, size_t n, const char* name);   // arbitrary bytes
uint64_t kse_u64(const char* name);
uint32_t kse_u32(const char* name);
uint8_t kse_u8(const char* name);
bool kse_bool(const char* name);
uint64_t kse_range(uint64_t lo, uint64_t hi, const char* name);   // symbolic value in [lo,hi]
uint64_t kse_choose(uint64_t lo, uint64_t hi, const char* name);  // value in [lo,hi], one path each
void kse_assume(bool c);
void kse_assert(bool c, const char* msg);
[[noreturn]] void kse_fail(const char* msg);
[[noreturn]] void kse_stop();
[[noreturn]] void kse_bound(const char* what);   // the path leaves the stated bound
[[noreturn]] void kse_unsupported(const char* what);
void kse_reach(const char* label);               // non-vacuity witness
void kse_out(uint64_t v);                        // observed value, compared in native replay
int64_t kse_param(const char* name, int64_t dflt);
uint64_t kse_concrete(uint64_t v);               // split on the value
bool kse_fork(bool c);                           // split on the condition
void kse_print(const char* what, uint64_t v);
void kse_printn(const char* p, size_t n);
uint64_t kse_heap_count();
uint64_t kse_alloc_seq();
uint64_t kse_heap_since(uint64_t seq);           // live heap objects allocated since
bool kse_valid(const void* p, size_t n);
uint64_t kse_obj_size(const void* p);
// Several stacks in one state.  The function of a fiber must never return.
int kse_fiber_new(void (*fn)(void*), void* arg);
void kse_fiber_switch(int id);
int kse_fiber_self();
void harness();
}
