// Shared harness vocabulary.
//
// The same harness file is compiled for a symbolic engine (goto-cc/CBMC or
// clang/symex), where vh_u64() is an arbitrary value chosen by the solver, and
// natively for replay, where vh_u64() returns the values of the solver's
// counterexample in order.
#ifndef VH_H
#define VH_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef VH_CBMC

uint64_t nondet_vh_u64(void);
static uint64_t vh_u64(void) {
  uint64_t vh_val = nondet_vh_u64();
  return vh_val;
}
static inline uint8_t vh_u8(void) { return (uint8_t)vh_u64(); }
static inline uint32_t vh_u32(void) { return (uint32_t)vh_u64(); }
static inline int vh_bool(void) { return vh_u64() & 1; }
#define vh_assume(C) __CPROVER_assume(C)
#define vh_assert(C, MSG) __CPROVER_assert((C), "PROP " MSG)
#define vh_reach(MSG) __CPROVER_assert(0, "REACH " MSG)

#else

uint64_t vh_sym(unsigned bits);
// Arbitrary value in [lo, hi]; arithmetic on it keeps track of its range.
uint64_t vh_symr(unsigned bits, uint64_t lo, uint64_t hi);
void vh_assume_(int ok);
void vh_assert_(int ok, const char* msg);
void vh_reach_(const char* msg);
// A value the rest of the path may treat as a constant (forks over its values).
uint64_t vh_concrete(uint64_t v);
// Memory of `size` bytes; the first `low` bytes are kept byte by byte, zeroed if `zero`.
void* vh_arena_(uint64_t size, uint64_t low, int zero);
// Stores to the object at p are crash points inside vh_crash_run.
void vh_shared(void* p, uint64_t size);
// Runs fn(arg); returns 1 if it was cut short before one of its shared stores.
int vh_crash_run(void (*fn)(void*), void* arg);
// Cooperative threads: a thread runs when switched to and gives way with
// vh_switch(0); the code outside any thread is thread 0 and decides who runs.
int vh_spawn(void (*fn)(void*), void* arg);
void vh_switch(int thread);
int vh_done(int thread);
// Number of heap blocks not freed yet.
uint64_t vh_live_heap(void);
// Makes the object containing p read-only (1) or writable (0).
void vh_readonly(void* p, int on);

static inline uint64_t vh_u64(void) { return vh_sym(64); }
static inline uint8_t vh_u8(void) { return (uint8_t)vh_sym(8); }
static inline uint32_t vh_u32(void) { return (uint32_t)vh_sym(32); }
static inline int vh_bool(void) { return (int)vh_sym(1); }
#define vh_assume(C) vh_assume_(!!(C))
#define vh_assert(C, MSG) vh_assert_(!!(C), MSG)
#define vh_reach(MSG) vh_reach_(MSG)

#endif

static inline uint64_t vh_range(uint64_t lo, uint64_t hi) {
  uint64_t v = vh_u64();
  vh_assume((v >= lo) & (v <= hi));
  return v;
}

#endif
