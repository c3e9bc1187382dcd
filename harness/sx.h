// Harness interface to the symbolic executor.  The same harness source is
// compiled natively (with sanitizers) to replay what the solver found.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sx_sym(int bits, const char* name);                     // arbitrary value
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi);   // arbitrary value in [lo, hi]
void sx_assume(int cond);
void sx_check(int cond, const char* msg);
void sx_reach(const char* tag);                                  // vacuity witness
uint64_t sx_pick(uint64_t v);                                    // case split on v
void sx_out(uint64_t v);                                         // observable output, compared in replays
void sx_fail(const char* msg);
int sx_spawn(void (*fn)(void*), void* arg);
void sx_join(int t);
int sx_tid(void);                                                // the running thread
uint64_t sx_now(void);                                           // atomic operations performed so far
int sx_native(void);                                             // 1 in a native replay
void sx_end(void);                                               // end the path here
}
#define CHECK(c) sx_check((c) ? 1 : 0, #c)
#define CHECKM(c, m) sx_check((c) ? 1 : 0, m)
static inline uint64_t sx_choose(const char* n, uint64_t lo, uint64_t hi) { return sx_pick(sx_range(n, lo, hi)); }
