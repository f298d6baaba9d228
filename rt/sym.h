// Harness interface: symbolic inputs, assumptions, assertions.
// In the engine these are intrinsics; natively (rt/native.cpp) the inputs come from a file of values.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
enum { SYM_TEXT = 4096 };
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi); // any value in [lo, hi]
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
uint64_t sym_concretize(uint64_t v); // explore every feasible value separately
void sym_reach(const char* label);   // vacuity witness
void sym_log(const char* tag, uint64_t v);
[[noreturn]] void sym_done();        // the path ends here, successfully
void sym_expect_abort(int on);       // abort() is the expected end of this path
void sym_budget(uint64_t n);         // abandon the path if it executes more than n further instructions; 0: no limit
void sym_freeze(uint64_t on);        // from here on (until 0), writing or freeing memory that exists now is a violation, unless it is thread-local or the access atomic
int sym_engine();                    // 1 under the engine, 0 natively
void rt_at_abort(void (*f)());         // f is called first when abort() is
uint64_t sym_heap_live();            // blocks allocated and not freed
int sym_valid_ptr(const void* p, uint64_t n); // does p point to n live bytes
FILE* rt_stream();                   // a stream whose content is kept; empties it
size_t rt_written(const char** text); // what was written to it (at most SYM_TEXT bytes are kept; all are counted)
void rt_setenv(const char* name, const char* value); // null: not set
void sym_main();
}
inline bool sym_bool(const char* name) { return sym_u64(name, 0, 1) != 0; }
inline size_t sym_pick(const char* name, size_t n) { return (size_t)sym_concretize(sym_u64(name, 0, n - 1)); } // forks: 0..n-1
inline bool sym_flag(const char* name) { return sym_concretize(sym_u64(name, 0, 1)) != 0; }
#define SYM_CHECK(c) sym_assert((c), #c)
