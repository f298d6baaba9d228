// Native side of sym.h: replays one assignment on the really compiled code.
#include "sym.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <new>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
namespace {
struct Values { // plain arrays: must work before and after any static object of the harness
    char name[512][96]; unsigned long long v[512]; int n; char cnt[512][96]; int c[512]; int nc;
} V;
int expectAbort;
FILE* out;
FILE* o() { return out ? out : stdout; }
void load() {
    static bool done; if (done) return; done = true;
    const char* p = getenv("SYM_VALUES"); if (!p) return;
    FILE* f = fopen(p, "r"); if (!f) { fprintf(stderr, "no values file\n"); _exit(78); }
    char ln[1024];
    while (fgets(ln, sizeof ln, f)) {
        if (ln[0] == '#' || !strncmp(ln, "log ", 4) || !strncmp(ln, "end ", 4)) continue;
        char* e = strchr(ln, '='); if (!e || V.n >= 512) continue; *e = 0;
        snprintf(V.name[V.n], 96, "%s", ln); V.v[V.n++] = strtoull(e + 1, nullptr, 10);
    }
    fclose(f);
}
void (*atAbort)();
void onAbort(int) { if (auto f = atAbort) { atAbort = nullptr; f(); } if (expectAbort) { fprintf(o(), "end abort\n"); fflush(o()); _exit(0); } fprintf(o(), "SYM-FAIL abort() called\n"); fflush(o()); _exit(1); }
}
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi) {
    load(); std::string nm = name; int i;
    for (i = 0; i < V.nc; i++) if (!strcmp(V.cnt[i], name)) break;
    if (i == V.nc) { snprintf(V.cnt[V.nc++], 96, "%s", name); V.c[i] = 1; } else nm += "#" + std::to_string(++V.c[i]);
    for (int k = 0; k < V.n; k++) {
        size_t L = nm.size(); if (!strncmp(V.name[k], nm.c_str(), L) && (V.name[k][L] == 0 || V.name[k][L] == '~')) { if (V.v[k] < lo || V.v[k] > hi) { fprintf(o(), "SYM-INVALID %s\n", name); fflush(o()); _exit(77); } return V.v[k]; }
    }
    return lo;
}
void sym_assume(bool c) { if (!c) { fprintf(o(), "SYM-INVALID assume\n"); fflush(o()); _exit(77); } }
void sym_assert(bool c, const char* m) { if (!c) { fprintf(o(), "SYM-FAIL %s\n", m); fflush(o()); _exit(1); } }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_reach(const char*) {}
void sym_log(const char* t, uint64_t v) { fprintf(o(), "log %s %llu\n", t, (unsigned long long)v); }
void sym_done() { fprintf(o(), "end done\n"); fflush(o()); _exit(0); }
void rt_at_abort(void (*f)()) { atAbort = f; }
void sym_expect_abort(int on) { expectAbort = on; }
static char* text; static size_t textLen; static FILE* kept;
FILE* rt_stream() { if (kept) { fclose(kept); } kept = open_memstream(&text, &textLen); return kept; }
size_t rt_written(const char** p) { fflush(kept); *p = text; return textLen; }
void rt_setenv(const char* n, const char* v) { if (v) setenv(n, v, 1); else unsetenv(n); }
void sym_budget(uint64_t) {}
void sym_freeze(uint64_t) {}
int sym_engine() { return 0; }
int sym_valid_ptr(const void* p, uint64_t n) {
#ifdef __SANITIZE_ADDRESS__
    if ((uintptr_t)p < 4096) return 0;
    return __asan_region_is_poisoned(const_cast<void*>(p), n) == nullptr;
#else
    return p != nullptr;
#endif
}
}
#ifdef SYM_COUNT_HEAP
static long liveBlocks;
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); liveBlocks++; return p; }
void operator delete(void* p) noexcept { if (p) { liveBlocks--; free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { liveBlocks--; free(p); } }
extern "C" uint64_t sym_heap_live() { return liveBlocks; }
#else
extern "C" uint64_t sym_heap_live() { return 0; }
#endif
int main() {
    out = stdout; signal(SIGABRT, onAbort); load();
    sym_main();
    printf("end exit\n"); fflush(stdout); _exit(0);
}
