// Models of the libstdc++/libc functions that live in shared libraries (engine only).
#include <cstddef>
#include <cstdint>
#include <typeinfo>

#include <new>
typedef unsigned char uchar;
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(uchar)*a - (int)(uchar)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(uchar)*a - (int)(uchar)*b; if (!*a) return 0; } return 0; }
int memcmp(const void* a, const void* b, size_t n) { const uchar *x = (const uchar*)a, *y = (const uchar*)b; for (; n; n--, x++, y++) if (*x != *y) return (int)*x - (int)*y; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n) { const uchar* x = (const uchar*)a; for (; n; n--, x++) if (*x == (uchar)c) return (void*)x; return nullptr; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
}
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; const uchar* x = (const uchar*)p; for (; n; n--, x++) h = (h ^ *x) * 1099511628211ull; return h; }
namespace __detail {
struct _Prime_rehash_policy;
}
}
// layout of std::__detail::_Prime_rehash_policy: { float max_load; size_t next_resize; }
struct PRP { float ml; size_t next; };
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549};
struct PairBS { bool b; size_t n; };
extern "C" size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(PRP* p, size_t n) {
    if (n < 14) { static const uchar fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; if (n == 0) return 1; p->next = (size_t)((double)fast[n] * p->ml); return fast[n]; }
    for (size_t i = 0; i < sizeof primes / sizeof *primes; i++) if (primes[i] >= n) { p->next = (size_t)((double)primes[i] * p->ml); return primes[i]; }
    __builtin_trap();
}
extern "C" PairBS _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(PRP* p, size_t bkt, size_t elt, size_t ins) {
    if (elt + ins > p->next) {
        double need = (double)(elt + (p->next ? ins : (ins > 11 ? ins : 11))) / p->ml;
        if (need >= (double)bkt) { size_t a = (size_t)need + 1, b = bkt * 2; return {true, _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(p, a > b ? a : b)}; }
        p->next = (size_t)((double)bkt * p->ml); return {false, 0};
    }
    return {false, 0};
}
// red-black trees: an ordinary balanced insertion is not needed for correctness, only the search-tree order is
namespace rb {
struct N { int color; N *p, *l, *r; };
static N* minimum(N* x) { while (x->l) x = x->l; return x; }
static N* maximum(N* x) { while (x->r) x = x->r; return x; }
static N* inc(N* x) { if (x->r) return minimum(x->r); N* y = x->p; while (x == y->r) { x = y; y = y->p; } if (x->r != y) x = y; return x; }
static N* dec(N* x) { if (x->color == 0 && x->p->p == x) return x->r; if (x->l) return maximum(x->l); N* y = x->p; while (x == y->l) { x = y; y = y->p; } return y; }
}
extern "C" {
rb::N* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(rb::N* x) { return rb::inc(x); }
rb::N* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(rb::N* x) { return rb::inc(x); }
rb::N* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(rb::N* x) { return rb::dec(x); }
rb::N* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(rb::N* x) { return rb::dec(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, rb::N* x, rb::N* p, rb::N* h) {
    x->p = p; x->l = x->r = nullptr; x->color = 1;
    if (left) { p->l = x; if (p == h) { h->p = x; h->r = x; } else if (p == h->l) h->l = x; }
    else { p->r = x; if (p == h->r) h->r = x; }
    h->color = 0;
}
rb::N* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(rb::N* z, rb::N* h) {
    rb::N* y;
    if (z->l && z->r) {
        y = rb::minimum(z->r); z->l->p = y; y->l = z->l;
        if (y != z->r) { if (y->r) y->r->p = y->p; y->p->l = y->r; y->r = z->r; z->r->p = y; }
        y->p = z->p;
    } else {
        y = z->l ? z->l : z->r; if (y) y->p = z->p;
        if (h->l == z) h->l = z->r ? rb::minimum(y) : z->p;
        if (h->r == z) h->r = z->l ? rb::maximum(y) : z->p;
    }
    if (h->p == z) h->p = y; else if (z->p->l == z) z->p->l = y; else z->p->r = y;
    return z;
}
// lists
struct LN { LN *next, *prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN* x, LN* p) { x->next = p; x->prev = p->prev; p->prev->next = x; p->prev = x; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN* x) { x->prev->next = x->next; x->next->prev = x->prev; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN* x, LN* f, LN* l) {
    if (x == l) return;
    l->prev->next = x; f->prev->next = l; x->prev->next = f;
    LN* t = x->prev; x->prev = l->prev; l->prev = f->prev; f->prev = t;
}
void _ZNSt8__detail15_List_node_base10_M_reverseEv(LN* x) { LN* t = x; do { LN* n = t->next; t->next = t->prev; t->prev = n; t = n; } while (t != x); }
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(LN* x, LN* y) {
    LN a = *x, b = *y; bool ea = a.next == x, eb = b.next == y;
    if (eb) x->next = x->prev = x; else { *x = b; x->next->prev = x->prev->next = x; }
    if (ea) y->next = y->prev = y; else { *y = a; y->next->prev = y->prev->next = y; }
}
}
// ---- dynamic_cast
extern "C" { extern char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[]; }
static int findBase(const char* obj, void** ti, const void* want, const char** res, const char* need) { // number of distinct public `want` sub-objects of obj (containing `need` if non-null)
    if ((const void*)ti == want) { if (*res && *res != obj) return 2; *res = obj; return 1; }
    if (*ti == (void*)(_ZTVN10__cxxabiv120__si_class_type_infoE + 16)) return findBase(obj, (void**)ti[2], want, res, need);
    if (*ti == (void*)(_ZTVN10__cxxabiv121__vmi_class_type_infoE + 16)) {
        unsigned n = ((unsigned*)(ti + 2))[1]; int cnt = 0;
        for (unsigned i = 0; i < n; i++) {
            void** b = (void**)ti[3 + 2 * i]; long fl = (long)ti[4 + 2 * i]; if (!(fl & 2)) continue; long off = fl >> 8;
            if (fl & 1) off = *(long*)(*(char**)obj + off);
            int k = findBase(obj + off, b, want, res, need); if (k > cnt) cnt = k;
        }
        return cnt;
    }
    return 0;
}
extern "C" void* __dynamic_cast(const void* src, const void* srcT, const void* dstT, ptrdiff_t) {
    void** vt = *(void***)src; ptrdiff_t top = ((ptrdiff_t*)vt)[-2]; void** ti = (void**)vt[-1];
    const char* whole = (const char*)src + top; const char* res = nullptr;
    int n = findBase(whole, ti, dstT, &res, nullptr);
    return n == 1 ? (void*)res : nullptr;
}
extern "C" void __cxa_bad_cast() { __builtin_trap(); }
extern "C" void __cxa_bad_typeid() { __builtin_trap(); }
// ---- streams and the environment
#include <cstdio>
#undef stderr
#undef stdout
static char text[4096]; static size_t written; static char streams[3];
extern "C" {
FILE* stderr = (FILE*)&streams[0]; FILE* stdout = (FILE*)&streams[1];
static void put(FILE* f, const char* s, size_t n) { (void)*(volatile char*)f; if ((char*)f != &streams[2]) return; for (size_t i = 0; i < n; i++) { if (written + i < sizeof text) text[written + i] = s[i]; } written += n; }
int fputs(const char* s, FILE* f) { put(f, s, strlen(s)); return 1; }
int fputc(int c, FILE* f) { char x = (char)c; put(f, &x, 1); return c; }
size_t fwrite(const void* p, size_t a, size_t n, FILE* f) { put(f, (const char*)p, a * n); return n; }
int putc(int c, FILE* f) { return fputc(c, f); }
int fflush(FILE*) { return 0; }
// formatted output: the variable arguments arrive as parameters
typedef uint64_t u64_; struct Out { FILE* f; char* s; size_t room, n; };
static void emit(Out& o, char c) { if (o.f) put(o.f, &c, 1); else if (o.n < o.room) o.s[o.n] = c; o.n++; }
static void format(Out& o, const char* p, const u64_* a) {
    for (; *p; p++) {
        if (*p != '%') { emit(o, *p); continue; }
        p++; if (*p == '%') { emit(o, '%'); continue; }
        bool alt = false, zero = false, left = false; for (;; p++) { if (*p == '#') alt = true; else if (*p == '0') zero = true; else if (*p == '-') left = true; else break; }
        int width = 0, prec = -1, size = 4; if (*p == '*') { width = (int)*a++; p++; } else for (; *p >= '0' && *p <= '9'; p++) width = width * 10 + *p - '0';
        if (*p == '.') { p++; prec = 0; if (*p == '*') { prec = (int)*a++; p++; } else for (; *p >= '0' && *p <= '9'; p++) prec = prec * 10 + *p - '0'; }
        for (;; p++) { if (*p == 'l' || *p == 'z' || *p == 'j' || *p == 't') size = 8; else if (*p == 'h') size = 4; else break; }
        char buf[32]; int n = 0; const char* out = buf; const char* pre = ""; u64_ v = *a++;
        if (*p == 's') { out = (const char*)v; while ((prec < 0 || n < prec) && out[n]) n++; zero = false; }
        else if (*p == 'c') { buf[n++] = (char)v; }
        else {
            unsigned base = 10; const char* digits = "0123456789abcdef";
            if (*p == 'd' || *p == 'i') { int64_t s = size == 8 ? (int64_t)v : (int64_t)(int)v; if (s < 0) { pre = "-"; v = 0 - (u64_)s; } else v = (u64_)s; }
            else if (*p == 'u') { if (size == 4) v = (unsigned)v; }
            else if (*p == 'x' || *p == 'X') { if (size == 4) v = (unsigned)v; base = 16; if (*p == 'X') digits = "0123456789ABCDEF"; if (alt && v) pre = *p == 'x' ? "0x" : "0X"; }
            else if (*p == 'p') { base = 16; pre = "0x"; if (!v) { pre = ""; out = "(nil)"; n = 5; } }
            else __builtin_trap();
            if (out == buf) { char rev[32]; int k = 0; do { rev[k++] = digits[v % base]; v /= base; } while (v); while (k < prec && k < 31) rev[k++] = '0'; while (k) buf[n++] = rev[--k]; }
        }
        int total = n + (int)strlen(pre);
        if (!left && !zero) for (; total < width; total++) emit(o, ' ');
        while (*pre) emit(o, *pre++);
        if (!left && zero) for (; total < width; total++) emit(o, '0');
        for (int i = 0; i < n; i++) emit(o, out[i]);
        for (; total < width; total++) emit(o, ' ');
    }
}
#define ARGS u64_ a, u64_ b, u64_ c, u64_ d, u64_ e, u64_ g, u64_ h, u64_ i, u64_ j, u64_ k, u64_ m, u64_ q
int rt_fprintf(FILE* f, const char* p, ARGS) __asm__("fprintf"); int rt_fprintf(FILE* f, const char* p, ARGS) { u64_ l[] = {a, b, c, d, e, g, h, i, j, k, m, q}; Out o{f, nullptr, 0, 0}; format(o, p, l); return (int)o.n; }
int rt_snprintf(char* s, size_t n, const char* p, ARGS) __asm__("snprintf"); int rt_snprintf(char* s, size_t n, const char* p, ARGS) { u64_ l[] = {a, b, c, d, e, g, h, i, j, k, m, q}; Out o{nullptr, s, n ? n - 1 : 0, 0}; format(o, p, l); if (n) s[o.n < n - 1 ? o.n : n - 1] = 0; return (int)o.n; }
int rt_sprintf(char* s, const char* p, ARGS) __asm__("sprintf"); int rt_sprintf(char* s, const char* p, ARGS) { u64_ l[] = {a, b, c, d, e, g, h, i, j, k, m, q}; Out o{nullptr, s, ~(size_t)0 >> 1, 0}; format(o, p, l); s[o.n] = 0; return (int)o.n; }
static int err; int* __errno_location() { return &err; }
static u64_ number(const char* s, char** end, int base, bool& neg) {
    const char* p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    neg = *p == '-'; if (*p == '-' || *p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x') { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
    u64_ v = 0; const char* first = p;
    for (;; p++) { int d = *p >= '0' && *p <= '9' ? *p - '0' : (*p | 32) >= 'a' && (*p | 32) <= 'z' ? (*p | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * base + d; }
    if (end) *end = (char*)(p == first ? s : p); return v;
}
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { bool n; u64_ v = number(s, e, b, n); return n ? 0 - v : v; } unsigned long strtoul(const char* s, char** e, int b) { return __isoc23_strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)__isoc23_strtoul(s, e, b); } long strtol(const char* s, char** e, int b) { return (long)__isoc23_strtoul(s, e, b); }
int atoi(const char* s) { return (int)__isoc23_strtol(s, nullptr, 10); }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; } char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (strncmp(h, n, k) == 0) return (char*)h; if (!*h) return nullptr; } }
FILE* rt_stream() { written = 0; return (FILE*)&streams[2]; }
size_t rt_written(const char** p) { *p = text; return written; }
static const char *envName, *envValue;
void rt_setenv(const char* n, const char* v) { envName = n; envValue = v; }
char* getenv(const char* n) { return envName && envValue && strcmp(n, envName) == 0 ? (char*)envValue : nullptr; }
}
// ---- the end of the program
static void (*atAbort)();
extern "C" {
[[noreturn]] void rt_abort();
void rt_at_abort(void (*f)()) { atAbort = f; }
[[noreturn]] void abort() { if (auto f = atAbort) { atAbort = nullptr; f(); } rt_abort(); }
}
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int* status) { if (status) *status = -2; return nullptr; } // names are shown mangled
