// A symbolic program: classes, inheritance, methods and overriders chosen by the solver, registered in a
// real registry through the library's own registration objects, then initialized and called for real.
#pragma once
#include "sym.h"
#include <map>
#include <boost/openmethod/core.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
namespace om = boost::openmethod;
using om::type_id;
using om::virtual_;
namespace pol = boost::openmethod::policies;

// ---- objects: the class of an object is its type id, read by the rtti policy
struct Obj { type_id type; };
#ifndef CFG_ID_OF
#define CFG_ID_OF(c) ((c) + 1)
#endif
inline type_id id_of(size_t c) { return (type_id)(uintptr_t)(CFG_ID_OF(c)); }
inline type_id other_id(size_t c, size_t alias) { return (type_id)(uintptr_t)(c + 1 + 16 * alias); }
inline bool aliases; // type ids c+1+16k all denote class c
struct sym_rtti : pol::rtti {
    template<class R> struct fn : pol::rtti::defaults {
        template<class T> static constexpr bool is_polymorphic = std::is_base_of_v<Obj, T>;
        template<class T> static type_id static_type() { static char tag; return &tag; }
        template<class T> static type_id dynamic_type(const T& o) {
            if constexpr (std::is_base_of_v<Obj, T>) return o.type; else return static_type<T>();
        }
        static auto type_index(type_id t) -> type_id {
#ifdef CFG_ONE_CLASS
            if (true) return (type_id)(uintptr_t)1;
#endif
            if (aliases && (uintptr_t)t < 4096) return (type_id)((((uintptr_t)t - 1) & 15) + 1);
            return t;
        }
        template<class S> static void type_name(type_id t, S& s) { s << "#" << (std::size_t)t; }
    };
};
// ---- errors: recorded, then thrown
enum Kind { NONE, NOT_INIT, NO_OVERRIDER, AMBIGUOUS, MISSING_CLASS, MISSING_BASE, ODR, FINAL, SEARCH };
struct Err { int kind; const void* registry; type_id method; size_t arity; type_id types[16]; type_id a, b; };
#ifndef CFG_TLS
#define CFG_TLS
#endif
inline CFG_TLS Err last; inline CFG_TLS int nerr; inline bool errReturns;
struct Thrown {};
inline void (*on_error)();
template<class R> struct RegTag { static inline char tag; }; // the registry an error was reported in
template<class R> void raised(int k) { nerr++; last.kind = k; last.registry = &RegTag<R>::tag; if (on_error) on_error(); if (errReturns) return; throw Thrown(); }
struct rec_errors : pol::error_handler {
    template<class R> struct fn {
        static void call(const om::bad_call& e) { last = Err(); last.method = e.method; last.arity = e.arity; for (size_t i = 0; i < e.arity && i < 16; i++) last.types[i] = e.types[i]; }
        static void error(const om::no_overrider& e) { call(e); raised<R>(NO_OVERRIDER); }
        static void error(const om::ambiguous_call& e) { call(e); raised<R>(AMBIGUOUS); }
        static void error(const om::not_initialized&) { last = Err(); raised<R>(NOT_INIT); }
        static void error(const om::missing_class& e) { last = Err(); last.a = e.type; raised<R>(MISSING_CLASS); }
        static void error(const om::missing_base& e) { last = Err(); last.a = e.base; last.b = e.derived; raised<R>(MISSING_BASE); }
        static void error(const om::odr_violation&) { last = Err(); raised<R>(ODR); }
        static void error(const om::final_error& e) { last = Err(); last.a = e.static_type; last.b = e.dynamic_type; raised<R>(FINAL); }
        static void error(const pol::fast_perfect_hash::search_error& e) { last = Err(); last.arity = e.attempts; last.a = (type_id)e.buckets; raised<R>(SEARCH); }
    };
};
// runs f; the kind of the error it raised, or NONE
template<class F> int attempt(F f) { try { f(); } catch (Thrown&) { return last.kind; } return NONE; }

using reg_vec = om::registry<sym_rtti, pol::vptr_vector, rec_errors>;
using reg_vec_rc = om::registry<sym_rtti, pol::vptr_vector, rec_errors, pol::runtime_checks>;
using reg_map = om::registry<sym_rtti, pol::vptr_map<>, rec_errors>;
using reg_map_rc = om::registry<sym_rtti, pol::vptr_map<>, rec_errors, pol::runtime_checks>;
using reg_hash = om::registry<sym_rtti, pol::vptr_vector, pol::fast_perfect_hash, rec_errors>;
using reg_hash_none = om::registry<sym_rtti, pol::vptr_vector, pol::fast_perfect_hash>; // no error handler
using reg_hash_rc = om::registry<sym_rtti, pol::vptr_vector, pol::fast_perfect_hash, rec_errors, pol::runtime_checks>;
using reg_ivec_rc = om::registry<sym_rtti, pol::vptr_vector, pol::indirect_vptr, rec_errors, pol::runtime_checks>;
using reg_imap_rc = om::registry<sym_rtti, pol::vptr_map<>, pol::indirect_vptr, rec_errors, pol::runtime_checks>;
using reg_ihash_rc = om::registry<sym_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr, rec_errors, pol::runtime_checks>;
using reg_ihash = om::registry<sym_rtti, pol::vptr_vector, pol::fast_perfect_hash, pol::indirect_vptr, rec_errors>;
template<class K, class V> using ord_map = std::map<K, V>;
using reg_omap_rc = om::registry<sym_rtti, pol::vptr_map<boost::mp11::mp_quote<ord_map>>, rec_errors, pol::runtime_checks>;
using reg_ivec = om::registry<sym_rtti, pol::vptr_vector, pol::indirect_vptr, rec_errors>;
using reg_imap = om::registry<sym_rtti, pol::vptr_map<>, pol::indirect_vptr, rec_errors>;

// ---- inheritance
#ifndef CFG_MAXN
#define CFG_MAXN 8
#define CFG_MAXK 4
#define CFG_MAXP 3
#endif
constexpr int MAXN = CFG_MAXN, MAXK = CFG_MAXK, MAXP = CFG_MAXP;
struct Graph {
    int n = 0;
    bool listed[MAXN][MAXN] = {}, is[MAXN][MAXN] = {}; // is[i][j]: i is j or derives from j
    void start(int m) { n = m; for (int i = 0; i < n; i++) is[i][i] = true; }
    void edge(int i, int j) {
        listed[i][j] = true;
        for (int x = 0; x < n; x++) if (is[x][i]) for (int y = 0; y < n; y++) if (is[j][y]) is[x][y] = true;
    }
    bool strict(int i, int j) const { return i != j && is[i][j]; }
};
inline const char* nm(const char* p, int a, int b = -1) {
    static char buf[64][24]; static int k; char* o = buf[k++ & 63], *s = o;
    while (*p) *s++ = *p++;
    if (a >= 10) *s++ = '0' + a / 10; *s++ = '0' + a % 10;
    if (b >= 0) { *s++ = '_'; if (b >= 10) *s++ = '0' + b / 10; *s++ = '0' + b % 10; }
    *s = 0; return o;
}
// every labelled directed acyclic graph: labels are the registration order
inline void any_graph(Graph& g, int n) {
    g.start(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++)
        if (i != j && !g.is[j][i] && sym_flag(nm("base", i, j))) g.edge(i, j);
}
// every graph whose bases are registered before their derived classes (all shapes, one order)
inline void ordered_graph(Graph& g, int n) {
    g.start(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++)
        if (sym_flag(nm("base", i, j))) g.edge(i, j);
}
// one shape: edge (i, j), j < i, is bit i(i-1)/2+j; everything derives from class 0
inline void fixed_graph(Graph& g, int n, uint64_t edges) {
    g.start(n); for (int i = 1; i < n; i++) g.edge(i, 0);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (edges >> (i * (i - 1) / 2 + j) & 1) g.edge(i, j);
}
// a choice among the classes deriving from (or equal to) root
inline int pick_desc(const Graph& g, const char* name, int root) {
    int d[MAXN], m = 0; for (int i = 0; i < g.n; i++) if (g.is[i][root]) d[m++] = i;
    return d[sym_pick(name, m)];
}
// ---- class registrations
struct ClassSlot { om::detail::class_info ci; type_id bases[MAXN + 1]; };
template<class Reg> struct Classes {
    static inline ClassSlot slot[2 * MAXN];
    static inline om::vptr_type svp[MAXN];
    static inline int used;
    // registers class c (by type id) listing the bases in mask, itself included as the library does
    static om::detail::class_info& add(int c, unsigned mask, int alias = 0, bool abstract_ = false) {
        auto& s = slot[used++]; int m = 0;
        s.bases[m++] = id_of(c);
        for (int j = 0; j < MAXN; j++) if (mask >> j & 1) s.bases[m++] = id_of(j);
        s.ci.type = alias ? other_id(c, alias) : id_of(c); s.ci.static_vptr = &svp[c];
        s.ci.first_base = s.bases; s.ci.last_base = s.bases + m; s.ci.is_abstract = abstract_;
        Reg::classes.push_back(s.ci);
        return s.ci;
    }
    static void add(const Graph& g) {
        for (int i = 0; i < g.n; i++) { unsigned m = 0; for (int j = 0; j < g.n; j++) if (g.listed[i][j]) m |= 1u << j; add(i, m); }
    }
};
// ---- methods
// the virtual parameters of a method and of its overriders, as classes of the graph
struct Spec {
    int np = 1, k = 0; int root[MAXP] = {}; int ov[MAXK][MAXP] = {}; bool removed[MAXK] = {}; int ret[MAXK] = {};
    bool applicable(const Graph& g, int o, const int* c) const { if (removed[o]) return false; for (int p = 0; p < np; p++) if (!g.is[c[p]][ov[o][p]]) return false; return true; }
    // overload resolution: no parameter worse, one better
    bool better(const Graph& g, int a, int b) const {
        bool r = false;
        for (int p = 0; p < np; p++) { if (g.strict(ov[b][p], ov[a][p])) return false; if (g.strict(ov[a][p], ov[b][p])) r = true; }
        return r;
    }
    // less specialized: accepts everything b accepts, and more
    bool wider(const Graph& g, int a, int b) const { bool d = false; for (int p = 0; p < np; p++) { if (!g.is[ov[b][p]][ov[a][p]]) return false; if (ov[a][p] != ov[b][p]) d = true; } return d; }
    int best(const Graph& g, const bool* cand) const { // overrider, -1 none, -2 ambiguous
        int cnt = 0, pick = -2;
        for (int o = 0; o < k; o++) if (cand[o]) {
            cnt++; bool all = true; for (int q = 0; q < k; q++) if (cand[q] && q != o && !better(g, o, q)) all = false;
            if (all) pick = o;
        }
        return cnt ? pick : -1;
    }
    int call(const Graph& g, const int* c) const { bool cand[MAXK] = {}; for (int o = 0; o < k; o++) cand[o] = applicable(g, o, c); return best(g, cand); }
    int next(const Graph& g, int o) const { bool cand[MAXK] = {}; for (int q = 0; q < k; q++) cand[q] = !removed[q] && q != o && wider(g, q, o); return best(g, cand); }
    bool unique(int o) const { for (int q = 0; q < k; q++) if (q != o && !removed[q]) { bool same = true; for (int p = 0; p < np; p++) if (ov[q][p] != ov[o][p]) same = false; if (same) return false; } return !removed[o]; }
};
inline CFG_TLS int ran; // calls of overriders
inline CFG_TLS int hit; // method tag * 16 + overrider, of the last one that ran
// The shapes of methods. M<Tag, Reg>::m is the method; call(...) calls it; k-th overrider returns k.
template<class M, int K> struct Ov;
#define OM_SHAPE(NAME, NP, PARAMS, OVPARAMS, CALLP, CALLA)                                              \
    template<class Reg, int T> struct NAME {                                                            \
        static constexpr int np = NP; using registry = Reg;                                             \
        struct Id {}; using m = om::method<Id, int PARAMS, Reg>;                                        \
        template<int K> static int ov OVPARAMS { ran++; hit = T * 16 + K; return K; }                                     \
        static int invoke(const int* c) { int r; Obj o[MAXP]; for (int i = 0; i < NP; i++) o[i].type = id_of(c[i]); return m::fn CALLA; } \
        static int invoke(Obj* o) { return m::fn CALLA; }                                               \
        template<int K> static int next(Obj* o) { return m::template next<ov<K>> CALLA; }               \
        template<int K> static bool has_next() { return m::template has_next<ov<K>>(); }                \
        template<int K> using aux = typename m::template override_aux<&ov<K>, decltype(&ov<K>)>;        \
        template<int K> static om::detail::overrider_info& info() { return aux<K>::impl; }             \
    };
OM_SHAPE(Uni, 1, (virtual_<Obj&>), (Obj&), , (o[0]))
OM_SHAPE(Uni2, 1, (int, virtual_<Obj&>, char), (int, Obj&, char), , (1, o[0], 'x'))
OM_SHAPE(Bi, 2, (virtual_<Obj&>, virtual_<Obj&>), (Obj&, Obj&), , (o[0], o[1]))
OM_SHAPE(BiMid, 2, (virtual_<Obj&>, int, virtual_<Obj&>), (Obj&, int, Obj&), , (o[0], 5, o[1]))
OM_SHAPE(Tri, 3, (virtual_<Obj&>, virtual_<Obj&>, virtual_<Obj&>), (Obj&, Obj&, Obj&), , (o[0], o[1], o[2]))
OM_SHAPE(TriMid, 3, (virtual_<Obj&>, int, virtual_<Obj&>, int, int, virtual_<Obj&>, int), (Obj&, int, Obj&, int, int, Obj&, int), , (o[0], 5, o[1], 6, 7, o[2], 8))
// overriders are instantiated (and registered) by naming their registration objects
template<class S, int... K> void use_overriders_(std::integer_sequence<int, K...>) { (void)std::initializer_list<const void*>{&S::template info<K>()...}; }
template<class S, int N> struct Overriders { // registers N overriders of shape S statically
    static void touch() { use_overriders_<S>(std::make_integer_sequence<int, N>()); }
    template<int... K> static om::detail::overrider_info* at(int k, std::integer_sequence<int, K...>) { om::detail::overrider_info* t[] = {&S::template info<K>()...}; return t[k]; }
    static om::detail::overrider_info& info(int k) { return *at(k, std::make_integer_sequence<int, N>()); }
    template<int... K> static int nxt(int k, Obj* o, std::integer_sequence<int, K...>) { int (*t[])(Obj*) = {&S::template next<K>...}; return t[k](o); }
    static int next(int k, Obj* o) { return nxt(k, o, std::make_integer_sequence<int, N>()); }
    template<int... K> static bool hn(int k, std::integer_sequence<int, K...>) { bool (*t[])() = {&S::template has_next<K>...}; return t[k](); }
    static bool has_next(int k) { return hn(k, std::make_integer_sequence<int, N>()); }
    // sets the virtual parameters of the method and of its overriders to the classes of spec, keeping
    // only the first spec.k overriders
    static void define(const Spec& s) {
        auto& m = S::m::fn;
        for (int p = 0; p < S::np; p++) m.vp_begin[p] = id_of(s.root[p]);
        for (int k = 0; k < N; k++) {
            auto& o = info(k);
            for (int p = 0; p < S::np; p++) o.vp_begin[p] = id_of(s.ov[k][p]);
            if (k >= s.k || s.removed[k]) m.overriders.remove(o);
        }
    }
    static void drop() { // the method itself is not part of this program
        S::registry::methods.remove(S::m::fn);
    }
};
inline int outcome_of(int kind) { return kind == NO_OVERRIDER ? -1 : kind == AMBIGUOUS ? -2 : -100 - kind; }
template<class S> int outcome(Obj* o) { try { return S::invoke(o); } catch (Thrown&) { return outcome_of(last.kind); } }
template<class S, int N> int next_outcome(int k, Obj* o) { try { return Overriders<S, N>::next(k, o); } catch (Thrown&) { return outcome_of(last.kind); } }

inline void any_spec(Spec& s, const Graph& g, int np, int k, const char* tag, bool fewer = true) {
    s.np = np;
    for (int p = 0; p < np; p++) s.root[p] = (int)sym_pick(nm(tag, p), g.n);
    s.k = fewer ? k - (int)sym_pick(nm(tag, 90), k + 1) : k;
    for (int o = 0; o < s.k; o++) for (int p = 0; p < np; p++) s.ov[o][p] = pick_desc(g, nm(tag, 10 + o, p), s.root[p]);
}
inline void rooted_spec(Spec& s, const Graph& g, int np, int k, int root) {
    s.np = np; s.k = k; for (int p = 0; p < np; p++) s.root[p] = root;
    for (int o = 0; o < k; o++) for (int p = 0; p < np; p++) s.ov[o][p] = pick_desc(g, nm("ov", o, p), root);
}
// a symbolic tuple of argument classes: left to the solver
struct Args { uint64_t c[MAXP]; Obj o[MAXP]; };
inline void any_args(Args& a, const Graph& g, const Spec& s, const char* tag) {
    for (int p = 0; p < s.np; p++) {
        uint8_t okc[MAXN] = {}; for (int i = 0; i < g.n; i++) okc[i] = g.is[i][s.root[p]];
        a.c[p] = sym_u64(nm(tag, p), 0, g.n - 1); sym_assume(okc[a.c[p]]);
        a.o[p].type = (type_id)(uintptr_t)(a.c[p] + 1);
    }
}
// what every tuple of classes should run
struct Table { int8_t t[MAXN * MAXN * MAXN]; }; // index: three bits per parameter
inline void expected(Table& e, const Graph& g, const Spec& s) {
    int c[MAXP], tot = s.np == 1 ? 8 : s.np == 2 ? 64 : 512;
    for (int x = 0; x < tot; x++) {
        c[0] = x & 7; c[1] = x >> 3 & 7; c[2] = x >> 6; bool ok = true;
        for (int p = 0; p < s.np; p++) if (c[p] >= g.n || !g.is[c[p]][s.root[p]]) ok = false;
        e.t[x] = ok ? s.call(g, c) : -9;
    }
}
inline int look(const Table& e, const Spec& s, const Args& a) {
    uint64_t x = a.c[0]; if (s.np > 1) x |= a.c[1] << 3; if (s.np > 2) x |= a.c[2] << 6; return e.t[x];
}
