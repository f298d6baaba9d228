// C29: user-written policies are given every class and every option, and decide.
#include "world.hpp"
#include <boost/openmethod/policies/default_error_handler.hpp>
namespace {
struct OptA { int v; }; struct OptB { uint64_t x; const void* p; OptB(uint64_t a, const void* b) : x(a), p(b) {} }; struct OptC { uint64_t* count; OptC(uint64_t* c) : count(c) {} OptC(const OptC& o) : count(o.count) { ++*count; } };
template<class T, class... O> constexpr bool given = (std::is_same_v<T, O> || ...);
// what a policy saw
struct Options { int n = -1; int a = -1; uint64_t b = 0; const void* p = nullptr; bool n2216 = false, traced = false, c = false; };
template<class... O> Options read(const std::tuple<O...>& t) {
    Options r; r.n = sizeof...(O);
    if constexpr (given<OptA, O...>) r.a = std::get<OptA>(t).v; if constexpr (given<OptB, O...>) { r.b = std::get<OptB>(t).x; r.p = std::get<OptB>(t).p; } if constexpr (given<OptC, O...>) r.c = true;
    if constexpr (given<om::n2216, O...>) r.n2216 = true; if constexpr (given<om::trace, O...>) r.traced = std::get<om::trace>(t).on; return r;
}
struct Entry { type_id type; const om::vptr_type* vptr; om::vptr_type value; int cls; };
struct Seen { Entry e[64]; int n, classes, initialized, finalized, lookups; Options init, fini; template<class C> void fill(const C& ctx) { n = classes = 0; for (auto c = ctx.classes_begin(); c != ctx.classes_end(); ++c) { for (auto t = c->type_id_begin(); t != c->type_id_end(); ++t) e[n++] = {*t, &c->vptr(), c->vptr(), classes}; classes++; } } int find(type_id t) const { for (int i = 0; i < n; i++) if (e[i].type == t) return i; return -1; } };
Seen vptr_saw, hash_saw; uint64_t perm[64]; int handled, hashed;
struct list_vptr : pol::vptr { // a list of v-table pointers
    template<class R> struct fn {
        template<class C, class... O> static void initialize(const C& ctx, const std::tuple<O...>& o) { vptr_saw.initialized++; vptr_saw.init = read(o); vptr_saw.fill(ctx); }
        template<class C> static const om::vptr_type& dynamic_vptr(const C& c) { vptr_saw.lookups++; type_id t = R::rtti::dynamic_type(c); int i = vptr_saw.find(t); if (i < 0) { om::missing_class e; e.type = t; R::error_handler::error(e); } return *vptr_saw.e[i].vptr; }
        template<class... O> static void finalize(const std::tuple<O...>& o) { vptr_saw.finalized++; vptr_saw.fini = read(o); vptr_saw.n = 0; }
    };
};
struct bare_vptr : pol::vptr { // without finalize
    template<class R> struct fn {
        template<class C, class... O> static void initialize(const C& ctx, const std::tuple<O...>& o) { list_vptr::fn<R>::initialize(ctx, o); }
        template<class C> static const om::vptr_type& dynamic_vptr(const C& c) { return list_vptr::fn<R>::dynamic_vptr(c); }
    };
};
struct list_hash : pol::type_hash { // any numbering of the type ids
    template<class R> struct fn {
        template<class C, class... O> static auto initialize(const C& ctx, const std::tuple<O...>& o) {
            hash_saw.initialized++; hash_saw.init = read(o); hash_saw.fill(ctx); size_t lo = ~0ull, hi = 0;
            for (int i = 0; i < hash_saw.n; i++) { size_t h = perm[i]; if (h < lo) lo = h; if (h > hi) hi = h; } return std::pair{lo, hi};
        }
        static size_t hash(type_id t) { hash_saw.lookups++; int i = hash_saw.find(t); sym_assert(i >= 0, "only registered type ids are hashed"); return perm[i]; }
        template<class... O> static void finalize(const std::tuple<O...>& o) { hash_saw.finalized++; hash_saw.fini = read(o); }
    };
};
struct Sink { size_t n = 0; bool good = true; Sink& operator<<(const char* s) { while (*s++) n++; return *this; } Sink& operator<<(const std::string_view& s) { n += s.size(); return *this; } Sink& operator<<(const void*) { n++; return *this; } Sink& operator<<(void (*)()) { n++; return *this; } Sink& operator<<(std::size_t) { n++; return *this; } };
struct sink_output : pol::output { template<class R> struct fn { static inline Sink os; }; };
#if CFG_KIND == 0
struct Reg : om::registry<sym_rtti, list_vptr, sink_output, rec_errors CFG_MORE> {}; Seen& saw = vptr_saw; constexpr bool finalizes = true;
#elif CFG_KIND == 1
struct Reg : om::registry<sym_rtti, bare_vptr, sink_output, rec_errors CFG_MORE> {}; Seen& saw = vptr_saw; constexpr bool finalizes = false;
#else
struct Reg : om::registry<sym_rtti, pol::vptr_vector, list_hash, sink_output, rec_errors CFG_MORE> {}; Seen& saw = hash_saw; constexpr bool finalizes = true;
#endif
using S = Uni<Reg, 0>; using O = Overriders<S, CFG_K>;
template<class F> int quiet(F f) { size_t before = Reg::output::os.n; int r = attempt(f); sym_assert(Reg::output::os.n == before, "nothing is written without trace"); return r; }
template<class... X> void check(Graph& g, const int* nal, Options want, bool traced, X&&... x) {
    int before = saw.initialized, fin = saw.finalized; size_t out = Reg::output::os.n;
    sym_assert(attempt([&] { om::initialize<Reg>(std::forward<X>(x)...); }) == NONE, "initialize succeeds on a complete program");
    sym_assert(saw.initialized == before + 1 && saw.finalized == fin, "the policy is initialized once");
    sym_assert((Reg::output::os.n != out) == traced, "the trace is written to the output policy, if it is on");
    sym_assert(saw.init.n == want.n && saw.init.a == want.a && saw.init.b == want.b && saw.init.p == want.p && saw.init.n2216 == want.n2216 && saw.init.traced == want.traced && saw.init.c == want.c, "the policy is given the options");
    // the classes
    sym_assert(saw.classes == CFG_N, "the policy is given each class once"); int of[CFG_N]; for (auto& x : of) x = -1;
    for (int c = 0; c < CFG_N; c++) for (int k = 0; k < 3; k++) if (k == 0 || (nal[c] >> k & 1)) { int i = saw.find(k ? other_id(c, k) : id_of(c)); sym_assert(i >= 0, "with each of its type ids"); if (of[c] < 0) of[c] = saw.e[i].cls; sym_assert(of[c] == saw.e[i].cls, "together"); }
    for (int i = 0; i < saw.n; i++) { uintptr_t t = (uintptr_t)saw.e[i].type - 1; int c = t & 15, k = t >> 4; sym_assert(c < CFG_N && k < 3 && (k == 0 || (nal[c] >> k & 1)), "and no other"); sym_assert(saw.e[i].vptr == &Classes<Reg>::svp[c] && saw.e[i].value == Classes<Reg>::svp[c] && saw.e[i].value, "and its v-table pointer"); }
}
template<class... X> void end(Options want, X&&... x) {
    int before = saw.finalized; om::finalize<Reg>(std::forward<X>(x)...); sym_assert(saw.finalized == before + finalizes, "the policy is finalized once, if it can be");
    if (finalizes) sym_assert(saw.fini.n == want.n && saw.fini.a == want.a && saw.fini.b == want.b && saw.fini.p == want.p && saw.fini.traced == want.traced, "the policy is given the options of finalize");
}
}
template void O::touch();
extern "C" void sym_main() {
    Graph g; any_graph(g, CFG_N); aliases = true; Spec s; any_spec(s, g, 1, CFG_K, "m"); Classes<Reg>::add(g); int nal[CFG_N] = {};
    uint64_t rot = sym_pick("numbering", 3); for (int i = 0; i < 64; i++) perm[i] = rot == 0 ? 5 + i : rot == 1 ? 63 - i : (i * 5) & 63;
    O::define(s); uint64_t v = sym_u64("option", 0, ~0ull); uint64_t copies = 0; Args a; Table e;
    for (int round = 0; round < CFG_ROUNDS; round++) {
        if (round == 1 || sym_flag("alias")) { int c = (int)sym_pick(nm("aliased", round), CFG_N), k = 1 + round; unsigned m = 0; for (int j = 0; j < g.n; j++) if (g.listed[c][j]) m |= 1u << j; Classes<Reg>::add(c, m, k); nal[c] |= 1 << k; }
        const OptA ca{3}; OptB b(v, &g); om::trace off(false);
        switch (sym_pick(nm("options", round), round ? 3 : 8)) {
        case 0: check(g, nal, Options{0}, false); break;
        case 1: check(g, nal, Options{1, 3}, false, ca); sym_reach("options"); break;
        case 2: check(g, nal, Options{3, 7, v, &g, false, true}, true, b, om::trace(), OptA{7}); sym_reach("traced"); break;
        case 3: check(g, nal, Options{3, 7, v, &g}, false, off, OptA{7}, b); break;
        case 4: check(g, nal, Options{2, -1, v, &g, true}, false, OptB(v, &g), om::n2216()); break;
        case 5: { const om::n2216 n; check(g, nal, Options{4, 3, v, &g, true, true}, true, n, ca, om::trace(true), b); break; }
        case 6: check(g, nal, Options{1, -1, 0, nullptr, false, false, true}, false, OptC(&copies)); sym_assert(copies < 20, "options are not copied without end"); break;
        default: check(g, nal, Options{1, -1, v, &g}, false, std::move(b)); }
        if (saw.init.n2216) { sym_reach("n2216"); }
        else { // calls
            expected(e, g, s); any_args(a, g, s, nm("arg", round)); uint64_t k = sym_u64(nm("id", round), 0, 2); uint8_t ok[CFG_N * 4] = {}; for (int c = 0; c < CFG_N; c++) for (int q = 0; q < 3; q++) ok[c * 4 + q] = q == 0 || (nal[c] >> q & 1);
            sym_assume(ok[a.c[0] * 4 + k]); a.o[0].type = (type_id)(uintptr_t)(a.c[0] + 1 + 16 * k); int want = look(e, s, a), got, lookups = saw.lookups;
            sym_assert(quiet([&] { got = outcome<S>(a.o); }) == NONE && got == want, "the call runs the expected overrider"); sym_assert(saw.lookups > lookups, "the v-table is found by the policy"); sym_reach(got >= 0 ? "ran" : "failed");
        }
        if (round == 0) switch (sym_pick("end", 4)) { case 0: sym_done(); case 1: end(Options{0}); sym_reach("finalized"); break; case 2: end(Options{3, 3, v, &g, false, false}, ca, OptB(v, &g), off); break; default: break; }
    }
    end(Options{1, 9}, OptA{9}); sym_reach("twice");
}
