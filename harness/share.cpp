// C04: methods sharing classes do not disturb each other; no v-table entry is shared.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S0 = CFG_S0<CFG_REG, 0>; using S1 = CFG_S1<CFG_REG, 1>; using S2 = CFG_S2<CFG_REG, 2>;
using O0 = Overriders<S0, CFG_K>; using O1 = Overriders<S1, CFG_K>; using O2 = Overriders<S2, CFG_K>;
template void O0::touch(); template void O1::touch(); template void O2::touch();
template<class S> void check(const Graph& g, const Spec& s, int tag, const char* name) {
    Table e; expected(e, g, s); Args a; any_args(a, g, s, name);
    int want = look(e, s, a); nerr = ran = 0; hit = -1;
    int got = outcome<S>(a.o);
    sym_assert(got == want, "each method runs its own overrider");
    if (got >= 0) sym_assert(ran == 1 && hit == tag * 16 + got, "the overrider belongs to the method called");
    else sym_assert(ran == 0 && nerr == 1 && last.method == sym_rtti::fn<CFG_REG>::static_type<typename S::m>(), "the error is that of the method called");
    if (got >= 0) sym_reach(name);
}
// the slot of a virtual parameter, if the method still keeps it where it does today
template<class M> auto slot_of(M& m, int p, int) -> decltype((long)m.slots_strides[p]) { return (long)m.slots_strides[p]; }
template<class M> long slot_of(M&, int, ...) { static long never = -1; return never--; }
template<class S, class T> void disjoint(const Graph& g, const Spec& s, const Spec& t) {
    auto& m = S::m::fn; auto& n = T::m::fn;
    for (int p = 0; p < S::np; p++) for (int q = 0; q < T::np; q++) {
        if ((void*)&m == (void*)&n && p == q) continue;
        bool common = false; for (int c = 0; c < g.n; c++) if (g.is[c][s.root[p]] && g.is[c][t.root[q]]) common = true;
        if (common) { sym_assert(slot_of(m, p, 0) != slot_of(n, q, 0), "two virtual parameters never share a v-table entry"); sym_reach("common"); }
    }
}
// The overriders: the first is on the classes of the method, the others anywhere below.
static void spec(Spec& s, const Graph& g, int np, const char* tag) {
    s.np = np; s.k = CFG_K;
    for (int p = 0; p < np; p++) { s.root[p] = (int)sym_pick(nm(tag, p), g.n); s.ov[0][p] = s.root[p]; }
    for (int o = 1; o < CFG_K; o++) for (int p = 0; p < np; p++) s.ov[o][p] = pick_desc(g, nm(tag, 10 + o, p), s.root[p]);
}
extern "C" void sym_main() {
    Graph g;
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#elif defined(CFG_ORDERED)
    ordered_graph(g, CFG_N);
#else
    any_graph(g, CFG_N);
#endif
    Spec s0, s1, s2; spec(s0, g, S0::np, "p"); spec(s1, g, S1::np, "q"); spec(s2, g, S2::np, "r");
#ifdef CFG_ORDER
    // methods registered in another order
    auto& list = CFG_REG::methods; om::detail::method_info* ms[] = {&S0::m::fn, &S1::m::fn, &S2::m::fn};
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    auto p = perm[sym_pick("order", 6)];
    for (auto m : ms) list.remove(*m);
    for (int i = 0; i < 3; i++) list.push_back(*ms[p[i]]);
#endif
    Classes<CFG_REG>::add(g); O0::define(s0); O1::define(s1); O2::define(s2);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    disjoint<S0, S0>(g, s0, s0); disjoint<S1, S1>(g, s1, s1); disjoint<S2, S2>(g, s2, s2);
    disjoint<S0, S1>(g, s0, s1); disjoint<S0, S2>(g, s0, s2); disjoint<S1, S2>(g, s1, s2);
    check<S0>(g, s0, 0, "a"); check<S1>(g, s1, 1, "b"); check<S2>(g, s2, 2, "c");
}
