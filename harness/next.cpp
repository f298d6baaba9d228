// C02: next runs the best of the overriders that accept everything the current one accepts, and more.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
extern "C" void sym_main() {
    Graph g;
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#elif defined(CFG_ORDERED)
    ordered_graph(g, CFG_N);
#else
    any_graph(g, CFG_N);
#endif
    Spec s;
#ifdef CFG_ROOT
    rooted_spec(s, g, S::np, CFG_K, CFG_ROOT);
#else
    any_spec(s, g, S::np, CFG_K, "m");
#endif
    Classes<CFG_REG>::add(g); O::define(s);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    // the overrider running: any that a call can run
    if (!s.k) sym_done();
    int cur = (int)sym_pick("cur", s.k); sym_assume(s.unique(cur));
    int want = s.next(g, cur);
    sym_assert(O::has_next(cur) == (want >= 0), "has_next is true exactly when next would run an overrider");
    // any arguments the current overrider may be called with
    Args a;
    for (int p = 0; p < s.np; p++) {
        uint8_t okc[MAXN] = {}; for (int i = 0; i < g.n; i++) okc[i] = g.is[i][s.ov[cur][p]];
        a.c[p] = sym_u64(nm("arg", p), 0, g.n - 1); sym_assume(okc[a.c[p]]); a.o[p].type = (type_id)(uintptr_t)(a.c[p] + 1);
    }
    nerr = ran = 0;
    int got = next_outcome<S, CFG_K>(cur, a.o);
    sym_assert(got == want, "next runs the best of the less specialized overriders");
    if (want >= 0) { sym_assert(ran == 1 && nerr == 0, "next runs one overrider"); sym_reach("next"); } else { sym_assert(ran == 0 && nerr == 1, "next reports one error"); if (want == -1) sym_reach("none"); else sym_reach("ambiguous"); }
    sym_log("next", (uint64_t)(int64_t)got);
}
