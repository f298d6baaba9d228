// C01: every call runs the overrider overload resolution picks.
#include "world.hpp"
#ifndef CFG_N
#define CFG_N 4
#endif
#ifndef CFG_K
#define CFG_K 3
#endif
#ifndef CFG_SHAPE
#define CFG_SHAPE Uni
#endif
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
extern "C" void sym_main() {
    Graph g;
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#elif defined(CFG_ORDERED)
    ordered_graph(g, CFG_N);
#else
    any_graph(g, CFG_N);
#endif
    Spec s;
#ifdef CFG_ROOT
    rooted_spec(s, g, S::np, CFG_K, CFG_ROOT);
#else
    any_spec(s, g, S::np, CFG_K, "m");
#endif
    Classes<CFG_REG>::add(g); O::define(s);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    Table e; expected(e, g, s);
    Args a; any_args(a, g, s, "arg");
    int want = look(e, s, a); nerr = 0; ran = 0;
    int got = outcome<S>(a.o);
    sym_assert(got == want, "the call runs the overrider overload resolution picks");
    if (got >= 0) { sym_assert(ran == 1 && nerr == 0, "exactly one overrider runs"); sym_reach("ran"); }
    else { sym_assert(ran == 0 && nerr == 1, "no overrider runs and one error is reported"); if (got == -1) sym_reach("no_overrider"); else sym_reach("ambiguous"); }
    sym_log("got", (uint64_t)(int64_t)got);
}
