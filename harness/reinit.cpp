// C06: after any sequence of registrations and un-registrations, initialize reflects the current ones.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S0 = CFG_SHAPE<CFG_REG, 0>; using S1 = Uni<CFG_REG, 1>;
using O0 = Overriders<S0, CFG_K>; using O1 = Overriders<S1, 1>;
template void O0::touch(); template void O1::touch();
static Graph g; static bool here[MAXN]; static bool ovHere[MAXK]; static bool m1Here;
static Spec s, s1;
template<class S, class O, int N> static void verify(const Graph& now, const Spec& sp, const char* name, bool nexts) {
    Table e; expected(e, now, sp); Args a; any_args(a, now, sp, name);
    int want = look(e, sp, a); nerr = ran = 0;
    int got = outcome<S>(a.o);
    sym_assert(got == want, "calls reflect the current registrations");
    sym_assert(got >= 0 ? ran == 1 && nerr == 0 : ran == 0 && nerr == 1, "one overrider runs, or one error is reported");
    sym_reach(got >= 0 ? "ran" : got == -1 ? "no_overrider" : "ambiguous");
    if (nexts) for (int k = 0; k < N; k++) if (k < sp.k && sp.unique(k)) {
        int w = sp.next(now, k); Obj o[MAXP]; for (int p = 0; p < S::np; p++) o[p].type = id_of(sp.ov[k][p]);
        sym_assert(O::has_next(k) == (w >= 0), "has_next reflects the current registrations");
        sym_assert((next_outcome<S, N>(k, o)) == w, "next reflects the current registrations");
        if (w >= 0) sym_reach("next");
    }
}
extern "C" void sym_main() {
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    // everything derives from class 0; any graph on the others
    g.start(CFG_N); for (int i = 1; i < CFG_N; i++) g.edge(i, 0);
    for (int i = 1; i < CFG_N; i++) for (int j = 1; j < CFG_N; j++) if (i != j && !g.is[j][i] && sym_flag(nm("base", i, j))) g.edge(i, j);
#endif
    s.np = S0::np; s.k = CFG_K; for (int o = 0; o < CFG_K; o++) for (int p = 0; p < s.np; p++) s.ov[o][p] = pick_desc(g, nm("ov", o, p), 0);
    s1.np = 1; s1.k = 1; s1.root[0] = CFG_N > 1; s1.ov[0][0] = s1.root[0];
    Classes<CFG_REG>::add(g); O0::define(s); O1::define(s1);
    auto& classes = CFG_REG::classes;
    for (int i = 0; i < CFG_N; i++) here[i] = true;
    for (int o = 0; o < CFG_K; o++) ovHere[o] = true;
    m1Here = true;
    for (int step = 0; step < CFG_STEPS; step++) {
        for (int i = 1; i < CFG_N; i++) {
            bool h = sym_flag(nm("class", step, i)); auto& ci = Classes<CFG_REG>::slot[i].ci;
            if (here[i] && !h) classes.remove(ci); if (!here[i] && h) classes.push_back(ci);
            here[i] = h;
        }
        for (int i = 0; i < CFG_N; i++) if (here[i]) for (int j = 0; j < CFG_N; j++) if (g.listed[i][j]) sym_assume(here[j]);
        for (int o = 0; o < CFG_K; o++) {
            bool h = true; for (int p = 0; p < s.np; p++) if (!here[s.ov[o][p]]) h = false;
            if (h) h = sym_flag(nm("overrider", step, o));
            auto& l = S0::m::fn.overriders;
            if (ovHere[o] && !h) l.remove(O0::info(o)); if (!ovHere[o] && h) l.push_back(O0::info(o));
            ovHere[o] = h; s.removed[o] = !h;
        }
        // the second method, in a library of its own: registered with its class
        bool h1 = here[s1.root[0]]; auto& ml = CFG_REG::methods;
        if (m1Here && !h1) ml.remove(S1::m::fn); if (!m1Here && h1) ml.push_back(S1::m::fn);
        m1Here = h1;
        Graph now = g; for (int i = 0; i < CFG_N; i++) for (int j = 0; j < CFG_N; j++) if (!here[i] || !here[j]) now.is[i][j] = false;
        sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
        if (step == CFG_STEPS - 1) { verify<S0, O0, CFG_K>(now, s, "a", true); if (m1Here) verify<S1, O1, 1>(now, s1, "b", false); }
        else if (CFG_STEPS == 2) { Obj o[MAXP]; for (int p = 0; p < s.np; p++) o[p].type = id_of(0); int c[MAXP] = {}; sym_assert(outcome<S0>(o) == s.call(now, c), "calls reflect the current registrations"); }
    }
}
