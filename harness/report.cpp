// C11: the report counts cells and gaps exactly.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S0 = CFG_S0<CFG_REG, 0>; using S1 = CFG_S1<CFG_REG, 1>;
using O0 = Overriders<S0, CFG_K0>; using O1 = Overriders<S1, CFG_K1>;
template void O0::touch(); template void O1::touch();
struct Count { size_t cells = 0, missing = 0, ambiguous = 0; };
static void count(const Graph& g, const Spec& s, Count& n) {
    Table e; expected(e, g, s); bool miss = false, amb = false;
    int tot = s.np == 1 ? 8 : s.np == 2 ? 64 : 512;
    for (int x = 0; x < tot; x++) { if (e.t[x] == -1) miss = true; if (e.t[x] == -2) amb = true; }
    n.missing += miss; n.ambiguous += amb;
    if (s.np == 1) return;
    size_t cells = 1;
    for (int p = 0; p < s.np; p++) { // classes that no overrider tells apart share their cells
        int masks[MAXN], m = 0;
        for (int c = 0; c < g.n; c++) if (g.is[c][s.root[p]]) {
            int mask = 0; for (int o = 0; o < s.k; o++) if (g.is[c][s.ov[o][p]]) mask |= 1 << o;
            bool seen = false; for (int i = 0; i < m; i++) if (masks[i] == mask) seen = true;
            if (!seen) masks[m++] = mask;
        }
        cells *= m;
    }
    n.cells += cells;
}
extern "C" void sym_main() {
    Graph g; 
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    any_graph(g, CFG_N);
#endif
    Spec s0, s1; any_spec(s0, g, S0::np, CFG_K0, "m"); 
#ifdef CFG_FIXED1
    s1.np = S1::np; s1.k = 1; // on the first class, overridden for the last
    if (!g.is[g.n - 1][0]) for (int p = 0; p < s1.np; p++) s1.root[p] = g.n - 1;
    for (int p = 0; p < s1.np; p++) s1.ov[0][p] = g.n - 1;
#else
    any_spec(s1, g, S1::np, CFG_K1, "n");
#endif
    unsigned abstracts = (unsigned)sym_pick("abstract", CFG_ABSTRACT);
    for (int i = 0; i < g.n; i++) { unsigned m = 0; for (int j = 0; j < g.n; j++) if (g.listed[i][j]) m |= 1u << j; Classes<CFG_REG>::add(i, m, 0, abstracts >> i & 1); }
    O0::define(s0); O1::define(s1);
    size_t r[3]; Count n; count(g, s0, n); count(g, s1, n);
    sym_assert(attempt([&] { auto c = om::initialize<CFG_REG>(); r[0] = c.report.cells; r[1] = c.report.not_implemented; r[2] = c.report.ambiguous; }) == NONE, "initialize succeeds on a complete program");
    sym_assert(r[0] == n.cells, "cells is the number of cells of the dispatch tables of the multi-methods");
    sym_assert(r[1] == n.missing, "not_implemented is the number of methods with a tuple that has no applicable overrider");
    sym_assert(r[2] == n.ambiguous, "ambiguous is the number of methods with an ambiguous tuple");
    if (!r[1] && !r[2]) {
        Args a; any_args(a, g, s0, "arg"); sym_assert(outcome<S0>(a.o) >= 0, "a report without gaps means that no call fails");
        Args b; any_args(b, g, s1, "brg"); sym_assert(outcome<S1>(b.o) >= 0, "a report without gaps means that no call fails");
        sym_reach("complete");
    } else sym_reach("gaps");
    if (r[1] == 2) sym_reach("two");
    sym_log("cells", r[0]); sym_log("missing", r[1]); sym_log("ambiguous", r[2]);
}
