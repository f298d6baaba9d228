// C05: the same program registered in two ways behaves in the same way.
// Registry A: every class once, with all its bases. Registry B: CFG_T lists of classes (as use_classes gets them),
// each class with the bases that are in the same list; overriders in another order.
#include "world.hpp"
using RA = reg_vec; using RB = reg_map;
using SA = CFG_SHAPE<RA, 0>; using SB = CFG_SHAPE<RB, 1>;
using OA = Overriders<SA, CFG_K>; using OB = Overriders<SB, CFG_K>;
template void OA::touch(); template void OB::touch();
// every partial order on n classes, once: the graph is its own transitive reduction
static void any_order(Graph& g, int n) {
    any_graph(g, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.listed[i][j])
        for (int k = 0; k < n; k++) if (k != i && k != j) sym_assume(!(g.is[i][k] && g.is[k][j]));
}
extern "C" void sym_main() {
    Graph g; any_order(g, CFG_N);
    unsigned tu[CFG_T]; bool rev[CFG_T];
    for (int t = 0; t < CFG_T; t++) { tu[t] = (unsigned)sym_pick(nm("tu", t), 1u << CFG_N); rev[t] = t > 0 && sym_flag(nm("rev", t)); }
    for (int i = 0; i < CFG_N; i++) {
        bool in = false; for (int t = 0; t < CFG_T; t++) if (tu[t] >> i & 1) in = true; sym_assume(in);
        for (int j = 0; j < CFG_N; j++) if (g.listed[i][j]) { bool both = false; for (int t = 0; t < CFG_T; t++) if ((tu[t] >> i & 1) && (tu[t] >> j & 1)) both = true; sym_assume(both); }
    }
    Spec s;
#ifdef CFG_ROOTED
    s.np = SA::np; s.k = CFG_K; // the method is on class CFG_ROOTED-1 in every position
    for (int p = 0; p < s.np; p++) { s.root[p] = CFG_ROOTED - 1; for (int o = 0; o < CFG_K; o++) s.ov[o][p] = pick_desc(g, nm("ov", o, p), s.root[p]); }
#else
    any_spec(s, g, SA::np, CFG_K, "m", false);
#endif
    for (int i = 0; i < CFG_N; i++) { unsigned m = 0; for (int j = 0; j < CFG_N; j++) if (g.strict(i, j)) m |= 1u << j; Classes<RA>::add(i, m); }
    for (int t = 0; t < CFG_T; t++) for (int x = 0; x < CFG_N; x++) {
        int i = rev[t] ? CFG_N - 1 - x : x; unsigned m = 0; if (!(tu[t] >> i & 1)) continue;
        for (int j = 0; j < CFG_N; j++) if (g.strict(i, j) && (tu[t] >> j & 1)) m |= 1u << j;
        Classes<RB>::add(i, m);
    }
    OA::define(s); OB::define(s);
#if CFG_K == 2
    if (sym_flag("swap")) { auto& l = SB::m::fn.overriders; l.remove(OB::info(0)); l.push_back(OB::info(0)); }
#elif CFG_K == 3
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; auto p = perm[sym_pick("perm", 6)];
    { auto& l = SB::m::fn.overriders; for (int o = 0; o < 3; o++) l.remove(OB::info(o)); for (int o = 0; o < 3; o++) l.push_back(OB::info(p[o])); }
#endif
    size_t ra[3], rb[3];
    int ka = attempt([&] { auto c = om::initialize<RA>(); ra[0] = c.report.cells; ra[1] = c.report.not_implemented; ra[2] = c.report.ambiguous; });
    int kb = attempt([&] { auto c = om::initialize<RB>(); rb[0] = c.report.cells; rb[1] = c.report.not_implemented; rb[2] = c.report.ambiguous; });
    sym_assert(ka == NONE && kb == NONE, "initialize succeeds on a complete program");
    sym_assert(ra[0] == rb[0] && ra[1] == rb[1] && ra[2] == rb[2], "the report does not depend on the registration");
    Table e; expected(e, g, s); Args a; any_args(a, g, s, "arg");
    int want = look(e, s, a);
    int ga = outcome<SA>(a.o), gb = outcome<SB>(a.o);
    sym_assert(ga == want, "the call runs the expected overrider (complete registration)");
    sym_assert(gb == want, "the call runs the expected overrider (incremental registration)");
    sym_reach(want >= 0 ? "ran" : want == -1 ? "no_overrider" : "ambiguous");
    for (int k = 0; k < CFG_K; k++) if (s.unique(k)) {
        int w = s.next(g, k); Obj o[MAXP]; for (int p = 0; p < SA::np; p++) o[p].type = id_of(s.ov[k][p]);
        sym_assert((next_outcome<SA, CFG_K>(k, o)) == w && (next_outcome<SB, CFG_K>(k, o)) == w, "next does not depend on the registration");
        if (w >= 0) sym_reach("next");
    }
}
