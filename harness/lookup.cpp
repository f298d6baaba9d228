// C09: every policy finds the class's own v-table, from each of its type ids.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S0 = CFG_SHAPE<CFG_REG, 0>;
using O0 = Overriders<S0, CFG_K>;
template void O0::touch();
// a method that takes virtual_ptrs
struct IdV; using MV = om::method<IdV, int(om::virtual_ptr<Obj, CFG_REG>, int), CFG_REG>;
static int ov0(om::virtual_ptr<Obj, CFG_REG>, int) { return 100; } static int ov1(om::virtual_ptr<Obj, CFG_REG>, int) { return 101; }
static MV::override<ov0, ov1> regV;
extern "C" void sym_main() {
    Graph g; 
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    any_graph(g, CFG_N);
#endif
    aliases = CFG_ALIASES > 1;
    Spec s; any_spec(s, g, S0::np, CFG_K, "m", false);
    Classes<CFG_REG>::add(g);
    // other type ids of the same classes
    int nal[MAXN] = {};
    for (int c = 0; c < CFG_N; c++) for (int k = 1; k < CFG_ALIASES; k++) if (sym_flag(nm("alias", c, k))) { unsigned m = 0; for (int j = 0; j < g.n; j++) if (g.listed[c][j]) m |= 1u << j; Classes<CFG_REG>::add(c, m, k); if (c % 2 == 0) Classes<CFG_REG>::add(c, m); nal[c] |= 1 << k; } // the first again, for some
    O0::define(s);
    // the virtual_ptr method: on class 0, overridden for class v
    int v = pick_desc(g, "v", 0);
    auto& mv = MV::fn; mv.vp_begin[0] = id_of(0);
    MV::override_aux<&ov0, decltype(&ov0)>::impl.vp_begin[0] = id_of(0); MV::override_aux<&ov1, decltype(&ov1)>::impl.vp_begin[0] = id_of(v);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    Table e; expected(e, g, s); Args a; any_args(a, g, s, "arg");
    // any of its type ids
    for (int p = 0; p < s.np; p++) {
        uint64_t k = sym_u64(nm("id", p), 0, CFG_ALIASES - 1);
        uint8_t ok[MAXN * 4] = {}; for (int c = 0; c < CFG_N; c++) for (int q = 0; q < CFG_ALIASES; q++) ok[c * 4 + q] = q == 0 || (nal[c] >> q & 1);
        sym_assume(ok[a.c[p] * 4 + k]); a.o[p].type = (type_id)(uintptr_t)(a.c[p] + 1 + 16 * k);
    }
    int want = look(e, s, a); nerr = ran = 0;
    int got = outcome<S0>(a.o);
    sym_assert(got == want, "the call runs the expected overrider, whatever the policy");
    sym_reach(got >= 0 ? "ran" : got == -1 ? "no_overrider" : "ambiguous");
    int c = (int)sym_concretize(a.c[0]);
    om::virtual_ptr<Obj, CFG_REG> vp(a.o[0]);
    sym_assert(vp.get() == &a.o[0] && vp.vptr() == Classes<CFG_REG>::svp[c], "a virtual_ptr has the v-table of the class of its object");
    if (g.is[c][0]) {
        int w = g.is[c][v] ? v == 0 ? -2 : 101 : 100, r;
        try { r = MV::fn(vp, 1); } catch (Thrown&) { r = outcome_of(last.kind); }
        sym_assert(r == w, "a call through a virtual_ptr runs the expected overrider"); sym_reach("virtual_ptr");
    }
}
