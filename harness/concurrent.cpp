// C30: once initialized, calls and virtual_ptr operations write nothing that other threads can see.
#define CFG_TLS __thread
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
using VP = om::virtual_ptr<Obj, CFG_REG>;
struct IdV; using MV = om::method<IdV, int(VP, int), CFG_REG>;
static int ov0(VP, int) { ran++; return 100; } static int ov1(VP, int i) { ran++; return 101; }
static MV::override<ov0, ov1> regV;
struct Res { int call, next, has, vcall, fcall, nerr; om::vptr_type vp; };
static __thread Res R;
static int vcall(const VP& p) { try { return MV::fn(p, 1); } catch (Thrown&) { return outcome_of(last.kind); } }
// what a thread does
__attribute__((noinline)) static void one(const Obj* arg, const Obj* narg, int cur, bool stranger, bool conv) {
    Obj o[MAXP], n[MAXP]; for (int p = 0; p < MAXP; p++) { o[p] = arg[p]; n[p] = narg[p]; }
    R.call = outcome<S>(o);
    if (cur >= 0) { R.has = O::has_next(cur); R.next = next_outcome<S, CFG_K>(cur, n); }
    VP p(o[0]), q(p), r(n[0]); r = q; R.vp = r.vptr(); if (conv) R.vcall = vcall(r);
    R.nerr = nerr;
    if (stranger) { Obj x{id_of(14)}; R.fcall = outcome<S>(&x); }
}
__attribute__((noinline)) static void thread(const Obj* a, const Obj* n, int cur, bool stranger, bool conv) {
    sym_freeze(1); one(a, n, cur, stranger, conv); sym_freeze(0);
}
extern "C" void sym_main() {
    Graph g;
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    any_graph(g, CFG_N);
#endif
    Spec s; any_spec(s, g, S::np, CFG_K, "m");
    Classes<CFG_REG>::add(g); O::define(s);
    auto& mv = MV::fn; int v = pick_desc(g, "v", 0); mv.vp_begin[0] = id_of(0);
    MV::override_aux<&ov0, decltype(&ov0)>::impl.vp_begin[0] = id_of(0); MV::override_aux<&ov1, decltype(&ov1)>::impl.vp_begin[0] = id_of(v);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    Table e; expected(e, g, s); Args a; any_args(a, g, s, "arg");
    int cur = s.k ? (int)sym_pick("cur", s.k) : -1; if (cur >= 0 && !s.unique(cur)) cur = -1;
    Args b = a;
    if (cur >= 0) for (int p = 0; p < s.np; p++) {
        uint8_t okc[MAXN] = {}; for (int i = 0; i < g.n; i++) okc[i] = g.is[i][s.ov[cur][p]];
        b.c[p] = sym_u64(nm("narg", p), 0, g.n - 1); sym_assume(okc[b.c[p]]); b.o[p].type = (type_id)(uintptr_t)(b.c[p] + 1);
    }
    bool checks = CFG_REG::has_runtime_checks && s.np == 1;
    int want = look(e, s, a);
    int c = (int)sym_concretize(a.c[0]);
    nerr = ran = 0;
#ifdef CFG_WARM // not the first time
    one(a.o, b.o, cur, checks, g.is[c][0]); nerr = ran = 0;
#endif
    thread(a.o, b.o, cur, checks, g.is[c][0]);
    sym_assert(R.call == want, "the call runs the expected overrider");
    if (cur >= 0) { int w = s.next(g, cur); sym_assert(R.next == w && R.has == (w >= 0), "next runs the expected overrider"); sym_reach("next"); }
    sym_assert(R.vp == Classes<CFG_REG>::svp[c] , "a virtual_ptr has the v-table of the class of its object");
    if (g.is[c][0]) { sym_assert(R.vcall == (g.is[c][v] ? v == 0 ? -2 : 101 : 100), "a call through a virtual_ptr runs the expected overrider"); sym_reach("virtual_ptr"); }
    if (checks) { sym_assert(R.fcall == -100 - MISSING_CLASS, "an unknown class is reported"); sym_reach("stranger"); }
    sym_reach(want >= 0 ? "ran" : "error");
}
