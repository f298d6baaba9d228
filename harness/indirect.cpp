// C21: indirect virtual_ptrs survive re-initialization.
#include "world.hpp"
using Reg = CFG_REG;
#define VO om::virtual_ptr<Obj, Reg>
OM_SHAPE(VUni, 1, (VO), (VO), , (o[0]))
OM_SHAPE(VRef, 1, (int, const VO&), (int, const VO&), , (1, o[0]))
OM_SHAPE(VBi, 2, (VO, int, VO), (VO, int, VO), , (o[0], 2, o[1]))
#undef VO
using VO = om::virtual_ptr<Obj, Reg>;
using S0 = CFG_SHAPE<Reg, 0>; using S1 = Uni<Reg, 1>;
using O0 = Overriders<S0, CFG_K>; using O1 = Overriders<S1, 1>;
template void O0::touch(); template void O1::touch();
template<class R> static int invoke(VUni<R, 0>*, const VO* p) { return VUni<R, 0>::m::fn(p[0]); }
template<class R> static int invoke(VRef<R, 0>*, const VO* p) { return VRef<R, 0>::m::fn(1, p[0]); }
template<class R> static int invoke(VBi<R, 0>*, const VO* p) { return VBi<R, 0>::m::fn(p[0], 2, p[1]); }
static Graph g; static Spec s, s1; static bool here[MAXN], ovHere[MAXK], m1Here = true;
static Obj objs[MAXN];
alignas(16) static unsigned char store[3][MAXN][sizeof(VO)]; static bool have[3][MAXN];
static VO& at(int k, int c) { return *reinterpret_cast<VO*>(store[k][c]); }
extern "C" void sym_main() {
    g.start(CFG_N); for (int i = 1; i < CFG_N; i++) g.edge(i, 0);
    for (int i = 1; i < CFG_N; i++) for (int j = 1; j < i; j++) if (sym_flag(nm("base", i, j))) g.edge(i, j);
    s.np = S0::np; s.k = CFG_K; for (int o = 0; o < CFG_K; o++) for (int p = 0; p < s.np; p++) s.ov[o][p] = pick_desc(g, nm("ov", o, p), 0);
    s1.np = 1; s1.k = 1; s1.root[0] = 0; s1.ov[0][0] = CFG_N - 1;
    Classes<Reg>::add(g); O0::define(s); O1::define(s1);
    for (int i = 0; i < CFG_N; i++) { here[i] = true; objs[i].type = id_of(i); }
    for (int o = 0; o < CFG_K; o++) ovHere[o] = true;
    Graph now;
    for (int step = 0; step < CFG_STEPS; step++) {
        for (int i = 1; i < CFG_N; i++) {
            bool h = sym_flag(nm("class", step, i)); auto& ci = Classes<Reg>::slot[i].ci;
            if (here[i] && !h) Reg::classes.remove(ci); if (!here[i] && h) Reg::classes.push_back(ci);
            here[i] = h;
        }
        for (int i = 0; i < CFG_N; i++) if (here[i]) for (int j = 0; j < CFG_N; j++) if (g.listed[i][j]) sym_assume(here[j]);
        for (int o = 0; o < CFG_K; o++) {
            bool h = true; for (int p = 0; p < s.np; p++) if (!here[s.ov[o][p]]) h = false;
            if (h) h = sym_flag(nm("overrider", step, o));
            auto& l = S0::m::fn.overriders;
            if (ovHere[o] && !h) l.remove(O0::info(o)); if (!ovHere[o] && h) l.push_back(O0::info(o));
            ovHere[o] = h; s.removed[o] = !h;
        }
        bool h1 = here[CFG_N - 1] && step != 1; // another method: slots move
        if (m1Here && !h1) Reg::methods.remove(S1::m::fn); if (!m1Here && h1) Reg::methods.push_back(S1::m::fn);
        m1Here = h1;
        now = g; for (int i = 0; i < CFG_N; i++) for (int j = 0; j < CFG_N; j++) if (!here[i] || !here[j]) now.is[i][j] = false;
        if (step == 1 && sym_flag("finalize")) om::finalize<Reg>();
        sym_assert(attempt([] { om::initialize<Reg>(); }) == NONE, "initialize succeeds");
        // pointers made now, from objects and from pointers made before
        for (int c = 0; c < CFG_N; c++) if (here[c]) {
            if (!have[0][c]) { new (store[0][c]) VO(objs[c]); have[0][c] = true; }
            else if (!have[1][c]) { new (store[1][c]) VO(at(0, c)); have[1][c] = true; }
            if (!have[2][c]) { new (store[2][c]) VO(nullptr); have[2][c] = true; }
            if (step == 0) at(2, c) = &objs[c]; else if (have[1][c]) at(2, c) = at(1, c); else at(2, c) = objs[c];
        }
        for (int k = 0; k < 3; k++) for (int c = 0; c < CFG_N; c++) if (have[k][c] && here[c])
            sym_assert(at(k, c).get() == &objs[c] && at(k, c).vptr() == Classes<Reg>::svp[c], "a virtual_ptr has the current v-table of the class of its object");
    }
    Table e; expected(e, now, s); Args a;
    uint8_t okc[3][MAXN] = {}; for (int k = 0; k < 3; k++) for (int i = 0; i < CFG_N; i++) okc[k][i] = here[i] && have[k][i];
    uint64_t from = sym_pick("from", 3); alignas(VO) unsigned char args[2][sizeof(VO)];
    for (int p = 0; p < s.np; p++) {
        a.c[p] = sym_u64(nm("arg", p), 0, CFG_N - 1); sym_assume(okc[from][a.c[p]]);
        new (args[p]) VO(at((int)from, (int)a.c[p]));
    }
    int want = look(e, s, a), got; nerr = ran = 0;
    try { got = invoke((S0*)nullptr, reinterpret_cast<VO*>(args)); } catch (Thrown&) { got = outcome_of(last.kind); }
    sym_assert(got == want && (got >= 0 ? ran == 1 && nerr == 0 : ran == 0 && nerr == 1), "calls through virtual_ptrs made before reflect the current registrations");
    sym_reach(got >= 0 ? "ran" : got == -1 ? "no_overrider" : "ambiguous");
}
