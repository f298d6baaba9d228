// C18: two registries over the same classes and type ids: what is done in one is not seen in the other.
#include "world.hpp"
using RA = CFG_RA; using RB = CFG_RB;
using SA = CFG_SHAPE<RA, 0>; using SB = CFG_SHAPE<RB, 1>;
using OA = Overriders<SA, CFG_K>; using OB = Overriders<SB, CFG_K>;
template void OA::touch(); template void OB::touch();
static Graph g;
static int gaps(const Graph& g, const Spec& s) { int c[MAXP] = {}, n = 0; // tuples without an overrider
    for (c[0] = 0; c[0] < g.n; c[0]++) for (c[1] = 0; c[1] < (s.np > 1 ? g.n : 1); c[1]++) {
        bool ok = true; for (int p = 0; p < s.np; p++) if (!g.is[c[p]][s.root[p]]) ok = false;
        if (ok && s.call(g, c) == -1) n++; } return n; }
template<class S, class O> struct World {
    using R = typename S::registry;
    Spec now, at; bool here = true, init = false; bool hereAt = true; // the current registrations, and those of the last initialize
    Graph seen;
    bool withLast = true; // the last class is registered
    void start(const char* tag) {
        now.np = S::np; now.k = CFG_K;
        for (int o = 0; o < CFG_K; o++) for (int p = 0; p < now.np; p++) now.ov[o][p] = pick_desc(g, nm(tag, o, p), 0);
        Classes<R>::add(g); O::define(now);
    }
    void initialize() {
        nerr = 0; om::initialize<R>();
        init = true; at = now; seen = g;
        if (!withLast) for (int i = 0; i < g.n; i++) seen.is[g.n - 1][i] = false;
        auto c = om::initialize<R>(); // again: the report is about the current registrations of this registry
        sym_assert(nerr == 0, "initialize succeeds");
        sym_assert((c.report.not_implemented != 0) == (gaps(seen, at) != 0), "the report is about the methods of this registry");
    }
    void finalize() { om::finalize<R>(); init = false; }
    void drop(const char* tag, int step) {
        int k = (int)sym_pick(nm(tag, step), CFG_K + 1);
        if (k < CFG_K) { if (now.removed[k]) S::m::fn.overriders.push_back(O::info(k)); else S::m::fn.overriders.remove(O::info(k)); now.removed[k] = !now.removed[k]; return; }
        bool used = false; for (int o = 0; o < CFG_K; o++) for (int p = 0; p < now.np; p++) if (now.ov[o][p] == g.n - 1) used = true;
        sym_assume(!used); for (int i = 0; i < g.n - 1; i++) sym_assume(!g.listed[i][g.n - 1]);
        auto& ci = Classes<R>::slot[g.n - 1].ci;
        if (withLast) R::classes.remove(ci); else R::classes.push_back(ci);
        withLast = !withLast;
    }
    void verify(const char* tag) {
        if (!init) {
            if (!R::has_runtime_checks) return;
            Obj o[MAXP]; for (int p = 0; p < MAXP; p++) o[p].type = id_of(0); nerr = ran = 0;
            sym_assert(outcome<S>(o) == outcome_of(NOT_INIT) && ran == 0 && nerr == 1 && last.registry == &RegTag<R>::tag, "a registry that is not initialized says so");
            sym_reach("uninitialized"); return;
        }
        Table e; expected(e, seen, at); Args a;
        uint8_t okc[MAXN] = {}; for (int i = 0; i < g.n; i++) okc[i] = seen.is[i][0];
        for (int p = 0; p < at.np; p++) { a.c[p] = sym_u64(nm(tag, p), 0, g.n - 1); sym_assume(okc[a.c[p]]); a.o[p].type = (type_id)(uintptr_t)(a.c[p] + 1); }
        int want = look(e, at, a); nerr = ran = 0; int got = outcome<S>(a.o);
        sym_assert(got == want, "calls are those of the last initialization of this registry");
        sym_assert(got >= 0 ? ran == 1 && nerr == 0 && hit / 16 == (std::is_same_v<R, RB>) : nerr == 1 && ran == 0 && last.registry == &RegTag<R>::tag, "an overrider of this registry runs, or the error is reported in this registry");
        Obj o = a.o[0]; om::virtual_ptr<Obj, R> p(o);
        sym_assert(p.vptr() == om::virtual_ptr<Obj, R>(a.o[0]).vptr(), "virtual_ptr");
        sym_reach(got >= 0 ? "ran" : got == -1 ? "no_overrider" : "ambiguous");
    }
};
static World<SA, OA> a; static World<SB, OB> b;
extern "C" void sym_main() {
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    g.start(CFG_N); for (int i = 1; i < CFG_N; i++) g.edge(i, 0);
    for (int i = 1; i < CFG_N; i++) for (int j = 1; j < CFG_N; j++) if (i != j && !g.is[j][i] && sym_flag(nm("base", i, j))) g.edge(i, j);
#endif
    a.start("a"); b.start("b");
    for (int step = 0; step < CFG_STEPS; step++) switch (sym_pick(nm("op", step), 6)) {
        case 0: a.initialize(); sym_reach("init_a"); break;
        case 1: b.initialize(); sym_reach("init_b"); break;
        case 2: a.finalize(); sym_reach("fini_a"); break;
        case 3: b.finalize(); sym_reach("fini_b"); break;
        case 4: a.drop("drop_a", step); sym_reach("drop_a"); break;
        case 5: b.drop("drop_b", step); sym_reach("drop_b"); break;
    }
    sym_assume(a.init || b.init);
    a.verify("arg_a"); b.verify("arg_b");
}
