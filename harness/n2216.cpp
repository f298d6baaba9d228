// C17: the n2216 option.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
static Graph g; static Spec s; static bool classes; // does the method return a class?
// is running `got` right, when `cand` are to choose from?
static void check(const bool* cand, int got, const char* msg) {
    int n = 0; for (int o = 0; o < s.k; o++) n += cand[o];
    int best = s.best(g, cand);
    if (best != -2) { sym_assert(got == best, msg); return; }
    sym_assert(got >= 0 && got < s.k && cand[got], "an ambiguous call runs an applicable overrider");
    bool top[MAXK] = {}; int tops = 0; // the most specialized
    for (int o = 0; o < s.k; o++) if (cand[o]) { top[o] = true; for (int q = 0; q < s.k; q++) if (cand[q] && s.better(g, q, o)) top[o] = false; tops += top[o]; }
    if (!tops) { sym_reach("circular"); return; } // none is more specialized than all of those that beat it
    sym_assert(top[got], "an ambiguous call runs one of the most specialized applicable overriders");
    if (classes) {
        int pick = -1;
        for (int o = 0; o < s.k; o++) if (top[o]) { bool all = true; for (int q = 0; q < s.k; q++) if (top[q] && q != o && !g.strict(s.ret[o], s.ret[q])) all = false; if (all) pick = o; }
        if (pick >= 0) { sym_assert(got == pick, "an ambiguous call runs the contender with the most derived return type"); sym_reach("covariant"); }
    }
    if (tops > 2) sym_reach("three"); else sym_reach("two");
}
extern "C" void sym_main() {
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    any_graph(g, CFG_N);
#endif
#ifdef CFG_ROOT
    rooted_spec(s, g, S::np, CFG_K, CFG_ROOT);
#else
    any_spec(s, g, S::np, CFG_K, "m", false);
#endif
    Classes<CFG_REG>::add(g); O::define(s);
    // return types: a class, or none
    int r = (int)sym_pick("ret", CFG_RETS + 1); classes = r < CFG_RETS;
    if (classes) { S::m::fn.return_type_id = id_of(r); for (int o = 0; o < s.k; o++) { s.ret[o] = pick_desc(g, nm("ret", o), r); O::info(o).return_type = id_of(s.ret[o]); } }
    sym_assert(attempt([] { om::initialize<CFG_REG>(om::n2216()); }) == NONE, "initialize completes");
    Args a; any_args(a, g, s, "arg");
    nerr = ran = 0;
    int got = (int)(int8_t)sym_concretize((uint8_t)outcome<S>(a.o)); int n1 = nerr;
    sym_assert(got != -2, "no call is ambiguous");
    sym_assert(ran == (got >= 0) && n1 == (got < 0), "one overrider runs, or one error is reported");
    int c[MAXP]; for (int p = 0; p < s.np; p++) c[p] = (int)sym_concretize(a.c[p]);
    bool cand[MAXK] = {}; for (int o = 0; o < s.k; o++) cand[o] = s.applicable(g, o, c);
    check(cand, got, "a call that is not ambiguous runs the same overrider as without the option");
    sym_assert(outcome<S>(a.o) == got, "the same call runs the same overrider again");
    if (got >= 0 && s.unique(got)) {
        bool wide[MAXK] = {}; for (int o = 0; o < s.k; o++) wide[o] = o != got && s.wider(g, o, got);
        int nx = next_outcome<S, CFG_K>(got, a.o);
        sym_assert(nx != -2, "next is never ambiguous");
        check(wide, nx, "next runs the same overrider as without the option");
        sym_assert(O::has_next(got) == (nx >= 0), "has_next is true exactly when next runs an overrider");
        if (nx >= 0) sym_reach("next");
    }
    sym_assert(attempt([] { om::initialize<CFG_REG>(om::n2216()); }) == NONE, "initialize completes");
    sym_assert(outcome<S>(a.o) == got, "the same overrider is picked every time");
}
