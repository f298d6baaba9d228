// C10: initialize accepts complete registrations and rejects incomplete ones, naming what is missing.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec_rc
#endif
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
static bool needed[MAXN], here[MAXN]; static Graph known; static Spec s; static bool missClass, missBase;
static void check() {
    sym_assert(nerr == 1, "one error is reported");
    if (last.kind == MISSING_CLASS) {
        bool ok = false; for (int c = 0; c < CFG_N; c++) if (needed[c] && !here[c] && last.a == id_of(c)) ok = true;
        sym_assert(ok, "missing_class names a class that is used and not registered"); sym_reach("missing_class");
    } else {
        bool ok = false;
        for (int o = 0; o < s.k; o++) for (int p = 0; p < s.np; p++)
            if (s.ov[o][p] != s.root[p] && !known.is[s.ov[o][p]][s.root[p]] && last.a == id_of(s.root[p]) && last.b == id_of(s.ov[o][p])) ok = true;
        sym_assert(last.kind == MISSING_BASE && ok, "missing_base names the class of the method as the base, and that of the overrider as the derived class"); sym_reach("missing_base");
    }
    sym_assert(missClass || last.kind != MISSING_CLASS, "missing_class is reported only if a class is missing");
    sym_assert(missBase || last.kind != MISSING_BASE, "missing_base is reported only if a base is missing");
}
extern "C" void sym_main() {
    Graph g; g.start(CFG_N);
#ifdef CFG_ORDERED
    ordered_graph(g, CFG_N);
#else
    any_graph(g, CFG_N); // what the registrations say
#endif
    for (int c = 0; c < CFG_N; c++) { here[c] = sym_flag(nm("registered", c)); if (!here[c]) for (int j = 0; j < CFG_N; j++) sym_assume(!g.listed[c][j]); }
    known.start(CFG_N);
    for (int c = 0; c < CFG_N; c++) if (here[c]) {
        unsigned m = 0; for (int j = 0; j < CFG_N; j++) if (g.listed[c][j]) { m |= 1u << j; needed[j] = true; known.edge(c, j); }
        Classes<CFG_REG>::add(c, m);
    }
    s.np = S::np; s.k = CFG_K - (int)sym_pick("fewer", 2);
    for (int p = 0; p < s.np; p++) {
        s.root[p] = (int)sym_pick(nm("root", p), CFG_N); needed[s.root[p]] = true;
        for (int o = 0; o < s.k; o++) { s.ov[o][p] = (int)sym_pick(nm("ov", o, p), CFG_N); needed[s.ov[o][p]] = true; if (s.ov[o][p] != s.root[p] && !known.is[s.ov[o][p]][s.root[p]]) missBase = true; }
    }
    O::define(s);
#ifdef CFG_RET
    // the method returns class r, or no class; so do its overriders
    int r = (int)sym_pick("ret", CFG_N + 1); if (r < CFG_N) S::m::fn.return_type_id = id_of(r);
    for (int o = 0; o < s.k; o++) { int q = (int)sym_pick(nm("ret", o), CFG_N); O::info(o).return_type = id_of(q); if (r < CFG_N && here[r]) needed[q] = true; }
#endif
    for (int c = 0; c < CFG_N; c++) if (needed[c] && !here[c]) missClass = true;
    bool complete = !missClass && !missBase;
    on_error = check;
    errReturns = !complete && sym_flag("handler_returns");
    if (errReturns) sym_expect_abort(1);
    int k = attempt([] { om::initialize<CFG_REG>(); });
    if (errReturns) sym_assert(false, "the program does not continue past initialize");
    sym_assert((k == NONE) == complete, "initialize succeeds exactly when the registration is complete");
    on_error = nullptr; nerr = ran = 0;
    if (complete) {
        Table e; expected(e, known, s); Args a; any_args(a, known, s, "arg"); int want = look(e, s, a);
        sym_assert(outcome<S>(a.o) == want, "the call runs the expected overrider"); sym_reach("complete");
    } else {
        // no method runs
        Obj o[MAXP]; for (int p = 0; p < MAXP; p++) o[p].type = id_of(0);
        sym_assert(outcome<S>(o) == outcome_of(NOT_INIT) && ran == 0, "no method runs after a failed initialize");
    }
    sym_log("kind", (uint64_t)k);
}
