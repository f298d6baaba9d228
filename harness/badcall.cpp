// C03: a failed call reports exactly what was called, and never returns.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
static Args a; static int want;
static void check() {
    sym_assert(nerr == 1, "one error is reported");
    sym_assert(last.kind == (want == -1 ? NO_OVERRIDER : AMBIGUOUS), "the error is of the right kind");
    sym_assert(last.method == sym_rtti::fn<CFG_REG>::static_type<typename S::m>(), "the error identifies the method");
    sym_assert(last.arity == S::np, "the error gives the number of virtual arguments");
    for (int p = 0; p < S::np; p++) sym_assert(last.types[p] == a.o[p].type, "the error gives the type ids of the virtual arguments, in order");
}
extern "C" void sym_main() {
    Graph g; any_graph(g, CFG_N);
    Spec s; any_spec(s, g, S::np, CFG_K, "m");
    Classes<CFG_REG>::add(g); O::define(s);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    Table e; expected(e, g, s);
    any_args(a, g, s, "arg"); want = look(e, s, a); sym_assume(want < 0);
    on_error = check; nerr = ran = 0;
    errReturns = sym_flag("handler_returns");
    if (errReturns) {
        sym_expect_abort(1); sym_reach("abort");
        outcome<S>(a.o);
        sym_assert(false, "the program is terminated when the error handler returns");
    }
    int got = outcome<S>(a.o);
    sym_assert(got == want && nerr == 1 && ran == 0, "the exception thrown by the handler propagates, and no overrider runs");
    sym_reach(want == -1 ? "no_overrider" : "ambiguous");
    // later calls behave normally
    any_args(a, g, s, "again"); want = look(e, s, a); nerr = ran = 0;
    got = outcome<S>(a.o);
    sym_assert(got == want && nerr == (want < 0) && ran == (want >= 0), "later calls behave normally");
    if (want >= 0) sym_reach("later");
}
