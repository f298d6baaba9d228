// C25: inconsistent definitions of the default registry are detected, consistent ones never are.
// CFG_CONSISTENT, CFG_UNITS: what the translation units linked with this one amount to.
#include "sym.h"
#include "odr.hpp"
Unit* units;
static int nodr, nother; static bool throws; struct Stop {};
void received(bool odr) { (odr ? nodr : nother)++; if (throws) throw Stop(); }
static Unit* unit(int k) { Unit* u = units; while (k--) u = u->next; return u; }
static void end() { sym_assert(!CFG_CONSISTENT && nodr == 1 && nother == 0, "the program ends because of the inconsistency only"); sym_reach("abort"); }
extern "C" void sym_main() {
    int n = 0; for (Unit* u = units; u; u = u->next) n++;
    sym_assert(n == CFG_UNITS, "all the translation units are there");
    for (Unit* u = units; u; u = u->next) u->handle();
    rt_at_abort(end); throws = true;
    for (int s = 0; s < 3; s++) {
        Unit* u = unit((int)sym_pick("unit", CFG_UNITS)); nodr = nother = 0;
        switch (sym_pick("act", 2)) {
        case 0: {
            if (!CFG_CONSISTENT && s == 2) { throws = false; sym_expect_abort(1); }
            bool ok = true; try { u->init(); } catch (Stop&) { ok = false; }
            sym_assert(nother == 0 && ok == CFG_CONSISTENT && nodr == !ok, "initialize reports odr_violation if, and only if, the definitions are inconsistent");
            sym_reach(ok ? "consistent" : "inconsistent");
            if (ok) for (Unit* c = units; c; c = c->next) { int x = (int)sym_u64("x", 0, 1000); sym_assert(c->call(x) == 2 * x, "methods work in all the translation units"); }
            break; }
        case 1: if (CFG_CONSISTENT) u->fini(); break;
        }
    }
}
