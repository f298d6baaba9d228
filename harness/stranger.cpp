// C08: with runtime checks, an object of an unregistered class is always caught; one of a registered class never is.
#include "sym.h"
inline uint64_t layout; // how the type ids of the classes are laid out
inline uint64_t laid_out(uint64_t c) {
    switch (layout) {
    case 0: return c + 1;
    case 1: return c; // zero is a valid type id
    case 2: return 0x555555560a10ull + c * 24; // addresses
    case 3: return ~0ull - c;
    case 4: return c << 61 | 1;
    default: return (c + 1) * 0x9E3779B97F4A7C15ull;
    }
}
#define CFG_ID_OF(c) laid_out(c)
#include "world.hpp"
using Reg = CFG_REG;
using S0 = Uni<Reg, 0>; using S1 = Bi<Reg, 1>;
using O0 = Overriders<S0, 2>; using O1 = Overriders<S1, 1>;
template void O0::touch(); template void O1::touch();
struct IdV; using MV = om::method<IdV, int(int, om::virtual_ptr<Obj, Reg>), Reg>;
static int ovv(int, om::virtual_ptr<Obj, Reg>) { ran++; return 7; }
static MV::override<ovv> regV;
extern "C" void sym_main() {
    constexpr int N = CFG_N; layout = sym_pick("layout", CFG_LAYOUTS);
    Graph g; fixed_graph(g, N, 0);
    Spec s0, s1; s0.np = 1; s0.k = 2; s0.ov[1][0] = N - 1; s1.np = 2; s1.k = 1;
    Classes<Reg>::add(g); O0::define(s0); O1::define(s1);
    MV::fn.vp_begin[0] = id_of(0); MV::override_aux<&ovv, decltype(&ovv)>::impl.vp_begin[0] = id_of(0);
    if (sym_flag("unloaded")) { // more classes, once
        auto& c0 = Classes<Reg>::add(N, 1); auto& c1 = Classes<Reg>::add(N + 1, 1);
        sym_assert(attempt([] { om::initialize<Reg>(); }) == NONE, "initialize succeeds"); sym_reach("unloaded");
        Reg::classes.remove(c0); Reg::classes.remove(c1);
    }
    sym_assert(attempt([] { om::initialize<Reg>(); }) == NONE, "initialize succeeds");
    // a class that is registered
    uint64_t ids[N]; uint64_t top = 0; for (int i = 0; i < N; i++) { ids[i] = (uint64_t)(uintptr_t)id_of(i); if (ids[i] > top) top = ids[i]; }
    uint64_t c = sym_u64("class", 0, N - 1); Obj ok{(type_id)(uintptr_t)ids[c]}, first{id_of(0)};
    nerr = 0; Obj a[2] = {ok, ok};
    sym_assert(outcome<S0>(a) == (c == N - 1 ? 1 : 0) && outcome<S1>(a) == 0, "calls on registered classes run the overriders");
    om::virtual_ptr<Obj, Reg> good(ok);
    sym_assert(attempt([&] { sym_assert(MV::fn(1, good) == 7, "the call runs"); }) == NONE && nerr == 0, "no error for a registered class");
    sym_reach("registered");
    // and one that is not
    uint64_t t = sym_u64("stranger", 0, UINT64_MAX); for (int i = 0; i < N; i++) sym_assume(t != ids[i]);
#if CFG_PLAIN
    sym_assume(t > top);
#endif
    Obj bad{(type_id)(uintptr_t)t}; const Obj* was = good.get(); auto vwas = good.vptr();
    size_t use = sym_pick("use", 6); ran = 0; nerr = 0;
    bool ret = sym_flag("handler returns"); if (ret) { sym_expect_abort(1); errReturns = true; on_error = [] { sym_assert(last.kind == MISSING_CLASS && nerr == 1 && ran == 0, "one error, of the right kind"); }; }
    int k = attempt([&] {
        Obj b[2] = {bad, bad};
        switch (use) {
        case 0: S0::invoke(b); break;
        case 1: b[0] = ok; S1::invoke(b); break;
        case 2: b[1] = ok; S1::invoke(b); break;
        case 3: { om::virtual_ptr<Obj, Reg> p(bad); break; }
        case 4: good = bad; break;
        case 5: MV::fn(1, bad); break;
        }
    });
    sym_assert(!ret, "execution does not continue when the handler returns");
    sym_assert(k == MISSING_CLASS && nerr == 1 && last.a == bad.type && ran == 0, "an object of an unregistered class is reported as missing_class, with its type id");
    sym_assert(good.get() == was && good.vptr() == vwas, "the virtual_ptr assigned to is unchanged");
    // later calls work
    nerr = 0; Obj again[2] = {ok, ok}; sym_assert(outcome<S1>(again) == 0 && nerr == 0, "later calls behave normally"); sym_reach("stranger");
}
