// C22: tracing never changes what initialize does.
#include "world.hpp"
#include <boost/openmethod/policies/stderr_output.hpp>
using Reg = om::registry<sym_rtti, rec_errors, pol::stderr_output, CFG_POL>;
using S0 = CFG_SHAPE<Reg, 0>; using S1 = Uni<Reg, 1>;
using O0 = Overriders<S0, CFG_K>; using O1 = Overriders<S1, 1>;
template void O0::touch(); template void O1::touch();
static Graph g; static Spec s, s1; static Args a, b; static bool named, incomplete; // incomplete: calls may be outside the contract
struct Result { int kind, call, call1, next[CFG_K], has[CFG_K]; size_t notImpl, ambiguous, cells, cellsUsed; type_id first, second; };
template<class... Opt> static Result run(Opt... opt) {
    Result r = Result(); nerr = 0; last = Err();
    r.kind = attempt([&] { auto c = named ? om::initialize<Reg>(opt...) : om::initialize<Reg>(Opt(opt)...); r.notImpl = c.report.not_implemented; r.ambiguous = c.report.ambiguous; r.cells = c.report.cells; });
    r.first = last.a; r.second = last.b;
    if (r.kind != NONE || incomplete) return r;
    r.call = outcome<S0>(a.o); r.call1 = outcome<S1>(b.o);
    for (int k = 0; k < CFG_K; k++) if (k < s.k && s.unique(k)) { r.has[k] = O0::has_next(k); Obj o[MAXP]; for (int p = 0; p < S0::np; p++) o[p].type = id_of(s.ov[k][p]); r.next[k] = next_outcome<S0, CFG_K>(k, o); }
    return r;
}
static bool same(const Result& x, const Result& y) {
    bool ok = x.kind == y.kind && x.call == y.call && x.call1 == y.call1 && x.notImpl == y.notImpl && x.ambiguous == y.ambiguous && x.cells == y.cells && x.first == y.first && x.second == y.second;
    for (int k = 0; k < CFG_K; k++) ok = ok && x.next[k] == y.next[k] && x.has[k] == y.has[k];
    return ok;
}
extern "C" void sym_main() {
#ifdef CFG_EDGES
    fixed_graph(g, CFG_N, CFG_EDGES);
#else
    any_graph(g, CFG_N);
#endif
    any_spec(s, g, S0::np, CFG_K, "m", false); s1.np = 1; s1.k = 1;
    Classes<Reg>::add(g); O0::define(s); O1::define(s1);
    any_args(a, g, s, "a"); any_args(b, g, s1, "b");
    if ((incomplete = sym_flag("incomplete"))) Reg::classes.remove(Classes<Reg>::slot[sym_pick("missing", CFG_N)].ci);
    FILE* f = rt_stream(); Reg::output::os.on(f); const char* t;
    bool n = sym_flag("n2216"); named = n != sym_flag("swap");
    Result plain = n ? run(om::n2216()) : run();
    sym_assert(rt_written(&t) == 0, "nothing is written without tracing");
    om::finalize<Reg>();
    if (sym_flag("off")) {
        Result off = n ? run(om::trace(false), om::n2216()) : run(om::trace(false));
        sym_assert(same(plain, off), "tracing that is off changes nothing"); sym_assert(rt_written(&t) == 0, "nothing is written when tracing is off"); sym_reach("off");
    } else {
        Result on = n ? run(om::n2216(), om::trace(true)) : run(om::trace());
        sym_assert(same(plain, on), "tracing changes nothing"); sym_assert(rt_written(&t) > 0, "tracing writes"); sym_reach(plain.kind == NONE ? "on" : "error");
    }
}
