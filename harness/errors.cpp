// C24: the handler in place receives every error, once, as the right alternative, intact; then the program stops.
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
namespace {
// as if there were two definitions of the registry
template<class R> auto conflict(int) -> decltype((void)(om::detail::odr_check<R>::count = 2)) { om::detail::odr_check<R>::count = 2; }
template<class R> void conflict(...) { sym_assume(false); }
struct A { virtual ~A() {} int a = 1; }; struct B : A { int b = 2; }; struct C : A {}; struct U : A {};
constexpr int NREG = 3, NH = 3;
struct Got { int n, handler, reg, kind; type_id a, b, method; size_t arity; type_id t0, t1; } got[NREG];
bool throws;
struct Stop {};
template<int I> struct mark { using category = mark; template<class> struct fn {}; }; // tells the registries apart
template<int I> using Rg = om::registry<pol::std_rtti, pol::default_error_handler, mark<I>, pol::stderr_output, pol::runtime_checks, CFG_POL>;
using R0 = Rg<0>; using R1 = Rg<1>; using R2 = Rg<2>;
template<class R> int index = std::is_same_v<R, R0> ? 0 : std::is_same_v<R, R1> ? 1 : 2;
// a handler records what it receives
template<class R> auto handler(int h) {
    return [h](const typename R::error_handler::error_variant& v) {
        Got& g = got[index<R>]; g.n++; g.handler = h; g.kind = -1;
        auto call = [&](const om::bad_call* e) { g.method = e->method; g.arity = e->arity; g.t0 = e->types[0]; g.t1 = e->types[1]; };
        if (auto e = std::get_if<om::not_initialized>(&v)) { (void)e; g.kind = NOT_INIT; }
        if (auto e = std::get_if<om::no_overrider>(&v)) { g.kind = NO_OVERRIDER; call(e); }
        if (auto e = std::get_if<om::ambiguous_call>(&v)) { g.kind = AMBIGUOUS; call(e); }
        if (auto e = std::get_if<om::missing_class>(&v)) { g.kind = MISSING_CLASS; g.a = e->type; }
        if (auto e = std::get_if<om::missing_base>(&v)) { g.kind = MISSING_BASE; g.a = e->base; g.b = e->derived; }
        if (auto e = std::get_if<om::odr_violation>(&v)) { (void)e; g.kind = ODR; }
        if (auto e = std::get_if<om::final_error>(&v)) { g.kind = FINAL; g.a = e->static_type; g.b = e->dynamic_type; }
#ifdef CFG_HASH
        if (auto e = std::get_if<pol::fast_perfect_hash::search_error>(&v)) { g.kind = SEARCH; g.arity = e->attempts; g.a = (type_id)e->buckets; }
#endif
        if (throws) throw Stop();
    };
}
// a handler set before main stays
static auto beforeMain = Rg<2>::error_handler::set(handler<Rg<2>>(77));
template<class R> struct Prog {
    struct f_; struct g_;
    using F = om::method<f_, int(om::virtual_<A&>), R>; using G = om::method<g_, int(om::virtual_ptr<A, R>, om::virtual_<A&>), R>;
    static int fB(B&) { return 1; } static int g1(om::virtual_ptr<A, R>, B&) { return 2; } static int g2(om::virtual_ptr<B, R>, A&) { return 3; }
    static inline om::use_classes<A, B, C, R> cls; static inline typename F::template override<fB> of; static inline typename G::template override<g1, g2> og;
    static void touch() { (void)&cls; (void)&of; (void)&og; }
    using EH = typename R::error_handler;
    // raises an error of kind k: by itself, or in the library
    static void raise(int k, const Got& e, bool real) {
        A a; B b; C c; U u;
        if (!real) switch (k) {
            case NOT_INIT: EH::error(om::not_initialized()); break;
            case NO_OVERRIDER: { om::no_overrider x; x.method = e.method; x.arity = e.arity; x.types[0] = e.t0; x.types[1] = e.t1; EH::error(x); break; }
            case AMBIGUOUS: { om::ambiguous_call x; x.method = e.method; x.arity = e.arity; x.types[0] = e.t0; x.types[1] = e.t1; EH::error(x); break; }
            case MISSING_CLASS: { om::missing_class x; x.type = e.a; EH::error(x); break; }
            case MISSING_BASE: { om::missing_base x; x.base = e.a; x.derived = e.b; EH::error(x); break; }
            case ODR: EH::error(om::odr_violation()); break;
            case FINAL: { om::final_error x; x.static_type = e.a; x.dynamic_type = e.b; EH::error(x); break; }
#ifdef CFG_HASH
            case SEARCH: { pol::fast_perfect_hash::search_error x; x.attempts = e.arity; x.buckets = (size_t)e.a; EH::error(x); break; }
#endif
        } else switch (k) {
            case NOT_INIT: om::finalize<R>(); F::fn(b); break;
            case NO_OVERRIDER: F::fn(c); break;
            case AMBIGUOUS: G::fn(om::virtual_ptr<A, R>(b), b); break;
            case MISSING_CLASS: F::fn(u); break;
            case MISSING_BASE: { static om::detail::class_info* ci; for (auto& x : R::classes) if (x.type == &typeid(B)) ci = &x; ci->last_base = ci->first_base; om::initialize<R>(); break; }
            case ODR: conflict<R>(0); om::initialize<R>(); break;
            case FINAL: om::final_virtual_ptr<R>((A&)b); break;
        }
    }
    static void want(Got& e, int k) { // what the library says about the errors above
        e.kind = k; bool call = k == NO_OVERRIDER || k == AMBIGUOUS;
        e.method = call ? (type_id)(k == NO_OVERRIDER ? &typeid(F) : &typeid(G)) : nullptr; e.arity = call ? (k == NO_OVERRIDER ? 1 : 2) : 0;
        e.t0 = k == NO_OVERRIDER ? (type_id)&typeid(C) : k == AMBIGUOUS ? (type_id)&typeid(B) : nullptr; e.t1 = k == AMBIGUOUS ? (type_id)&typeid(B) : nullptr;
        e.a = k == MISSING_CLASS ? (type_id)&typeid(U) : k == MISSING_BASE || k == FINAL ? (type_id)&typeid(A) : nullptr; e.b = k == MISSING_BASE || k == FINAL ? (type_id)&typeid(B) : nullptr;
    }
};
int current[NREG] = {-1, -1, 77}; // -1: the default
Got before[NREG];
FILE* out; const char* text;
// identifies a handler by calling it
template<class R> int identify(const typename R::error_handler::function_type& f) {
    if (!f) return -2;
    Got save = got[index<R>]; bool t = throws; throws = false; int n = got[index<R>].n; R::output::os.off(); f(om::not_initialized()); R::output::os.on(out);
    int r = got[index<R>].n == n ? -1 : got[index<R>].handler; got[index<R>] = save; throws = t; return r;
}
template<class R> void install(int h) {
    auto prev = R::error_handler::set(h < 0 ? typename R::error_handler::function_type(R::error_handler::default_handler) : typename R::error_handler::function_type(handler<R>(h)));
    sym_assert(identify<R>(prev) == current[index<R>], "set returns the previous handler"); current[index<R>] = h; sym_reach("installed");
}
Got wanted;
template<class R> void checked() {
    int r = index<R>;
    for (int o = 0; o < NREG; o++) if (o != r) sym_assert(got[o].n == before[o].n, "the handlers of other registries do not hear of it");
    if (current[r] < 0) { sym_assert(got[r].n == before[r].n, "a replaced handler is not called"); sym_assert((rt_written(&text) > 0) == R::output::os.is_on(), "the default handler writes a message to the output, if it is on"); sym_reach("default"); return; }
    sym_assert(rt_written(&text) == 0, "only the default handler writes");
    const Got& g = got[r]; const Got& w = wanted;
    sym_assert(g.n == before[r].n + 1, "the handler receives the error once"); sym_assert(g.handler == current[r], "the handler in place receives it"); sym_assert(g.kind == w.kind, "as the alternative of its kind");
    if (w.kind == NO_OVERRIDER || w.kind == AMBIGUOUS) sym_assert(g.method == w.method && g.arity == w.arity && g.t0 == w.t0 && (w.arity < 2 || g.t1 == w.t1), "with the method and the types");
    if (w.kind == MISSING_CLASS) sym_assert(g.a == w.a, "with the class"); if (w.kind == MISSING_BASE || w.kind == FINAL) sym_assert(g.a == w.a && g.b == w.b, "with both classes");
    if (w.kind == SEARCH) sym_assert(g.a == w.a && g.arity == w.arity, "with the effort");
    sym_reach(w.kind == NOT_INIT ? "not_initialized" : w.kind == NO_OVERRIDER ? "no_overrider" : w.kind == AMBIGUOUS ? "ambiguous" : w.kind == MISSING_CLASS ? "missing_class" : w.kind == MISSING_BASE ? "missing_base" : w.kind == ODR ? "odr" : w.kind == FINAL ? "final" : "search");
}
// s: the step; again: the kind of error that a handler threw out of, which is raised once more
template<class R> bool event(int s, int again = 0) {
    for (int i = 0; i < NREG; i++) before[i] = got[i];
    out = rt_stream(); R::output::os.on(out); if (!again && sym_flag("quiet")) R::output::os.off();
    bool real = s == CFG_STEPS; // the last step
    int k = again ? again : NOT_INIT + (int)sym_pick("kind", real ? FINAL : CFG_HASH_KIND);
    wanted = Got(); if (real) { Prog<R>::want(wanted, k); if (!again) om::initialize<R>(); }
    else { wanted.kind = k; wanted.a = (type_id)(uintptr_t)sym_u64("a", 0, ~0ull); wanted.b = (type_id)(uintptr_t)sym_u64("b", 0, ~0ull); wanted.method = (type_id)(uintptr_t)sym_u64("method", 0, ~0ull); wanted.arity = sym_u64("arity", 1, 2); wanted.t0 = (type_id)(uintptr_t)sym_u64("t0", 0, ~0ull); wanted.t1 = (type_id)(uintptr_t)sym_u64("t1", 0, ~0ull); }
    if (!real && current[index<R>] < 0) { wanted.a = wanted.b = wanted.t0 = wanted.t1 = (type_id)&typeid(C); wanted.method = (type_id)&typeid(U); } // the default handler names the types
    if (real) throws = again || sym_flag("throws"); else throws = current[index<R>] > 0;
    if (real && (!throws || current[index<R>] < 0)) sym_expect_abort(1);
    if (real) { struct L { static void end() { checked<R>(); sym_reach("abort"); } }; rt_at_abort(L::end); }
    bool thrown = false; try { Prog<R>::raise(k, wanted, real); } catch (Stop&) { thrown = true; }
    if (real) { sym_assert(thrown, "an error that was handled never lets the program go on"); sym_reach("thrown"); }
    else sym_assert(thrown == (throws && current[index<R>] >= 0), "what the handler throws is not held back");
    checked<R>();
    if (real && !again) { if (k >= NO_OVERRIDER) sym_reach("again"); event<R>(s, k); }
    return real;
}
}
extern "C" void sym_main() {
    Prog<R0>::touch(); Prog<R1>::touch(); Prog<R2>::touch();
    sym_assert(identify<R2>(beforeMain) == -1, "set returns the previous handler, before main too");
    for (int s = 0; s <= CFG_STEPS; s++) {
        int r = (int)sym_pick("registry", NREG);
        if (s < CFG_STEPS && sym_flag("install")) { int h = (int)sym_pick("handler", NH) - 1; if (r == 0) install<R0>(h); else if (r == 1) install<R1>(h); else install<R2>(h); }
        else { if (r == 0) event<R0>(s); else if (r == 1) event<R1>(s); else event<R2>(s); }
    }
}
