// C24: without an error handler the program stops at once; throw_error_handler throws the error itself.
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#ifdef CFG_THROW
#include <boost/openmethod/policies/throw_error_handler.hpp>
using handler = pol::throw_error_handler;
#else
struct handler { using category = handler; template<class> struct fn {}; };
#endif
namespace {
// as if there were two definitions of the registry
template<class R> auto conflict(int) -> decltype((void)(om::detail::odr_check<R>::count = 2)) { om::detail::odr_check<R>::count = 2; }
template<class R> void conflict(...) { sym_assume(false); }
struct A { virtual ~A() {} int a = 1; }; struct B : A { int b = 2; }; struct C : A {}; struct U : A {};
using R = om::registry<pol::std_rtti, pol::stderr_output, pol::runtime_checks, handler, CFG_POL>;
struct f_; struct g_;
using F = om::method<f_, int(om::virtual_<A&>), R>; using G = om::method<g_, int(om::virtual_ptr<A, R>, om::virtual_<A&>), R>;
int ranAny; int fB(B&) { ranAny++; return 1; } int g1(om::virtual_ptr<A, R>, B&) { ranAny++; return 2; } int g2(om::virtual_ptr<B, R>, A&) { ranAny++; return 3; }
om::use_classes<A, B, C, R> cls; F::override<fB> of; G::override<g1, g2> og;
const char* text; bool incomplete;
struct Next { static void end() { sym_assert(rt_written(&text) == 0 && ranAny == 0, "nothing else happens"); sym_reach("abort"); } };
void raise(int k) {
    A a; B b; C c; U u;
    switch (k) {
        case NOT_INIT: om::finalize<R>(); F::fn(b); break;
        case NO_OVERRIDER: F::fn(c); break;
        case AMBIGUOUS: G::fn(om::virtual_ptr<A, R>(b), b); break;
        case MISSING_CLASS: F::fn(u); break;
        case MISSING_BASE: for (auto& x : R::classes) if (x.type == &typeid(B)) x.last_base = x.first_base; om::initialize<R>(); break;
        case ODR: conflict<R>(0); om::initialize<R>(); break;
        case FINAL: om::final_virtual_ptr<R>((A&)b); break;
        default: U v; for (auto& x : R::classes) if (x.type == &typeid(C)) { x.first_base[0] = &typeid(U); x.last_base = x.first_base + 1; } om::initialize<R>(); break;
    }
    sym_assert(false, "execution does not continue after an error");
}
}
extern "C" void sym_main() {
    om::initialize<R>(); { B b; C c; sym_assert(F::fn(b) == 1 && G::fn(om::virtual_ptr<A, R>(b), c) == 3, "the program runs"); } ranAny = 0;
    R::output::os.on(rt_stream()); int k = NOT_INIT + (int)sym_pick("error", FINAL + 1);
#ifndef CFG_THROW
    sym_expect_abort(1); rt_at_abort(Next::end); raise(k);
#else
    int got = 0; type_id a = nullptr, b = nullptr, m = nullptr; size_t n = 0; bool how = sym_flag("as runtime_error"), said = false;
    try {
        if (how) try { raise(k); } catch (std::runtime_error& e) { said = e.what() && *e.what(); got = -1; }
        else raise(k);
    }
    catch (om::not_initialized&) { got = NOT_INIT; }
    catch (om::no_overrider& e) { got = NO_OVERRIDER; m = e.method; n = e.arity; a = e.types[0]; }
    catch (om::ambiguous_call& e) { got = AMBIGUOUS; m = e.method; n = e.arity; a = e.types[0]; b = e.types[1]; }
    catch (om::missing_class& e) { got = MISSING_CLASS; a = e.type; }
    catch (om::missing_base& e) { got = MISSING_BASE; a = e.base; b = e.derived; }
    catch (om::odr_violation&) { got = ODR; }
    catch (om::final_error& e) { got = FINAL; a = e.static_type; b = e.dynamic_type; }
    sym_assert(rt_written(&text) == 0 && ranAny == 0, "nothing else happens");
    if (how) { sym_assert(got == -1 && said, "every error is a runtime_error with a description"); sym_reach("runtime_error"); return; }
    sym_assert(got == (k > FINAL ? MISSING_CLASS : k), "the error thrown is the error detected");
    if (k == NO_OVERRIDER) sym_assert(m == &typeid(F) && n == 1 && a == &typeid(C), "with its data");
    if (k == AMBIGUOUS) sym_assert(m == &typeid(G) && n == 2 && a == &typeid(B) && b == &typeid(B), "with its data");
    if (k == MISSING_CLASS || k > FINAL) sym_assert(a == &typeid(U), "with its data");
    if (k == MISSING_BASE || k == FINAL) sym_assert(a == &typeid(A) && b == &typeid(B), "with its data");
    sym_reach("thrown");
#endif
}
