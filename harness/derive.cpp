// C27: registries derived from others with and without policies hold the resulting policies, and behave accordingly.
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/policies/default_error_handler.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/stderr_output.hpp>
#include <boost/openmethod/default_registry.hpp>
namespace {
struct A { virtual ~A() {} int a = 1; }; struct B : A { int b = 2; }; struct U : A {};
// what the policies saw
struct Error { int handler; const void* registry; int kind; }; Error heard; int lookup; const void* where; int extra; const void* extra_where;
template<class R> char name; template<class R> const void* id() { return &name<typename R::registry_type>; }
template<int I> struct handler : pol::error_handler {
    template<class R> struct fn {
        static void hear(int k) { heard = {I, id<R>(), k}; throw Thrown(); }
        static void error(const om::not_initialized&) { hear(NOT_INIT); } static void error(const om::no_overrider&) { hear(NO_OVERRIDER); } static void error(const om::ambiguous_call&) { hear(AMBIGUOUS); }
        static void error(const om::missing_class&) { hear(MISSING_CLASS); } static void error(const om::missing_base&) { hear(MISSING_BASE); } static void error(const om::final_error&) { hear(FINAL); } template<class E> static void error(const E&) { hear(99); }
    };
};
// a lookup of one's own, on top of the ordered map
template<int I> struct user_vptr : pol::vptr {
    template<class R> struct fn : pol::vptr_map<boost::mp11::mp_quote<std::map>>::fn<R> {
        using base = pol::vptr_map<boost::mp11::mp_quote<std::map>>::fn<R>;
        template<class C> static decltype(auto) dynamic_vptr(const C& c) { lookup = I; where = id<R>(); return base::dynamic_vptr(c); }
    };
};
// a category of one's own
struct extra_category { using category = extra_category; };
template<int I> struct extras : extra_category { template<class R> struct fn { static void run() { extra = I; extra_where = id<R>(); } }; };
// is finalized once with the registry it is in
int finalized; struct counted { using category = counted; template<class R> struct fn { template<class... O> static void finalize(const std::tuple<O...>&) { finalized++; } }; };
struct final_category { using category = final_category; template<class R> struct fn { static constexpr bool here = true; }; };
template<class T, class... P> constexpr bool holds = std::is_same_v<typename T::policy_list, boost::mp11::mp_list<P...>>;
template<class R> constexpr size_t size = boost::mp11::mp_size<typename R::policy_list>::value;
template<class R, class P> constexpr bool has = boost::mp11::mp_contains<typename R::policy_list, P>::value;

using S = pol::std_rtti; using V1 = user_vptr<1>; using V2 = user_vptr<2>; using H1 = handler<1>; using H2 = handler<2>; using H3 = handler<3>; using RC = pol::runtime_checks; using IV = pol::indirect_vptr; using E1 = extras<1>; using E2 = extras<2>;
using Base = om::registry<S, V1, H1>;
using R0 = Base; using R1 = Base::with<RC>; using R2 = Base::with<H2>; using R3 = Base::with<RC, IV>; using R4 = R3::without<RC>; using R5 = R3::without<IV, pol::error_handler>::with<H3>;
using R6 = Base::with<V2, E1>; using R7 = R6::with<E2, RC>; using R8 = R7::without<extra_category>; struct R9 : R3::with<H2, E1> {}; using R10 = R9::without<E2, RC>; using R11 = R7::with<H2, V1, E1, IV>;
using R12 = Base::without<H2, V2>::with<final_category>::with<V2, H2, RC>; using R13 = R12::without<final_category>;
// what each one has: lookup, handler, checks, indirect, extra
struct Has { int lookup, handler; bool checks, indirect; int extra; };
constexpr Has table[] = {{1, 1, 0, 0, 0}, {1, 1, 1, 0, 0}, {1, 2, 0, 0, 0}, {1, 1, 1, 1, 0}, {1, 1, 0, 1, 0}, {1, 3, 1, 0, 0}, {2, 1, 0, 0, 1}, {2, 1, 1, 0, 2}, {2, 1, 1, 0, 0}, {1, 2, 1, 1, 1}, {1, 2, 0, 1, 0}, {1, 2, 1, 1, 1}, {2, 2, 1, 0, 0}, {2, 2, 1, 0, 0}};
constexpr int NR = sizeof table / sizeof *table;
const void* ids[NR];
template<class R, int I> struct Prog {
    static constexpr Has h = table[I];
    struct f_; struct g_;
    using F = om::method<f_, int(om::virtual_<A&>), R>; using G = om::method<g_, int(om::virtual_ptr<A, R>, om::virtual_<A&>), R>;
    static int fA(A&) { return 1 + 10 * I; } static int fB(B&) { return 2 + 10 * I; } static int g1(om::virtual_ptr<B, R>, A&) { return 3; } static int g2(om::virtual_ptr<A, R>, B&) { return 4; }
    static inline om::use_classes<A, B, R> cls; static inline typename F::template override<fA, fB> of; static inline typename G::template override<g1, g2> og;
    static void touch() { (void)&cls; (void)&of; (void)&og; }
    template<class C> static int kind(C call) { heard = {}; try { call(); return 0; } catch (Thrown&) { sym_assert(heard.handler == h.handler, "the errors go to the handler of the registry"); sym_assert(heard.registry == id<R>(), "which sees the registry it is in"); return heard.kind; } }
    static void types() {
        sym_assert(R::has_runtime_checks == h.checks && R::has_indirect_vptr == h.indirect && R::has_error_handler && R::has_vptr && !R::has_output && !R::has_deferred_static_rtti, "the registry has the policies it should have");
        sym_assert(has<R, S> && has<R, user_vptr<h.lookup>> && has<R, handler<h.handler>> && has<R, RC> == h.checks && has<R, IV> == h.indirect && (h.extra == 0 || has<R, extras<h.extra == 2 ? 2 : 1>>), "the policy list holds them");
        sym_assert(size<R> == 3 + h.checks + h.indirect + (h.extra > 0) + (I == 12), "and no others");
        constexpr bool x = !std::is_same_v<typename R::template policy<extra_category>, void>; sym_assert(x == (h.extra > 0), "a category of one's own");
        if constexpr (x) { R::template policy<extra_category>::run(); sym_assert(extra == h.extra && extra_where == id<R>(), "its policy sees the registry it is in"); }
    }
    static void run() {
        types(); A a; B b; U u;
        if (h.checks) sym_assert(kind([&] { F::fn(a); }) == NOT_INIT, "runtime checks are made when they are there");
        om::initialize<R>(); int n = (int)sym_pick("what", 5);
        lookup = 0; where = nullptr; sym_assert(F::fn(a) == 1 + 10 * I && lookup == h.lookup && where == id<R>(), "the lookup is the one of the registry, and sees it");
        switch (n) {
        case 0: { A* args[] = {&a, &b}; size_t i = sym_u64("first", 0, 1), j = sym_u64("second", 0, 1); sym_assert(F::fn(*args[i]) == (int)i + 1 + 10 * I, "calls"); sym_assume(i != j); sym_assert(G::fn(*args[i], *args[j]) == 4 - (int)i, "calls"); sym_reach("calls"); break; }
        case 1: { A* args[] = {&a, &b}; size_t i = sym_u64("argument", 0, 1); sym_assert(kind([&] { G::fn(*args[i], *args[i]); }) == (i ? AMBIGUOUS : NO_OVERRIDER), "errors"); sym_reach("errors"); break; }
        case 2: if (h.checks) { sym_assert(kind([&] { F::fn(u); }) == MISSING_CLASS && kind([&] { om::virtual_ptr<A, R> p(u); }) == MISSING_CLASS, "runtime checks are made when they are there"); sym_reach("checked"); } break;
        case 3: { bool caught = kind([&] { om::final_virtual_ptr<R>(static_cast<A&>(b)); }) == FINAL; sym_assert(caught == h.checks, "runtime checks are made when they are there, and only then"); break; }
        default: { // a virtual_ptr made before a second initialize
            om::virtual_ptr<A, R> p(b); om::vptr_type before = p.vptr(); sym_assert(R::template static_vptr<B> == before, "v-table pointers"); for (auto& o : F::fn.overriders) if (o.vp_begin[0] == &typeid(B)) { F::fn.overriders.remove(o); break; }
            om::initialize<R>(); if (h.indirect) { sym_assert(p.vptr() == R::template static_vptr<B> && G::fn(p, a) == 3, "pointers stay valid in a registry with indirect pointers"); sym_reach("indirect"); }
            else { R::template static_vptr<B> = nullptr; sym_assert(p.vptr() == before, "pointers are direct without"); } } }
        for (int i = 0; i < NR; i++) for (int j = 0; j < i; j++) sym_assert(ids[i] != ids[j] || (i == 11 && j == 9), "different policies, different registries");
    }
};
template<class... R> void all(int k) { int i = 0; ((ids[i++] = id<R>()), ...); (void)k; }
}
extern "C" void sym_main() {
    all<R0, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11, R12, R13>(0);
    Prog<R0, 0>::touch(); Prog<R1, 1>::touch(); Prog<R2, 2>::touch(); Prog<R3, 3>::touch(); Prog<R4, 4>::touch(); Prog<R5, 5>::touch(); Prog<R6, 6>::touch(); Prog<R7, 7>::touch(); Prog<R8, 8>::touch(); Prog<R9, 9>::touch(); Prog<R10, 10>::touch(); Prog<R11, 11>::touch(); Prog<R12, 12>::touch(); Prog<R13, 13>::touch();
    sym_assert(holds<Base, S, V1, H1> && holds<R2, S, V1, H2> && holds<R4, S, V1, H1, IV> && holds<R12, S, final_category, V2, H2, RC>, "a policy is replaced in its place, or added at the end");
    sym_assert(std::is_same_v<R1::without<RC>, Base> && std::is_same_v<Base::with<>, Base> && std::is_same_v<Base::without<>, Base> && std::is_same_v<R7::with<E2>, R7> && std::is_same_v<Base::without<extra_category>, Base>, "with and without undo each other");
    using D = om::default_registry; using T = D::with<pol::throw_error_handler>; using N = D::without<pol::output, pol::error_handler>; using X = om::indirect_registry;
    sym_assert(size<T> == size<D> && has<T, pol::throw_error_handler> && !has<T, pol::default_error_handler> && !N::has_error_handler && !N::has_output && size<N> == size<D> - 2 && X::has_indirect_vptr && !D::has_indirect_vptr && size<X> == size<D> + 1 && X::has_output && X::has_error_handler && X::has_vptr, "registries derived from the default one");
    sym_assert(std::is_same_v<D::rtti, pol::std_rtti::fn<D::registry_type>> && std::is_same_v<X::rtti, pol::std_rtti::fn<X::registry_type>> && std::is_same_v<X::vptr, pol::vptr_vector::fn<X::registry_type>> && std::is_same_v<T::policy<pol::type_hash>, pol::fast_perfect_hash::fn<T::registry_type>>, "each policy sees the registry it is in");
    using C = Base::with<counted>; using C2 = C::with<H2, counted, V1>; sym_assert(size<C> == 4 && size<C2> == 4 && has<C2, counted> && has<C2, H2> && !has<C2, H1>, "a policy that is there already is not added again");
    switch (sym_pick("which", 3)) { case 0: break; case 1: om::finalize<C>(); sym_assert(finalized == 1, "a policy is finalized once"); sym_done(); default: om::finalize<C2>(); sym_assert(finalized == 1, "a policy is finalized once"); sym_done(); }
    switch (sym_pick("registry", NR)) {
    case 0: Prog<R0, 0>::run(); break; case 1: Prog<R1, 1>::run(); break; case 2: Prog<R2, 2>::run(); break; case 3: Prog<R3, 3>::run(); break; case 4: Prog<R4, 4>::run(); break; case 5: Prog<R5, 5>::run(); break; case 6: Prog<R6, 6>::run(); break;
    case 7: Prog<R7, 7>::run(); break; case 8: Prog<R8, 8>::run(); break; case 9: Prog<R9, 9>::run(); break; case 10: Prog<R10, 10>::run(); break; case 11: Prog<R11, 11>::run(); break; case 12: Prog<R12, 12>::run(); break; default: Prog<R13, 13>::run(); }
}
