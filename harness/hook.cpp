// C09: the v-table comes from boost_openmethod_vptr, if there is one for the class and the registry, else from the vptr policy.
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#ifndef CFG_CHECKS
#define CFG_CHECKS
#endif
namespace {
// one: no polymorphic class, no vptr policy
struct RegN : om::registry<pol::std_rtti, rec_errors CFG_CHECKS> {};
// two and three: polymorphic classes; a policy for the classes without a hook
struct RegP : om::registry<pol::std_rtti, pol::vptr_map<boost::mp11::mp_quote<ord_map>>, rec_errors CFG_CHECKS> {};
struct RegQ : om::registry<pol::std_rtti, pol::vptr_map<boost::mp11::mp_quote<ord_map>>, pol::indirect_vptr, rec_errors CFG_CHECKS> {};
int hooked_n, hooked_p, hooked_q;

struct X { int x = 9; }; struct N { int kind; N(int k = 0) : kind(k) {} }; struct N1 : N { N1(int k = 1) : N(k) {} int n1 = 1; }; struct N2 : X, N { N2() : N(2) {} int n2 = 2; }; struct N3 : X, N1 { N3() : N1(3) {} int n3 = 3; };
om::vptr_type boost_openmethod_vptr(const N& n, RegN*) { hooked_n++; const om::vptr_type v[] = {RegN::static_vptr<N>, RegN::static_vptr<N1>, RegN::static_vptr<N2>, RegN::static_vptr<N3>}; return v[n.kind]; }

struct P { virtual ~P() {} int p = 0; }; // no hook
struct H : X, P { int kind; H(int k = 1) : kind(k) {} }; struct H1 : H { H1() : H(2) {} int h1 = 2; }; struct H2 : virtual H { H2() : H(3) {} int h2 = 3; }; struct O : P { int o = 4; };
om::vptr_type boost_openmethod_vptr(const H& h, RegP*) { hooked_p++; const om::vptr_type v[] = {nullptr, RegP::static_vptr<H>, RegP::static_vptr<H1>, RegP::static_vptr<H2>}; return v[h.kind]; }
const om::vptr_type& boost_openmethod_vptr(const H& h, RegQ*) { hooked_q++; const om::vptr_type* const v[] = {nullptr, &RegQ::static_vptr<H>, &RegQ::static_vptr<H1>, &RegQ::static_vptr<H2>}; return *v[h.kind]; }

struct U : om::use_classes<N, N1, N2, N3, RegN> {}; U u1; om::use_classes<P, H, H1, H2, O, RegP> u2; om::use_classes<P, H, H1, H2, O, RegQ> u3;
const void* seen;
template<int W, class... T> int hit(const T&... t) { const void* s[] = {static_cast<const void*>(&t)...}; seen = s[0]; return W; }
struct a_; struct b_; struct c_; struct d_; struct e_; struct f_; struct g_; struct h_;
// the hierarchy without virtual functions
template<class T, int W> int fr(T& t) { return hit<W>((N&)t); } template<class T, int W> int fc(const T& t) { return hit<W>((const N&)t); } template<class T, int W> int fp(T* t) { return hit<W>((N&)*t); } template<class T, int W> int fm(T&& t) { return hit<W>((N&)t); } template<class T, int W> int fs(std::shared_ptr<T> t) { return hit<W>((N&)*t); }
template<class T, class V, int W> int f2(T& t, int, const V&) { return hit<W>((N&)t); }
using NR = om::method<a_, int(virtual_<N&>), RegN>; static NR::override<fr<N, 0>, fr<N1, 1>, fr<N2, 2>> onr;
using NC = om::method<b_, int(virtual_<const N&>), RegN>; static NC::override<fc<N, 0>, fc<N1, 1>, fc<N2, 2>, fc<N3, 3>> onc;
using NP = om::method<c_, int(virtual_<N*>), RegN>; static NP::override<fp<N, 0>, fp<N1, 1>, fp<N2, 2>> onp;
using NM = om::method<d_, int(virtual_<N&&>), RegN>; static NM::override<fm<N, 0>, fm<N1, 1>, fm<N2, 2>, fm<N3, 3>> onm;
using NS = om::method<e_, int(virtual_<std::shared_ptr<N>>), RegN>; static NS::override<fs<N, 0>, fs<N1, 1>, fs<N2, 2>> ons;
using N22 = om::method<f_, int(virtual_<N&>, int, virtual_<const N&>), RegN>; static N22::override<f2<N, N, 0>, f2<N1, N, 1>, f2<N, N1, 2>, f2<N1, N1, 3>, f2<N2, N2, 4>, f2<N3, N, 5>> on2;
using NV = om::method<g_, int(om::virtual_ptr<N, RegN>), RegN>; template<class T, int W> int fv(om::virtual_ptr<T, RegN> t) { return hit<W>((N&)*t); } static NV::override<fv<N, 0>, fv<N1, 1>, fv<N2, 2>> onv;
// the others
template<class R, int B> struct Prog {
    template<class T, int W> static int pr(T& t) { return hit<B + W>((P&)t); } template<class T, int W> static int hr(T& t) { return hit<B + W>((P&)t); } template<class T, int W> static int hv(om::virtual_ptr<T, R> t) { return hit<B + W>((P&)*t); } template<class T, int W> static int hs(om::virtual_ptr<std::shared_ptr<T>, R> t) { return hit<B + W>((P&)*t); }
    using MP = om::method<a_, int(virtual_<P&>), R>; static inline typename MP::template override<pr<P, 0>, pr<H, 1>, pr<H1, 2>, pr<H2, 3>> op;
    using MH = om::method<b_, int(virtual_<H&>), R>; static inline typename MH::template override<hr<H, 1>, hr<H1, 2>, hr<H2, 3>> oh;
    using MV = om::method<c_, int(om::virtual_ptr<P, R>), R>; static inline typename MV::template override<hv<P, 0>, hv<H, 1>, hv<H1, 2>, hv<H2, 3>> ov;
    using MS = om::method<d_, int(om::virtual_ptr<std::shared_ptr<P>, R>), R>; static inline typename MS::template override<hs<P, 0>, hs<H, 1>, hs<H1, 2>, hs<H2, 3>> os;
    static void touch() { (void)&op; (void)&oh; (void)&ov; (void)&os; }
    static void run(int& hooked, int& other) {
        om::initialize<R>(); if (sym_flag("again")) om::initialize<R>();
        H h; H1 h1; H2 h2; P p; O o; P* ps[] = {&p, &h, &h1, &h2, &o}; H* hs_[] = {nullptr, &h, &h1, &h2}; const int want[] = {0, 1, 2, 3, 0};
        hooked = other = 0; size_t i = sym_u64("object", 0, 4), j = sym_u64("hooked object", 1, 3);
        switch (sym_pick("how", 8)) {
        case 0: sym_assert(MP::fn(*ps[i]) == B + want[i] && seen == ps[i] && hooked == 0, "by reference to a class without hook"); sym_reach("policy"); break;
        case 1: sym_assert(MH::fn(*hs_[j]) == B + (int)j && seen == ps[j] && hooked == 1, "by reference to a class with one"); sym_reach("hook"); break;
        case 2: if (sym_flag("base")) { om::virtual_ptr<P, R> v(*hs_[j]); sym_assert(hooked == 1 && MV::fn(v) == B + (int)j && seen == ps[j] && v.get() == ps[j], "to a base without hook"); sym_reach("base"); break; } else { om::virtual_ptr<H, R> v(*hs_[j]); sym_assert(hooked == 1 && MV::fn(v) == B + (int)j && seen == ps[j] && hooked == 1, "the pointer keeps the v-table"); break; }
        case 3: { om::virtual_ptr<P, R> v(hs_[j]); sym_assert(hooked == 1 && MV::fn(v) == B + (int)j && seen == ps[j] && v.get() == ps[j], "converted to a class without hook"); om::virtual_ptr<P, R> w(*ps[i]); sym_assert(hooked == 1 && MV::fn(w) == B + want[i], "and not"); sym_reach("pointer"); break; }
        case 4: { om::virtual_ptr<P, R> v(*ps[i]); v = *hs_[j]; sym_assert(hooked == 1 && MV::fn(v) == B + (int)j && seen == ps[j], "assigned"); v = ps[i]; sym_assert(hooked == 1 && MV::fn(v) == B + want[i] && seen == ps[i], "and again"); v = hs_[j]; sym_assert(hooked == 2 && MV::fn(v) == B + (int)j, "and again"); break; }
        case 5: { std::shared_ptr<H> s; switch (sym_pick("class", 3)) { case 0: s = std::make_shared<H>(); break; case 1: s = std::make_shared<H1>(); break; default: s = std::make_shared<H2>(); } int k = s->kind;
            om::virtual_ptr<std::shared_ptr<H>, R> v(s); sym_assert(hooked == 1 && MS::fn(v) == B + k && seen == (P*)s.get(), "shared"); om::virtual_ptr<std::shared_ptr<P>, R> w(s); sym_assert(hooked == 2 && MS::fn(w) == B + k, "converted"); std::shared_ptr<P> sp = s; om::virtual_ptr<std::shared_ptr<P>, R> x(sp); sym_assert(hooked == 2 && MS::fn(x) == B + k, "from a class without hook"); w = nullptr; w = s; sym_assert(hooked == 3 && MS::fn(w) == B + k, "assigned"); w = std::move(s); sym_assert(hooked == 4 && MS::fn(w) == B + k && !s, "moved"); sym_reach("shared"); break; }
        case 6: { std::unique_ptr<H> s; switch (sym_pick("class", 3)) { case 0: s = std::make_unique<H>(); break; case 1: s = std::make_unique<H1>(); break; default: s = std::make_unique<H2>(); } int k = s->kind; om::virtual_ptr<std::unique_ptr<H>, R> v(std::move(s)); sym_assert(hooked == 1 && MV::fn(v) == B + k, "unique"); break; }
        default: if constexpr (R::has_indirect_vptr) { om::virtual_ptr<P, R> v(*hs_[j]); om::finalize<R>(); om::initialize<R>(); sym_assert(MV::fn(v) == B + (int)j && seen == ps[j], "an indirect pointer stays valid"); sym_reach("indirect"); }
            else { om::virtual_ptr<H, R> v(*hs_[j]); auto f = om::final_virtual_ptr<R>(h1); sym_assert(hooked == 1 && MV::fn(f) == B + 2 && v.template cast<H>().vptr() == v.vptr(), "final"); } }
        sym_assert(other == 0, "the hook is the one for the registry");
    }
};
using PP = Prog<RegP, 10>; using PQ = Prog<RegQ, 20>;
void nodes() {
    om::initialize<RegN>(); if (sym_flag("again")) om::initialize<RegN>();
    N n; N1 n1; N2 n2; N3 n3; N* ns[] = {&n, &n1, &n2, &n3}; size_t i = sym_u64("object", 0, 3), j = sym_u64("other", 0, 3); hooked_n = 0; const int as[] = {0, 1, 2, 1};
    const int two[4][4] = {{0, 2, 0, 2}, {1, 3, 1, 3}, {0, 2, 4, 2}, {5, -1, 5, -1}};
    switch (sym_pick("how", 8)) {
    case 0: sym_assert(NR::fn(*ns[i]) == as[i] && seen == ns[i] && hooked_n == 1, "by reference"); sym_reach("nodes"); break;
    case 1: sym_assert(NC::fn(*ns[i]) == (int)i && seen == ns[i] && hooked_n == 1, "by const reference"); break;
    case 2: sym_assert(NP::fn(ns[i]) == as[i] && seen == ns[i] && hooked_n == 1, "by pointer"); break;
    case 3: sym_assert(NM::fn(std::move(*ns[i])) == (int)i && seen == ns[i] && hooked_n == 1, "by rvalue reference"); break;
    case 4: { std::shared_ptr<N> s; switch (sym_pick("class", 4)) { case 0: s = std::make_shared<N>(); break; case 1: s = std::make_shared<N1>(); break; case 2: s = std::make_shared<N2>(); break; default: s = std::make_shared<N3>(); } sym_assert(NS::fn(s) == as[s->kind] && seen == s.get() && hooked_n == 1, "by shared pointer"); break; }
    case 5: if (two[i][j] >= 0) { sym_assert(N22::fn(*ns[i], 1, *ns[j]) == two[i][j] && seen == ns[i] && hooked_n == 2, "two arguments"); } else { sym_assert(attempt([&] { N22::fn(*ns[i], 1, *ns[j]); }) == AMBIGUOUS && hooked_n >= 2, "two arguments"); sym_reach("ambiguous"); } break;
    case 6: { N2 x; N1 y; sym_assert(NV::fn(om::final_virtual_ptr<RegN>(x)) == 2 && seen == (N*)&x && NV::fn(om::final_virtual_ptr<RegN>(y)) == 1 && NR::fn(x) == 2, "final"); break; }
    default: om::finalize<RegN>(); om::initialize<RegN>(); sym_assert(NR::fn(*ns[i]) == as[i], "again"); }
    sym_assert(hooked_p == 0 && hooked_q == 0, "the hook is the one for the registry");
}
}
extern "C" void sym_main() {
    PP::touch(); PQ::touch();
    switch (sym_pick("program", 3)) { case 0: nodes(); break; case 1: PP::run(hooked_p, hooked_q); break; default: PQ::run(hooked_q, hooked_p); }
}
