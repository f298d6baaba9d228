// C14: embedded v-table pointers follow construction, copy, assignment and destruction.
#define CFG_ID_OF(c) ((c) + 1)
#include "world.hpp"
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/policies/std_rtti.hpp>
#include <new>
#include <typeinfo>
#ifndef CFG_VIRTUAL
#define CFG_VIRTUAL 1 // polymorphic classes
#endif
#if CFG_VIRTUAL
#define VIRT virtual
#define RTTI pol::std_rtti
#else
#define VIRT
#define RTTI pol::std_rtti
#endif
#ifndef IN_POLICIES
#define IN_POLICIES
#endif
// the registry needs no vptr policy
#ifdef CFG_INDIRECT
using Reg = om::registry<RTTI, rec_errors, pol::indirect_vptr IN_POLICIES>;
#else
using Reg = om::registry<RTTI, rec_errors IN_POLICIES>;
#endif
enum Cls { E0_, E1_, E2_, F0_, G_, H_, X0_, T_, U_, NCLS };
struct E0; struct E1; struct E2; struct F0; struct G; struct H; struct X0; struct T; struct U;
// is class c derived from (or the same as) b?
static bool isa(int c, int b) {
    static const unsigned up[NCLS] = {1u << E0_, 1u << E0_ | 1u << E1_, 1u << E0_ | 1u << E1_ | 1u << E2_, 1u << F0_, 1u << E0_ | 1u << E1_ | 1u << F0_ | 1u << G_, 1u << E0_ | 1u << E1_ | 1u << F0_ | 1u << G_ | 1u << X0_ | 1u << H_, 1u << X0_,
        1u << E0_ | 1u << E1_ | 1u << F0_ | 1u << X0_ | 1u << T_, 1u << E0_ | 1u << E1_ | 1u << F0_ | 1u << X0_ | 1u << T_ | 1u << U_};
    return up[c] >> b & 1;
}
static void in_e(E0& e, int cls); static void in_f(F0& f, int cls); static void in_x(X0& x, int cls);
struct E0 : om::inplace_vptr_base<E0, Reg> { int e0 = 100; E0() { in_e(*this, E0_); } E0(const E0& o) : om::inplace_vptr_base<E0, Reg>(o), e0(o.e0) { in_e(*this, E0_); } E0& operator=(const E0&) = default; VIRT ~E0() { in_e(*this, E0_); } };
struct E1 : E0, om::inplace_vptr_derived<E1, E0> { int e1 = 101; E1() { in_e(*this, E1_); } E1(const E1& o) : E0(o), om::inplace_vptr_derived<E1, E0>(o) { in_e(*this, E1_); } E1& operator=(const E1&) = default; VIRT ~E1() { in_e(*this, E1_); } };
struct E2 : E1, om::inplace_vptr_derived<E2, E1> { int e2 = 102; E2() { in_e(*this, E2_); } E2(const E2&) = default; E2& operator=(const E2&) = default; VIRT ~E2() { in_e(*this, E2_); } };
struct F0 : om::inplace_vptr_base<F0, Reg> { long f0 = 200; F0() { in_f(*this, F0_); } F0(const F0& o) = default; F0& operator=(const F0&) = default; VIRT ~F0() { in_f(*this, F0_); } };
struct X0 : om::inplace_vptr_base<X0, Reg> { long x0 = 300; X0() { in_x(*this, X0_); } VIRT ~X0() { in_x(*this, X0_); } };
struct G : E1, F0, om::inplace_vptr_derived<G, E1, F0> { int g = 103; G() { in_e(*this, G_); in_f(*this, G_); } G(const G&) = default; G& operator=(const G&) = default; VIRT ~G() { in_e(*this, G_); in_f(*this, G_); } };
struct H : X0, G, om::inplace_vptr_derived<H, X0, G> { int h = 104; H() { in_e(*this, H_); in_f(*this, H_); in_x(*this, H_); } H(const H&) = default; H& operator=(const H&) = default; VIRT ~H() { in_e(*this, H_); in_f(*this, H_); in_x(*this, H_); } };
// three direct bases
struct T : E1, F0, X0, om::inplace_vptr_derived<T, E1, F0, X0> { int t = 105; T() { in_e(*this, T_); in_f(*this, T_); in_x(*this, T_); } T(const T&) = default; T& operator=(const T&) = default; VIRT ~T() { in_e(*this, T_); in_f(*this, T_); in_x(*this, T_); } };
struct U : T, om::inplace_vptr_derived<U, T> { int u = 106; U() { in_e(*this, U_); in_f(*this, U_); in_x(*this, U_); } U(const U&) = default; U& operator=(const U&) = default; VIRT ~U() { in_e(*this, U_); in_f(*this, U_); in_x(*this, U_); } };
struct IdE; struct IdF; struct IdG; struct IdX; struct IdEF; struct IdVp;
using ME = om::method<IdE, int(virtual_<E0&>), Reg>;
static const void* seen;
static int e_0(E0& o) { seen = &o; return E0_; } static int e_1(E1& o) { seen = static_cast<E0*>(&o); return E1_; } static int e_2(E2& o) { seen = static_cast<E0*>(&o); return E2_; }
static int e_g(G& o) { seen = static_cast<E0*>(&o); return G_; } static int e_h(H& o) { seen = static_cast<E0*>(&o); return H_; }
static int e_t(T& o) { seen = static_cast<E0*>(&o); return T_; } static int e_u(U& o) { seen = static_cast<E0*>(&o); return U_; }
static ME::override<e_0, e_1, e_2, e_g, e_h, e_t, e_u> re;
using MF = om::method<IdF, int(virtual_<F0&>), Reg>;
static int f_0(F0& o) { seen = &o; return F0_; } static int f_g(G& o) { seen = static_cast<F0*>(&o); return G_; } static int f_h(H& o) { seen = static_cast<F0*>(&o); return H_; }
static int f_t(T& o) { seen = static_cast<F0*>(&o); return T_; } static int f_u(U& o) { seen = static_cast<F0*>(&o); return U_; }
static MF::override<f_0, f_g, f_h, f_t, f_u> rf;
using MX = om::method<IdX, int(virtual_<X0&>), Reg>;
static int x_0(X0& o) { seen = &o; return X0_; } static int x_h(H& o) { seen = static_cast<X0*>(&o); return H_; }
static int x_t(T& o) { seen = static_cast<X0*>(&o); return T_; } static int x_u(U& o) { seen = static_cast<X0*>(&o); return U_; }
static MX::override<x_0, x_h, x_t, x_u> rx;
using MG = om::method<IdG, int(virtual_<G&>), Reg>;
static int g_g(G& o) { return G_; } static int g_h(H& o) { return H_; }
static MG::override<g_g, g_h> rg;
// two virtual parameters, of different roots
using MEF = om::method<IdEF, int(virtual_<E0&>, int, virtual_<F0&>), Reg>;
static int ef_00(E0&, int, F0&) { return 0; } static int ef_gg(G&, int, G&) { return 1; } static int ef_1g(E1&, int, G&) { return 2; } static int ef_h0(H&, int, F0&) { return 3; } static int ef_hh(H&, int, H&) { return 4; }
static int ef_t0(T&, int, F0&) { return 5; } static int ef_0u(E0&, int, U&) { return 6; }
static MEF::override<ef_00, ef_gg, ef_1g, ef_h0, ef_hh, ef_t0, ef_0u> ref_;
// the overrider to call for (a, b), -1 if ambiguous
static int want_ef(int a, int b) {
    static const int o[7][2] = {{E0_, F0_}, {G_, G_}, {E1_, G_}, {H_, F0_}, {H_, H_}, {T_, F0_}, {E0_, U_}};
    for (int i = 0; i < 7; i++) {
        if (!isa(a, o[i][0]) || !isa(b, o[i][1])) continue;
        bool best = true;
        for (int j = 0; j < 7; j++) if (isa(a, o[j][0]) && isa(b, o[j][1])) best = best && isa(o[i][0], o[j][0]) && isa(o[i][1], o[j][1]);
        if (best) return i;
    }
    return -1;
}
static int do_ef(E0& e, F0& f) { try { return MEF::fn(e, 5, f); } catch (Thrown&) { return -1; } }
using MV = om::method<IdVp, int(om::virtual_ptr<E0, Reg>), Reg>;
using VE = om::virtual_ptr<E0, Reg>; using VF = om::virtual_ptr<F0, Reg>;
static int v_0(om::virtual_ptr<E0, Reg>) { return E0_; } static int v_1(om::virtual_ptr<E1, Reg>) { return E1_; } static int v_2(om::virtual_ptr<E2, Reg>) { return E2_; } static int v_g(om::virtual_ptr<G, Reg>) { return G_; } static int v_h(om::virtual_ptr<H, Reg>) { return H_; }
static int v_t(om::virtual_ptr<T, Reg>) { return T_; } static int v_u(om::virtual_ptr<U, Reg>) { return U_; }
static MV::override<v_0, v_1, v_2, v_g, v_h, v_t, v_u> rvp;
static int calls; static bool probing = true;
static void in_e(E0& e, int cls) {
    if (!probing) return;
    calls++; seen = nullptr; sym_assert(ME::fn(e) == cls && seen == &e, "a call dispatches on the class under construction or destruction");
#if CFG_VIRTUAL
    om::virtual_ptr<E0, Reg> p(e); sym_assert(MV::fn(p) == cls && p.get() == &e, "a virtual_ptr dispatches on the class under construction or destruction");
#endif
}
static void in_f(F0& f, int cls) { if (!probing) return; calls++; seen = nullptr; sym_assert(MF::fn(f) == cls && seen == &f, "a call dispatches on the class under construction or destruction"); }
static void in_x(X0& x, int cls) { if (!probing) return; calls++; seen = nullptr; sym_assert(MX::fn(x) == cls && seen == &x, "a call dispatches on the class under construction or destruction"); }
static void whole(E0* e, F0* f, G* g, X0* x, int cls) {
    if (e) in_e(*e, cls); if (f) in_f(*f, cls); if (x) in_x(*x, cls);
    if (g) sym_assert(MG::fn(*g) == cls, "a call dispatches on the class of the object, through any base");
    if (e && f) sym_assert(do_ef(*e, *f) == want_ef(cls, cls), "a call dispatches on the class of the object, through any base");
}
// objects, built in place; storage is not cleared
alignas(16) static unsigned char raw[2][sizeof(H) > sizeof(U) ? sizeof(H) : sizeof(U)];
static int cls[2] = {-1, -1};
template<class T> static T* at(int i) { return reinterpret_cast<T*>(raw[i]); }
static E0* e_of(int i) { switch (cls[i]) { case E0_: return at<E0>(i); case E1_: return at<E1>(i); case E2_: return at<E2>(i); case G_: return at<G>(i); case H_: return at<H>(i); case T_: return at<T>(i); case U_: return at<U>(i); default: return nullptr; } }
static F0* f_of(int i) { switch (cls[i]) { case F0_: return at<F0>(i); case G_: return at<G>(i); case H_: return at<H>(i); case T_: return at<T>(i); case U_: return at<U>(i); default: return nullptr; } }
static G* g_of(int i) { switch (cls[i]) { case G_: return at<G>(i); case H_: return at<H>(i); default: return nullptr; } }
static E1* e1_of(int i) { switch (cls[i]) { case E1_: return at<E1>(i); case E2_: return at<E2>(i); case G_: return at<G>(i); case H_: return at<H>(i); case T_: return at<T>(i); case U_: return at<U>(i); default: return nullptr; } }
static X0* x_of(int i) { switch (cls[i]) { case X0_: return at<X0>(i); case H_: return at<H>(i); case T_: return at<T>(i); case U_: return at<U>(i); default: return nullptr; } }
static T* t_of(int i) { switch (cls[i]) { case T_: return at<T>(i); case U_: return at<U>(i); default: return nullptr; } }
static void destroy(int i) {
    int c = cls[i]; cls[i] = -1;
    switch (c) { case E0_: at<E0>(i)->~E0(); break; case E1_: at<E1>(i)->~E1(); break; case E2_: at<E2>(i)->~E2(); break; case F0_: at<F0>(i)->~F0(); break; case G_: at<G>(i)->~G(); break; case H_: at<H>(i)->~H(); break; case X0_: at<X0>(i)->~X0(); break; case T_: at<T>(i)->~T(); break; case U_: at<U>(i)->~U(); break; }
}
static void create(int i, int c) {
    destroy(i);
    switch (c) { case E0_: new (raw[i]) E0; break; case E1_: new (raw[i]) E1; break; case E2_: new (raw[i]) E2; break; case F0_: new (raw[i]) F0; break; case G_: new (raw[i]) G; break; case H_: new (raw[i]) H; break; case X0_: new (raw[i]) X0; break; case T_: new (raw[i]) T; break; case U_: new (raw[i]) U; break; }
    cls[i] = c;
}
static void check(int i) {
    if (cls[i] < 0) return;
    whole(e_of(i), f_of(i), g_of(i), x_of(i), cls[i]);
    for (int j = 0; j < 2; j++) if (e_of(i) && f_of(j)) // two objects
        sym_assert(do_ef(*e_of(i), *f_of(j)) == want_ef(cls[i], cls[j]), "two embedded v-table pointers");
    if (t_of(i)) sym_reach("three bases");
#if CFG_VIRTUAL
    if (t_of(i)) { om::virtual_ptr<T, Reg> p(*t_of(i)); sym_assert(MV::fn(p) == cls[i], "a virtual_ptr to a class with three bases"); }
#endif
}
static void step(int i) {
    int a = (int)sym_pick(nm("obj", i), 2), b = 1 - a;
    switch (sym_pick(nm("op", i), 11)) {
    case 0: create(a, (int)sym_pick(nm("class", i), NCLS)); break;
    case 1: destroy(a); break;
    case 2: { if (!e_of(b)) return; E0* s = e_of(b); destroy(a); new (raw[a]) E0(*s); cls[a] = E0_; sym_reach("sliced"); break; } // copies the E0 part
    case 3: { if (!f_of(b)) return; F0* s = f_of(b); destroy(a); new (raw[a]) F0(*s); cls[a] = F0_; break; }
    case 4: { if (!e1_of(b)) return; E1* s = e1_of(b); destroy(a); new (raw[a]) E1(*s); cls[a] = E1_; break; }
    case 5: { if (cls[b] != H_ && cls[b] != G_ && cls[b] != E2_ && cls[b] != T_ && cls[b] != U_) return; destroy(a); if (cls[b] == T_) new (raw[a]) T(*at<T>(b)); else if (cls[b] == U_) new (raw[a]) U(*at<U>(b)); else if (cls[b] == H_) new (raw[a]) H(*at<H>(b)); else if (cls[b] == G_) new (raw[a]) G(static_cast<G&&>(*at<G>(b))); else new (raw[a]) E2(*at<E2>(b)); cls[a] = cls[b]; break; }
    case 6: { if (!e_of(a) || !e_of(b)) return; *e_of(a) = *e_of(b); sym_reach("assigned"); break; }
    case 7: { if (!f_of(a) || !f_of(b)) return; *f_of(a) = static_cast<F0&&>(*f_of(b)); break; }
    case 8: { if (!g_of(a) || !g_of(b)) return; *g_of(a) = *g_of(b); break; }
    case 9: { if (!e1_of(a) || !e1_of(b)) return; *e1_of(a) = *e1_of(b); break; }
    case 10: { if (!t_of(a) || !t_of(b)) return; *t_of(a) = *t_of(b); break; }
    }
}
extern "C" void sym_main() {
    om::initialize<Reg>();
    for (int i = 0; i < CFG_STEPS; i++) { step(i); check(0); check(1); sym_assert(nerr == 0 || last.kind == AMBIGUOUS, "no error"); }
    destroy(0); destroy(1);
    if (calls) sym_reach("called");
}
