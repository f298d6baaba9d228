// C21: virtual_ptrs of every kind, and embedded v-table pointers, survive re-initialization.
#include "hier.hpp"
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
template<class T> using VP = om::virtual_ptr<T, Reg>; template<class T> using SV = om::shared_virtual_ptr<T, Reg>; template<class T> using UV = om::unique_virtual_ptr<T, Reg>;
struct E0 : om::inplace_vptr_base<E0, Reg> { int e0 = 1; virtual ~E0() {} }; struct E1 : E0, om::inplace_vptr_derived<E1, E0> { int e1 = 2; };
struct F0 : om::inplace_vptr_base<F0, Reg> { int f0 = 1; virtual ~F0() {} }; struct G : E0, F0, om::inplace_vptr_derived<G, E0, F0> { int g = 3; };
struct Id; struct IdS; struct IdE; struct IdF; struct IdU; struct IdX; struct IdR;
using Mp = om::method<Id, int(VP<A>), Reg>; using Ms = om::method<IdS, int(const SV<A>&), Reg>; using Me = om::method<IdE, int(om::virtual_<E0&>), Reg>; using Mf = om::method<IdF, int(om::virtual_<F0&>, VP<A>), Reg>; using Mx = om::method<IdX, int(VP<P>), Reg>; using Mr = om::method<IdR, int(om::virtual_<A&>), Reg>;
template<class T, int D> static int fp(VP<T>) { return D; } template<class T, int D> static int fs(const SV<T>&) { return D; } template<class T, int D> static int fe(T&) { return D; } template<class T, class T2, int D> static int ff(T&, VP<T2>) { return D; }
static Mp::override<fp<A, 0>, fp<B, 1>, fp<M, 2>, fp<V, 3>> r0; static Ms::override<fs<A, 0>, fs<B, 1>, fs<M, 2>, fs<V, 3>> r1; static Me::override<fe<E0, 0>, fe<E1, 1>, fe<G, 2>> r2;
static Mf::override<ff<F0, A, 0>, ff<G, A, 1>, ff<F0, B, 2>, ff<G, B, 3>> r3; static Mx::override<fp<P, 0>> r4; static Mr::override<fe<A, 0>, fe<B, 1>, fe<M, 2>, fe<V, 3>> r5;
template<class Me_, auto F> static om::detail::overrider_info& info() { return Me_::template override_aux<F, decltype(F)>::impl; }
static A oa; static B ob; static M om_; static V ov;
// what is kept: made at the first initialization, or later
static VP<A>* pa[4]; static SV<A>* sa[4]; static UV<A>* ua[4]; static VP<B>* pb; static VP<P>* pp; static VP<const A>* pc; static E0* e[3]; static F0* f[2];
template<class T> static T* keep(T&& x) { return new T(static_cast<T&&>(x)); }
static bool on[3]; // the overriders of B (first two methods and the last), of V, of E1
static void set(bool& is, bool want, om::detail::method_info& m, om::detail::overrider_info& o) { if (is && !want) m.overriders.remove(o); if (!is && want) m.overriders.push_back(o); }
static bool mine[8] = {true, true, true, true, true, true, true, true}; static bool xhere = true; static bool uhere = true;
static om::detail::class_info* pinfo;
static int want(int d) { // which overrider runs for a dynamic class
    return d == 1 ? on[0] ? 1 : 0 : d == 2 ? 2 : d == 3 ? on[1] ? 3 : on[0] ? 1 : 0 : 0; }
static void make() {
    for (int d = 0; d < 4; d++) {
        A& o = d == 0 ? oa : d == 1 ? ob : d == 2 ? static_cast<A&>(om_) : ov;
        if (!pa[d]) pa[d] = keep(VP<A>(o)); else { VP<A> t(*pa[d]); *pa[d] = t; }
        if (!sa[d]) sa[d] = d == 0 ? keep(SV<A>(std::make_shared<A>())) : d == 1 ? keep(SV<A>(om::make_shared_virtual<B, Reg>())) : d == 2 ? keep(SV<A>(SV<M>(std::make_shared<M>()))) : keep(SV<A>(om::final_virtual_ptr<Reg>(std::make_shared<V>())));
        else { SV<A> t; t = *sa[d]; SV<A> u(std::move(t)); *sa[d] = u; }
        if (!ua[d]) ua[d] = d == 0 ? keep(UV<A>(std::make_unique<A>())) : d == 1 ? keep(UV<A>(om::make_unique_virtual<B, Reg>())) : d == 2 ? keep(UV<A>(UV<M>(std::make_unique<M>()))) : keep(UV<A>(om::make_unique_virtual<V, Reg>()));
    }
    if (!pb) pb = keep(om::final_virtual_ptr<Reg>(ob)); else *pb = pa[1]->cast<B>();
    if (!pc) { const A& c = ov; pc = keep(VP<const A>(c)); }
    if (!e[0]) { e[0] = new E0; e[1] = new E1; G* g = new G; e[2] = g; f[0] = new F0; f[1] = g; } else { *e[0] = *e[1]; *f[0] = *f[1]; }
}
static void check() {
    for (int d = 0; d < 4; d++) {
        sym_assert(Mp::fn(*pa[d]) == want(d) && Mr::fn(**pa[d]) == want(d), "a virtual_ptr made before dispatches on the current registrations");
        sym_assert(Ms::fn(*sa[d]) == want(d) && Mp::fn(**sa[d]) == want(d) && sa[d]->vptr() == vptr_of(d), "a shared_virtual_ptr made before dispatches on the current registrations");
        sym_assert(Mp::fn(**ua[d]) == want(d) && ua[d]->vptr() == vptr_of(d), "a unique_virtual_ptr made before dispatches on the current registrations");
    }
    sym_assert(Mp::fn(*pb) == want(1) && pc->vptr() == vptr_of(3), "final and const virtual_ptrs");
    sym_assert(Mp::fn(VP<A>(*pb)) == want(1), "conversions");
    sym_assert(Me::fn(*e[0]) == 0 && Me::fn(*e[1]) == (on[2] ? 1 : 0) && Me::fn(*e[2]) == 2, "an embedded v-table pointer made before dispatches on the current registrations");
    bool b = on[0];
    for (int k = 0; k < 2; k++) sym_assert(Mf::fn(*f[k], *pa[0]) == k && Mf::fn(*f[k], *pb) == (b ? 2 + k : k) && Mf::fn(*f[k], *pa[2]) == k && Mf::fn(*f[k], *pa[3]) == (b ? 2 + k : k), "two virtual parameters");
}
extern "C" void sym_main() {
    on[0] = on[1] = on[2] = true; bool was[3] = {true, true, true};
    for (int step = 0; step < CFG_STEPS; step++) {
        bool h;
        for (int i = 0; i < 3; i++) on[i] = sym_flag(nm("overriders", step, i));
        for (auto* o : {&info<Mp, &fp<B, 1>>(), &info<Ms, &fs<B, 1>>(), &info<Mr, &fe<B, 1>>(), &info<Mf, &ff<F0, B, 2>>(), &info<Mf, &ff<G, B, 3>>()}) { h = was[0]; set(h, on[0], *const_cast<om::detail::method_info*>(o->method), *o); }
        for (auto* o : {&info<Mp, &fp<V, 3>>(), &info<Ms, &fs<V, 3>>(), &info<Mr, &fe<V, 3>>()}) { h = was[1]; set(h, on[1], *const_cast<om::detail::method_info*>(o->method), *o); }
        { h = was[2]; set(h, on[2], Me::fn, info<Me, &fe<E1, 1>>()); }
        for (int i = 0; i < 3; i++) was[i] = on[i];
        bool x = sym_flag(nm("method", step)); // another method: slots move
        if (xhere && !x) Reg::methods.remove(Mx::fn); if (!xhere && x) Reg::methods.push_back(Mx::fn); xhere = x;
        if (step && sym_flag(nm("finalize", step))) { om::finalize<Reg>(); sym_reach("finalized"); }
        sym_assert(attempt([] { om::initialize<Reg>(); }) == NONE, "initialize succeeds");
        if (step) { check(); sym_reach("survived"); }
        make(); check();
        sym_assert(nerr == 0, "no error");
    }
}
