// C20: final constructs trust, and with runtime checks verify, the static type.
#include "hier.hpp"
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
inline void intrusive_ptr_add_ref(const A* a) { a->refs++; }
inline void intrusive_ptr_release(const A* a) { if (--a->refs == 0) delete a; }
// classes that are not polymorphic
struct N0 { int n = 1; int refs = 0; }; struct N1 : N0 { int k = 2; }; struct N2 { long x; }; struct N3 : N2, N1 {};
inline void intrusive_ptr_add_ref(N0* a) { a->refs++; }
inline void intrusive_ptr_release(N0* a) { a->refs--; }
static om::use_classes<N0, N1, N3, Reg> more_;
template<class T> using VP = om::virtual_ptr<T, Reg>;
struct Id; using Ma = om::method<Id, int(VP<A>), Reg>; struct IdN; using Mn = om::method<IdN, int(VP<N0>), Reg>;
static const void* seen; static om::vptr_type seenv;
template<class T, int D> static int body(VP<T> p) { seen = static_cast<A*>(p.get()); seenv = p.vptr(); return D; }
template<class T, int D> static int nbody(VP<T> p) { seen = static_cast<N0*>(p.get()); seenv = p.vptr(); return D; }
static Ma::override<body<A, DA>, body<B, DB>, body<M, DM>, body<V, DV>> r0; static Mn::override<nbody<N0, 0>, nbody<N1, 1>, nbody<N3, 3>> r1;
template<class T> static A* nu() { return new T; }
static A* make(size_t d) { switch (d) { case DA: return new A; case DB: return new B; case DM: return new M; default: return new V; } }
static const std::type_info* ti(size_t d) { switch (d) { case DA: return &typeid(A); case DB: return &typeid(B); case DM: return &typeid(M); default: return &typeid(V); } }
static bool made; // a virtual_ptr came out
template<class T, class P> static void got(const P& p, T* obj, size_t stat, bool keep = true) {
    made = true;
    sym_assert(p.get() == obj && p.vptr() == vptr_of(stat), "a final virtual_ptr designates the object, with the v-table of its static class");
    if constexpr (std::is_same_v<P, VP<T>>) { seen = nullptr; sym_assert(Ma::fn(p) == (int)stat && seen == static_cast<A*>(obj) && seenv == vptr_of(stat), "calls dispatch on the static class"); }
}
template<class T> static void use(T& obj, size_t stat, size_t how) {
    using P = om::virtual_ptr<T, Reg>; using S = std::shared_ptr<T>; using U = std::unique_ptr<T>; using I = boost::intrusive_ptr<T>;
    T* p = &obj;
    switch (how) {
    case 0: got(om::final_virtual_ptr<Reg>(obj), p, stat); break;
    case 1: got(P::final(obj), p, stat); break;
    case 2: { VP<A> a = P::final(obj); made = true; sym_assert(a.get() == p && a.vptr() == vptr_of(stat), "conversion keeps the object and the v-table"); break; }
    case 3: { S s(&obj); got(om::final_virtual_ptr<Reg>(std::move(s)), p, stat); break; }
    case 4: { S s(&obj); got(om::virtual_ptr<S, Reg>::final(S(s)), p, stat); made = true; break; }
    case 5: { U u(&obj); got(om::final_virtual_ptr<Reg>(std::move(u)), p, stat); break; }
    case 6: { I i(&obj); got(om::final_virtual_ptr<Reg>(I(i)), p, stat); break; }
    case 7: { const T& c = obj; auto x = om::final_virtual_ptr<Reg>(c); made = true; sym_assert(x.get() == &c && x.vptr() == vptr_of(stat), "const"); break; }
    case 8: { om::shared_virtual_ptr<A, Reg> q; q = om::final_virtual_ptr<Reg>(S(&obj)); made = true; sym_assert(q.get() == p && q.vptr() == vptr_of(stat), "assigned"); break; }
    case 9: { om::virtual_ptr<U, Reg> q = om::virtual_ptr<U, Reg>::final(U(&obj)); got(q, p, stat); break; }
    }
}
template<class T> static void makes(size_t stat) {
    { auto x = om::make_shared_virtual<T, Reg>(); sym_assert(x.get() && x.vptr() == vptr_of(stat) && x.pointer().use_count() == 1, "make_shared_virtual"); }
    { auto x = om::make_unique_virtual<T, Reg>(); sym_assert(x.get() && x.vptr() == vptr_of(stat), "make_unique_virtual"); }
    { auto x = om::make_boost_intrusive_virtual<T, Reg>(); sym_assert(x.get() && x.vptr() == vptr_of(stat) && x->refs == 1, "make_boost_intrusive_virtual"); }
}
template<class N> static void plain(int d, size_t how) { // never an error: there is no dynamic type to check
    N3 most; N& n = most; om::vptr_type v = Reg::static_vptr<N>; sym_assert(v != nullptr, "v-table");
    seen = nullptr; nerr = 0; using S = std::shared_ptr<N>;
    switch (how) {
    case 0: { auto p = om::final_virtual_ptr<Reg>(n); sym_assert(p.get() == &n && p.vptr() == v, "a class that is not polymorphic"); sym_assert(Mn::fn(p) == d && seen == (N0*)&n && seenv == v, "calls dispatch on the static class"); break; }
    case 1: { auto p = VP<N>::final(n); sym_assert(p.get() == &n && p.vptr() == v, "a class that is not polymorphic"); VP<N0> q = p; sym_assert(Mn::fn(q) == d && q.vptr() == v, "calls dispatch on the static class"); break; }
    case 2: { auto p = om::make_shared_virtual<N, Reg>(); sym_assert(p.get() && p.vptr() == v, "make_shared_virtual"); break; }
    case 3: { auto p = om::make_unique_virtual<N, Reg>(); sym_assert(p.get() && p.vptr() == v, "make_unique_virtual"); break; }
    case 4: { auto s = std::make_shared<N>(); N* raw = s.get(); auto p = om::virtual_ptr<S, Reg>::final(std::move(s)); sym_assert(p.get() == raw && p.vptr() == v && p.pointer().use_count() == 1, "shared_ptr"); break; }
    case 5: { const N& c = n; auto p = om::final_virtual_ptr<Reg>(c); sym_assert(p.get() == &c && p.vptr() == v, "const"); break; }
    }
    sym_assert(nerr == 0, "no error"); sym_reach("plain");
}
extern "C" void sym_main() {
    om::initialize<Reg>();
    switch (sym_pick("kind", 3)) {
    case 0: {
        size_t d = sym_pick("dynamic", NDYN), s = sym_pick("static", NDYN), how = sym_pick("how", 10);
        sym_assume(s == d || s == DA || (s == DB && d == DV)); // the object is of that class, or of a derived one
        A* a = make(d);
        bool mismatch = s != d && Reg::has_runtime_checks;
        errReturns = mismatch && sym_flag("returns"); if (errReturns) { sym_expect_abort(1); sym_reach("abort"); }
        nerr = 0; made = false; bool thrown = false;
        try { switch (s) {
            case DA: use(*a, s, how); break;
            case DB: use(*dynamic_cast<B*>(a), s, how); break;
            case DM: use(*dynamic_cast<M*>(a), s, how); break;
            default: use(*dynamic_cast<V*>(a), s, how); break;
        } } catch (Thrown&) { thrown = true; }
        if (mismatch) {
            sym_assert(thrown && !made && nerr == 1 && last.kind == FINAL && last.a == ti(s) && last.b == ti(d), "a mismatch is reported, with the static and the dynamic types");
            sym_reach("mismatch");
        } else { sym_assert(!thrown && made && nerr == 0, "no error"); sym_reach(s == d ? "match" : "trusted"); }
        break;
    }
    case 1: nerr = 0; makes<A>(DA); makes<B>(DB); makes<M>(DM); makes<V>(DV); sym_assert(nerr == 0, "no error"); break;
    case 2: { size_t how = sym_pick("how", 6); switch (sym_pick("static", 3)) { case 0: plain<N0>(0, how); break; case 1: plain<N1>(1, how); break; default: plain<N3>(3, how); } }
    }
}
