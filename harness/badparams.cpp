// C03: a failed call reports the dynamic classes of its virtual arguments, whatever the kind of its parameters and however many.
#include "hier.hpp"
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/macros.hpp>
using VA = om::virtual_ptr<A, Reg>; using VB = om::virtual_ptr<B, Reg>; using VP_ = om::virtual_ptr<P, Reg>;
using SV = om::virtual_ptr<std::shared_ptr<A>, Reg>; using UV = om::virtual_ptr<std::unique_ptr<A>, Reg>;
static A oa; static B ob; static M om_; static V ov;
static A* obj(int d) { switch (d) { case DA: return &oa; case DB: return &ob; case DM: return &om_; default: return &ov; } }
static P* pobj(int d) { return d == DM ? static_cast<P*>(&om_) : &ov; }
static type_id cls(int d) { switch (d) { case DA: return &typeid(A); case DB: return &typeid(B); case DM: return &typeid(M); default: return &typeid(V); } }
static std::shared_ptr<A> shared(int d) { switch (d) { case DA: return std::make_shared<A>(); case DB: return std::make_shared<B>(); case DM: return std::make_shared<M>(); default: return std::make_shared<V>(); } }
static std::unique_ptr<A> unique(int d) { switch (d) { case DA: return std::make_unique<A>(); case DB: return std::make_unique<B>(); case DM: return std::make_unique<M>(); default: return std::make_unique<V>(); } }
static int any(const char* n) { return (int)sym_pick(n, NDYN); }
// each method has two overriders that make some calls ambiguous, and most have none
struct i1; using M1 = om::method<i1, int(int, virtual_<A&>, char, virtual_<A&>), Reg>;
struct i2; using M2 = om::method<i2, int(virtual_<A*>, const char*, virtual_<const A*>), Reg>;
struct i3; using M3 = om::method<i3, int(VA, int, const VA&), Reg>;
struct i4; using M4 = om::method<i4, int(virtual_<std::shared_ptr<A>>, int, virtual_<const std::shared_ptr<A>&>), Reg>;
struct i5; using M5 = om::method<i5, int(int, SV, const SV&), Reg>;
struct i6; using M6 = om::method<i6, int(UV, long, virtual_<std::unique_ptr<A>>), Reg>;
struct i7; using M7 = om::method<i7, int(virtual_<A&&>, virtual_<const A&>), Reg>;
struct i8; using M8 = om::method<i8, int(VP_, virtual_<P&>), Reg>;
BOOST_OPENMETHOD(mac, (virtual_<A&>, int, VA), int, Reg);
template<class T, class U, class X = int> static int f1(int, T&, char, U&) { return 1; }  static M1::override<f1<A, B>, f1<B, A>> o1;
template<class T, class U> static int f2(T*, const char*, const U*) { return 1; }          static M2::override<f2<A, B>, f2<B, A>> o2;
template<class T> using R = om::virtual_ptr<T, Reg>;
template<class T, class U> static int f3(R<T>, int, const R<U>&) { return 1; }             static M3::override<f3<A, B>, f3<B, A>> o3;
template<class T, class U> static int f4(std::shared_ptr<T>, int, const std::shared_ptr<U>&) { return 1; } static M4::override<f4<A, B>, f4<B, A>> o4;
template<class T, class U> static int f5(int, R<std::shared_ptr<T>>, const R<std::shared_ptr<U>>&) { return 1; } static M5::override<f5<A, B>, f5<B, A>> o5;
template<class T, class U> static int f6(R<std::unique_ptr<T>>, long, std::unique_ptr<U>) { return 1; } static M6::override<f6<A, B>, f6<B, A>> o6;
template<class T, class U> static int f7(T&&, const U&) { return 1; }                      static M7::override<f7<A, B>, f7<B, A>> o7;
static int f8a(R<P>, V&) { return 1; } static int f8b(R<V>, P&) { return 1; }              static M8::override<f8a, f8b> o8;
BOOST_OPENMETHOD_OVERRIDE(mac, (A&, int, R<B>), int) { return 1; } BOOST_OPENMETHOD_OVERRIDE(mac, (B&, int, VA), int) { return 1; }
// as many as an error has room for, and more
#define REP4(x) x, x, x, x
struct i16; using M16 = om::method<i16, int(REP4(virtual_<A&>), REP4(VA), REP4(virtual_<const A&>), REP4(virtual_<A*>)), Reg>;
struct i18; using M18 = om::method<i18, int(REP4(virtual_<A&>), int, REP4(VA), REP4(virtual_<const A&>), REP4(virtual_<A*>), VA, int, virtual_<A&>), Reg>;

static type_id want_method; static size_t want_arity; static type_id want[16]; static int want_kind;
static void check() {
    sym_assert(nerr == 1, "one error is reported"); sym_assert(last.kind == want_kind, "the error is of the right kind");
    sym_assert(last.method == want_method, "the error identifies the method"); sym_assert(last.arity == want_arity, "the error gives the number of virtual arguments");
    for (size_t p = 0; p < want_arity && p < 16; p++) sym_assert(last.types[p] == want[p], "the error gives the type ids of the virtual arguments, in order");
}
static bool is_b(int d) { return d == DB || d == DV; }
// returns whether the call is to be made: those for which there is an overrider are left out
template<class M_> static bool expect(int c, int d) { want_method = &typeid(M_); want_arity = 2; want[0] = cls(c); want[1] = cls(d); want_kind = is_b(c) && is_b(d) ? AMBIGUOUS : NO_OVERRIDER; return is_b(c) == is_b(d); }
template<class F> static void failing(F f, const char* label) {
    nerr = 0; bool stopped = false; try { f(); } catch (Thrown&) { stopped = true; }
    sym_assert(stopped && nerr == 1, "the exception thrown by the handler propagates"); sym_reach(label); sym_reach(want_kind == AMBIGUOUS ? "ambiguous" : "no_overrider");
}
extern "C" void sym_main() {
    om::initialize<Reg>(); on_error = check;
    int which = (int)sym_pick("method", 11), c = any("c"), d = any("d"), n;
    A &a = *obj(c), &b = *obj(d);
    switch (which) {
    case 0: if (expect<M1>(c, d)) failing([&] { M1::fn(1, a, 'x', b); }, "reference"); break;
    case 1: if (expect<M2>(c, d)) failing([&] { M2::fn(&a, "x", &b); }, "pointer"); break;
    case 2: if (expect<M3>(c, d)) { VA p(a), q(b); if (c == DB && sym_flag("static")) { VB r(ob); p = r; } failing([&] { M3::fn(p, 1, q); }, "virtual_ptr"); } break;
    case 3: if (expect<M4>(c, d)) { auto p = shared(c), q = shared(d); failing([&] { M4::fn(p, 1, q); }, "shared_ptr"); } break;
    case 4: if (expect<M5>(c, d)) { SV p(shared(c)), q(shared(d)); failing([&] { M5::fn(1, p, q); }, "shared_virtual_ptr"); } break;
    case 5: if (expect<M6>(c, d)) { UV p(unique(c)); auto q = unique(d); failing([&] { M6::fn(std::move(p), 2, std::move(q)); }, "unique_ptr"); } break;
    case 6: if (expect<M7>(c, d)) failing([&] { M7::fn(std::move(a), b); }, "rvalue"); break;
    case 7: { sym_assume(c >= DM && d >= DM); P &p = *pobj(c), &q = *pobj(d); want_method = &typeid(M8); want_arity = 2; want[0] = cls(c); want[1] = cls(d); want_kind = c == DV && d == DV ? AMBIGUOUS : NO_OVERRIDER;
        if (c == d) failing([&] { M8::fn(R<P>(p), q); }, "offset base"); break; }
    case 8: using MM = om::method<BOOST_OPENMETHOD_ID(mac), int(virtual_<A&>, int, VA), Reg>; if (expect<MM>(c, d)) failing([&] { mac(a, 1, VA(b)); }, "macro"); break;
    case 9: { A *x[16]; for (n = 0; n < 16; n++) { int e = n & 1 ? c : n & 4 ? d : (n >> 3); x[n] = obj(e); want[n] = cls(e); } want_method = &typeid(M16); want_arity = 16; want_kind = NO_OVERRIDER;
        failing([&] { M16::fn(*x[0], *x[1], *x[2], *x[3], *x[4], *x[5], *x[6], *x[7], *x[8], *x[9], *x[10], *x[11], x[12], x[13], x[14], x[15]); }, "sixteen"); break; }
    case 10: { A *x[18]; for (n = 0; n < 18; n++) { int e = n & 1 ? c : n & 4 ? d : (n >> 3 & 1); x[n] = obj(e); if (n < 16) want[n] = cls(e); } want_method = &typeid(M18); want_arity = 18; want_kind = NO_OVERRIDER;
        failing([&] { M18::fn(*x[0], *x[1], *x[2], *x[3], 7, *x[4], *x[5], *x[6], *x[7], *x[8], *x[9], *x[10], *x[11], x[12], x[13], x[14], x[15], *x[16], 8, *x[17]); }, "eighteen"); break; }
    }
}
