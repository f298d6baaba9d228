// C16: arguments and results pass through a call unchanged.
#include "hier.hpp"
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/macros.hpp>
inline void intrusive_ptr_add_ref(const A* a) { a->refs++; }
inline void intrusive_ptr_release(const A* a) { if (--a->refs == 0) delete a; }
template<class T> using IP = boost::intrusive_ptr<T>;
struct Big { uint64_t x, y, z; bool operator==(const Big& o) const { return x == o.x && y == o.y && z == o.z; } };
struct Mo { uint64_t v; Mo(uint64_t x) : v(x) {} Mo(Mo&& o) : v(o.v) { o.v = 0; } Mo(const Mo&) = delete; };
static Big any_big(const char* n) { return {sym_u64(n, 0, ~0ull), 7, 9}; }
// what an overrider receives
struct Seen { const A* o[3]; int which; Big big; const void* ref[3]; uint64_t n[4]; } seen;
template<class T> static const A* as_a(const T& x) { return static_cast<const A*>(&x); }
static A oa(-1); static B ob(-1); static M om_(-1); static V ov(-1);
static A* obj(int d) { switch (d) { case DA: return &oa; case DB: return &ob; case DM: return &om_; default: return &ov; } }
static int any_class(const char* n) { return (int)sym_pick(n, NDYN); }
using M_ = M;
using VA = om::virtual_ptr<A, Reg>; template<class T> using VP = om::virtual_ptr<T, Reg>; template<class T> using SV = om::virtual_ptr<std::shared_ptr<T>, Reg>; template<class T> using UV = om::virtual_ptr<std::unique_ptr<T>, Reg>;

// 1: a reference in the middle, values, references and move-only types around it
struct Id1; using M1 = om::method<Id1, uint64_t(uint64_t, const Big&, virtual_<A&>, Big, uint64_t&, Mo, Mo&&), Reg>;
template<class T, int W> static uint64_t f1(uint64_t i, const Big& cb, T& t, Big b, uint64_t& r, Mo m, Mo&& mr) {
    seen.o[0] = as_a(t); seen.which = W; seen.big = b; seen.ref[0] = &cb; seen.ref[1] = &r; seen.ref[2] = &mr; seen.n[0] = i; seen.n[1] = m.v; r ^= 5; return i + 3;
}
static M1::override<f1<A, DA>, f1<B, DB>, f1<M_, DM>, f1<V, DV>> r1;
// 2: pointers, const and not, two virtual parameters separated; a class as result
struct Id2; using M2 = om::method<Id2, Big(virtual_<A*>, uint64_t, virtual_<const A*>, const char*), Reg>;
template<class T, class U, int W> static Big f2(T* t, uint64_t i, const U* u, const char* s) { seen.o[0] = as_a(*t); seen.o[1] = as_a(*u); seen.which = W; seen.n[0] = i; seen.ref[0] = s; return {i, (uint64_t)(uintptr_t)s, W}; }
static M2::override<f2<A, A, 0>, f2<B, A, 1>, f2<M_, V, 2>, f2<V, M_, 3>, f2<M_, A, 4>, f2<V, A, 5>> r2;
// 3: an rvalue reference; a move-only result
struct Id3; using M3 = om::method<Id3, Mo(virtual_<A&&>, Mo), Reg>;
static Mo f3a(A&& t, Mo m) { seen.o[0] = as_a(t); seen.which = DA; return m; } static Mo f3b(B&& t, Mo m) { seen.o[0] = as_a(t); seen.which = DB; return m; }
static Mo f3m(M_&& t, Mo m) { seen.o[0] = as_a(t); seen.which = DM; return m; } static Mo f3v(V&& t, Mo m) { seen.o[0] = as_a(t); seen.which = DV; return m; }
static M3::override<f3a, f3b, f3m, f3v> r3;
// 4: virtual_ptrs by value and by reference; a reference as result
struct Id4; using M4 = om::method<Id4, uint64_t&(VA, uint64_t&, const VA&), Reg>;
template<class T, class U, int W> static uint64_t& f4(VP<T> t, uint64_t& r, const VP<U>& u) { seen.o[0] = as_a(*t); seen.o[1] = as_a(*u); seen.which = W; sym_assert(t.vptr() == vptr_of(W >> 4) && u.vptr() == vptr_of(W & 15), "a virtual_ptr keeps its v-table"); return r; }
static M4::override<f4<A, A, DA * 16 + DA>, f4<B, B, DB * 16 + DB>, f4<M_, V, DM * 16 + DV>, f4<V, M_, DV * 16 + DM>, f4<M_, M_, DM * 16 + DM>> r4;
// 5: shared pointers, plain and virtual; a shared pointer as result
struct Id5; using M5 = om::method<Id5, std::shared_ptr<A>(virtual_<std::shared_ptr<A>>, Mo&&, virtual_<const std::shared_ptr<A>&>), Reg>;
template<class T, class U, int W> static std::shared_ptr<A> f5(std::shared_ptr<T> t, Mo&& m, const std::shared_ptr<U>& u) { seen.o[0] = as_a(*t); seen.o[1] = as_a(*u); seen.which = W; seen.n[0] = m.v; return u; }
static M5::override<f5<A, A, 0>, f5<B, A, 1>, f5<M_, V, 2>, f5<V, M_, 3>, f5<M_, A, 4>, f5<V, A, 5>> r5;
// 6: unique virtual_ptrs; nothing as result
struct Id6; using M6 = om::method<Id6, void(uint64_t, UV<A>, uint64_t, virtual_<std::unique_ptr<A>>, uint64_t), Reg>;
template<class T, class U, int W> static void f6(uint64_t i, UV<T> t, uint64_t j, std::unique_ptr<U> u, uint64_t k) { seen.o[0] = as_a(*t); seen.o[1] = as_a(*u); seen.which = W; seen.n[0] = i; seen.n[1] = j; seen.n[2] = k; }
static M6::override<f6<A, A, 0>, f6<B, A, 1>, f6<M_, V, 2>, f6<V, M_, 3>, f6<M_, A, 4>, f6<V, A, 5>> r6;
// 7: const references; next passes everything on
struct Id7; using M7 = om::method<Id7, uint64_t(virtual_<const A&>, uint64_t&, Mo, virtual_<const A&>), Reg>;
static uint64_t f7a(const A& a, uint64_t& r, Mo m, const A& b) { seen.o[0] = &a; seen.o[1] = &b; seen.ref[0] = &r; seen.n[0] = m.v; seen.which = 0; return r; }
template<class T, class U, int W> static uint64_t f7(const T& t, uint64_t& r, Mo m, const U& u) { seen.o[2] = as_a(t); seen.n[1] = m.v; return M7::next<f7<T, U, W>>(t, r, std::move(m), u); }
static M7::override<f7a, f7<B, A, 1>, f7<M_, M_, 2>, f7<V, A, 3>> r7;
// 8: declared with the macros
BOOST_OPENMETHOD(macro_, (uint64_t, VA, Mo, virtual_<A&>, uint64_t&), uint64_t, Reg);
BOOST_OPENMETHOD_OVERRIDE(macro_, (uint64_t i, VA a, Mo m, A& b, uint64_t& r), uint64_t) { seen.o[0] = a.get(); seen.o[1] = &b; seen.n[0] = i; seen.n[1] = m.v; seen.ref[0] = &r; seen.which = 0; r ^= 1; return i; }
BOOST_OPENMETHOD_OVERRIDE(macro_, (uint64_t i, VP<M_> a, Mo m, A& b, uint64_t& r), uint64_t) { seen.o[2] = a.get(); r ^= 2; sym_assert(has_next(), "there is a next"); return next(i, a, std::move(m), b, r) + 1; }
BOOST_OPENMETHOD_OVERRIDE(macro_, (uint64_t i, VP<V> a, Mo m, V& b, uint64_t& r), uint64_t) { seen.o[2] = a.get(); r ^= 4; return next(i, a, std::move(m), b, r) + 2; }
// 9: three virtual parameters of different kinds
struct Id9; using M9 = om::method<Id9, uint64_t(virtual_<A&>, VA, uint64_t, virtual_<A*>), Reg>;
template<class T, class U, class W_, int W> static uint64_t f9(T& t, VP<U> u, uint64_t i, W_* w) { seen.o[0] = as_a(t); seen.o[1] = as_a(*u); seen.o[2] = as_a(*w); seen.which = W; return i; }
static M9::override<f9<A, A, A, 0>, f9<M_, V, B, 1>, f9<V, M_, M_, 2>, f9<B, A, A, 3>, f9<A, A, V, 4>> r9;

// 10: intrusive pointers, plain and virtual, by value and by reference
struct Id10; using M10 = om::method<Id10, IP<A>(uint64_t, virtual_<IP<A>>, uint64_t&, virtual_<const IP<A>&>, om::virtual_ptr<IP<A>, Reg>, Mo), Reg>;
template<class T, class U, class W_, int W> static IP<A> f10(uint64_t i, IP<T> t, uint64_t& r, const IP<U>& u, om::virtual_ptr<IP<W_>, Reg> w, Mo m) { seen.o[0] = as_a(*t); seen.o[1] = as_a(*u); seen.o[2] = as_a(*w); seen.which = W; seen.n[0] = i; seen.n[1] = m.v; seen.ref[0] = &r; return u; }
static M10::override<f10<A, A, A, 0>, f10<M_, V, A, 1>, f10<A, A, M_, 2>, f10<V, M_, V, 3>, f10<B, A, A, 4>> r10;
// 11: pointers to const
struct Id11; using M11 = om::method<Id11, const A*(om::virtual_ptr<const A, Reg>, Mo&&, virtual_<const std::shared_ptr<const A>&>, const om::virtual_ptr<std::shared_ptr<const A>, Reg>&, uint64_t), Reg>;
template<class T, class U, class W_, int W> static const A* f11(om::virtual_ptr<const T, Reg> t, Mo&& m, const std::shared_ptr<const U>& u, const om::virtual_ptr<std::shared_ptr<const W_>, Reg>& w, uint64_t i) { seen.o[0] = as_a(*t); seen.o[1] = as_a(*u); seen.o[2] = as_a(*w); seen.which = W; seen.n[0] = i; seen.n[1] = m.v; seen.ref[0] = &m; return as_a(*w); }
static M11::override<f11<A, A, A, 0>, f11<M_, V, A, 1>, f11<A, A, M_, 2>, f11<V, M_, V, 3>, f11<B, A, A, 4>> r11;
// what M10 and M11 run: none (-1) if ambiguous
static int of_three(int a, int b, int c) { int b_ = a == DB || a == DV; bool k[5] = {true, a == DM && b == DV, c == DM, a == DV && b == DM && c == DV, (bool)b_};
    if (k[3]) return 3; int n = k[1] + k[2] + k[4]; return n > 1 ? -1 : k[1] ? 1 : k[2] ? 2 : k[4] ? 4 : 0; }
static IP<A> intrusive(int d) { switch (d) { case DA: return new A; case DB: return new B; case DM: return new M_; default: return new V; } }

static bool is_b(int d) { return d == DB || d == DV; }
static int pair_of(int a, int b) { return a == DM && b == DV ? 2 : a == DV && b == DM ? 3 : a == DM ? 4 : a == DV ? 5 : a == DB ? 1 : 0; }
#define SAME(x, y) sym_assert((x) == (y), "an object or reference passed to an overrider is the one passed to the method")
#define VALUE(x, y) sym_assert((x) == (y), "a value passed to an overrider is the one passed to the method")
#define RESULT(x, y) sym_assert((x) == (y), "the result of the call is that of the overrider")
static std::shared_ptr<A> shared(int d) { switch (d) { case DA: return std::make_shared<A>(); case DB: return std::make_shared<B>(); case DM: return std::make_shared<M_>(); default: return std::make_shared<V>(); } }
static std::unique_ptr<A> unique(int d) { switch (d) { case DA: return std::make_unique<A>(); case DB: return std::make_unique<B>(); case DM: return std::make_unique<M_>(); default: return std::make_unique<V>(); } }
extern "C" void sym_main() {
    om::initialize<Reg>();
    uint64_t i = sym_u64("i", 0, ~0ull), j = sym_u64("j", 0, ~0ull), r = sym_u64("r", 0, ~0ull), r0 = r, mv = sym_u64("m", 1, ~0ull);
    Big b = any_big("big"), cb{1, 2, 3}; Mo m(mv), mr(4);
    int c = any_class("c"), d;
    seen = Seen();
    switch (sym_pick("method", 11)) {
    case 0: {
        uint64_t res = M1::fn(i, cb, *obj(c), b, r, std::move(m), std::move(mr));
        RESULT(res, i + 3); SAME(seen.o[0], obj(c)); VALUE(seen.which, c); sym_assert(seen.big == b, "a value passed to an overrider is the one passed to the method"); SAME(seen.ref[0], &cb); SAME(seen.ref[1], &r); SAME(seen.ref[2], &mr);
        VALUE(seen.n[0], i); VALUE(seen.n[1], mv); VALUE(r, r0 ^ 5); VALUE(mr.v, 4); VALUE(m.v, 0); sym_reach("reference"); break; }
    case 1: { d = any_class("d"); const char* s = "text";
        Big res = M2::fn(obj(c), i, obj(d), s);
        SAME(seen.o[0], obj(c)); SAME(seen.o[1], obj(d)); VALUE(seen.which, pair_of(c, d)); VALUE(seen.n[0], i); SAME(seen.ref[0], s); RESULT(res.x, i); RESULT(res.y, (uint64_t)(uintptr_t)s); RESULT(res.z, (uint64_t)pair_of(c, d)); sym_reach("pointer"); break; }
    case 2: { Mo res = M3::fn(std::move(*obj(c)), std::move(m)); SAME(seen.o[0], obj(c)); VALUE(seen.which, c); RESULT(res.v, mv); VALUE(m.v, 0); sym_reach("rvalue"); break; }
    case 3: { d = c == DM ? (sym_flag("mm") ? DM : DV) : c == DV ? DM : c;
        VA p(*obj(c)), q(*obj(d)); uint64_t& res = M4::fn(p, r, q); sym_assert(&res == &r, "the result of the call is that of the overrider"); SAME(seen.o[0], obj(c)); SAME(seen.o[1], obj(d)); VALUE(seen.which, c * 16 + d); VALUE(r, r0); SAME(p.get(), obj(c)); SAME(q.get(), obj(d)); sym_reach("virtual_ptr"); break; }
    case 4: { d = any_class("d"); auto p = shared(c), q = shared(d); auto res = M5::fn(p, std::move(m), q); SAME(seen.o[0], p.get()); SAME(seen.o[1], q.get()); VALUE(seen.which, pair_of(c, d)); VALUE(seen.n[0], mv); RESULT(res, q); sym_assert(p.use_count() == 1 && q.use_count() == 2, "no owner is left behind"); sym_reach("shared"); break; }
    case 5: { d = any_class("d"); auto p = unique(c), q = unique(d); A *pp = p.get(), *qq = q.get(); M6::fn(i, UV<A>(std::move(p)), j, std::move(q), r); SAME(seen.o[0], pp); SAME(seen.o[1], qq); VALUE(seen.which, pair_of(c, d)); VALUE(seen.n[0], i); VALUE(seen.n[1], j); VALUE(seen.n[2], r); sym_reach("unique"); break; }
    case 6: { d = any_class("d"); uint64_t res = M7::fn(*obj(c), r, std::move(m), *obj(d)); SAME(seen.o[0], obj(c)); SAME(seen.o[1], obj(d)); SAME(seen.ref[0], &r); VALUE(seen.n[0], mv); RESULT(res, r0); SAME(seen.o[2], is_b(c) || (c == DM && d == DM) ? obj(c) : nullptr); sym_reach("next"); break; }
    case 7: { d = any_class("d"); uint64_t res = macro_(i, VA(*obj(c)), std::move(m), *obj(d), r); int w = c == DM ? 1 : c == DV && d == DV ? 2 : 0;
        SAME(seen.o[0], obj(c)); SAME(seen.o[1], obj(d)); VALUE(seen.n[0], i); VALUE(seen.n[1], mv); SAME(seen.ref[0], &r); VALUE(r, r0 ^ 1 ^ (w == 1 ? 2 : w == 2 ? 4 : 0)); RESULT(res, i + w); sym_reach("macro"); break; }
    case 8: { d = any_class("d"); int e = any_class("e"); int w;
        bool cand[5] = {true, c == DM && d == DV && is_b(e), c == DV && d == DM && e == DM, is_b(c), e == DV};
        w = cand[2] ? 2 : cand[1] && e == DV ? -1 : cand[1] ? 1 : cand[3] && cand[4] ? -1 : cand[3] ? 3 : cand[4] ? 4 : 0;
        if (w < 0) sym_done();
        uint64_t res = M9::fn(*obj(c), VA(*obj(d)), i, obj(e)); RESULT(res, i); SAME(seen.o[0], obj(c)); SAME(seen.o[1], obj(d)); SAME(seen.o[2], obj(e)); VALUE(seen.which, w); sym_reach("three"); break; }
    case 9: { d = any_class("d"); int e = any_class("e"), w = of_three(c, d, e); if (w < 0) sym_done();
        auto p = intrusive(c), q = intrusive(d), v = intrusive(e); om::virtual_ptr<IP<A>, Reg> vp(v);
        auto res = M10::fn(i, p, r, q, vp, std::move(m)); SAME(seen.o[0], p.get()); SAME(seen.o[1], q.get()); SAME(seen.o[2], v.get()); VALUE(seen.which, w); VALUE(seen.n[0], i); VALUE(seen.n[1], mv); SAME(seen.ref[0], &r); RESULT(res, q); VALUE(m.v, 0);
        sym_assert(p->refs == 1 && q->refs == 2 && v->refs == 2, "no owner is left behind"); sym_reach("intrusive"); break; }
    case 10: { d = any_class("d"); int e = any_class("e"), w = of_three(c, d, e); if (w < 0) sym_done();
        std::shared_ptr<const A> q = shared(d), v = shared(e); om::virtual_ptr<std::shared_ptr<const A>, Reg> vp(v);
        const A* res = M11::fn(om::virtual_ptr<const A, Reg>(*obj(c)), std::move(m), q, vp, i); SAME(seen.o[0], obj(c)); SAME(seen.o[1], q.get()); SAME(seen.o[2], v.get()); VALUE(seen.which, w); VALUE(seen.n[0], i); VALUE(seen.n[1], mv); SAME(seen.ref[0], &m); RESULT(res, v.get()); VALUE(m.v, mv);
        sym_assert(q.use_count() == 1 && v.use_count() == 2, "no owner is left behind"); sym_reach("const"); break; }
    }
    sym_assert(nerr == 0, "no error");
}
