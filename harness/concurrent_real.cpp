// C30, real classes: every kind of argument, virtual_ptrs of every kind, casts.
#define CFG_TLS __thread
#include "hier.hpp"
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/macros.hpp>
template<class T> using VP = om::virtual_ptr<T, Reg>;
template<class T> using SV = om::virtual_ptr<std::shared_ptr<T>, Reg>; template<class T> using UV = om::virtual_ptr<std::unique_ptr<T>, Reg>;
using M_ = M;
BOOST_OPENMETHOD(ref_, (virtual_<A&>, int, VP<A>), int, Reg);
BOOST_OPENMETHOD_OVERRIDE(ref_, (A&, int i, VP<A>), int) { return i; }
BOOST_OPENMETHOD_OVERRIDE(ref_, (B& b, int i, VP<B> p), int) { return next(b, i, p) + 1; }
BOOST_OPENMETHOD_OVERRIDE(ref_, (M_& m, int i, VP<V> p), int) { return (has_next() ? next(m, i, p) : 0) + 2; }
BOOST_OPENMETHOD(sole_, (virtual_<const A*>), int, Reg);
BOOST_OPENMETHOD_OVERRIDE(sole_, (const B* b), int) { return b ? 7 : 0; }
BOOST_OPENMETHOD(shared_, (virtual_<const std::shared_ptr<A>&>, SV<A>), int, Reg);
BOOST_OPENMETHOD_OVERRIDE(shared_, (const std::shared_ptr<A>&, SV<A>), int) { return 1; }
BOOST_OPENMETHOD_OVERRIDE(shared_, (const std::shared_ptr<B>&, SV<M_>), int) { return 2; }
BOOST_OPENMETHOD(unique_, (UV<A>), int, Reg);
BOOST_OPENMETHOD_OVERRIDE(unique_, (UV<A>), int) { return 1; }
BOOST_OPENMETHOD_OVERRIDE(unique_, (UV<M_>), int) { return 2; }
template<class F> static int outcome_(F f) { try { return f(); } catch (Thrown&) { return outcome_of(last.kind); } }
static A oa; static B ob; static M om_; static V ov;
static A* obj(int d) { switch (d) { case DA: return &oa; case DB: return &ob; case DM: return &om_; default: return &ov; } }
static std::unique_ptr<A> make(int d) { switch (d) { case DA: return std::make_unique<A>(); case DB: return std::make_unique<B>(); case DM: return std::make_unique<M>(); default: return std::make_unique<V>(); } }
static std::shared_ptr<A> share(int d) { switch (d) { case DA: return std::make_shared<A>(); case DB: return std::make_shared<B>(); case DM: return std::make_shared<M>(); default: return std::make_shared<V>(); } }
static bool isB(int d) { return d == DB || d == DV; }
static __thread int r[4]; static __thread om::vptr_type v[5]; static __thread const void* seen[2];
__attribute__((noinline)) static void one(int c, int d) {
    A &x = *obj(c), &y = *obj(d);
    VP<A> p(y), q = p; q = VP<A>(x); v[0] = q.vptr(); v[1] = VP<const A>(p).vptr();
    r[0] = outcome_([&] { return ref_(x, 5, p); });
    r[1] = outcome_([&] { return sole_(&x); });
    auto s = share(c); SV<A> sp(share(d)); SV<A> sq = sp; v[2] = sq.vptr();
    r[2] = outcome_([&] { return shared_(s, sq); });
    UV<A> u(make(c)); v[3] = u.vptr(); r[3] = outcome_([&] { return unique_(std::move(u)); });
    if (c == DM) { seen[0] = q.cast<M>().get(); seen[1] = VP<M>(om_).get(); } else seen[0] = seen[1] = nullptr;
    auto f = om::final_virtual_ptr<Reg>(ob); v[4] = f.vptr();
    if (isB(c)) { auto b = om::make_unique_virtual<B, Reg>(); auto h = om::make_shared_virtual<B, Reg>(); if (b.vptr() != v[4] || h.vptr() != v[4]) v[4] = nullptr; }
}
__attribute__((noinline)) static void thread(int c, int d) { sym_freeze(1); one(c, d); sym_freeze(0); }
extern "C" void sym_main() {
    sym_assert(attempt([] { om::initialize<Reg>(); }) == NONE, "initialize succeeds");
    int c = (int)sym_pick("c", NDYN), d = (int)sym_pick("d", NDYN);
    if (sym_flag("warm")) one(c, d);
    thread(c, d);
    sym_assert(v[0] == vptr_of(c) && v[1] == vptr_of(d) && v[2] == vptr_of(d) && v[3] == vptr_of(c) && v[4] == vptr_of(DB), "virtual_ptrs have the v-tables of their objects");
    sym_assert(r[0] == (c == DM && d == DV ? 7 : isB(c) && isB(d) ? 6 : 5), "a call runs the expected overrider");
    sym_assert(r[1] == (isB(c) ? 7 : -1), "a call runs the expected overrider, or fails");
    sym_assert(r[2] == (isB(c) && d == DM ? 2 : 1) && r[3] == (c == DM ? 2 : 1), "a call runs the expected overrider, on smart pointers");
    sym_assert(seen[0] == seen[1], "a cast designates the object");
    sym_reach(r[1] == 7 ? "ran" : "error"); sym_log("r", r[0]);
}
