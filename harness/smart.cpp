// C13: a smart virtual_ptr owns its object as the smart pointer does, and keeps its v-table in step.
#ifndef CFG_SP
#define CFG_SP 0
#endif
#include "hier.hpp"
#if CFG_SP == 0
#include <boost/openmethod/interop/std_shared_ptr.hpp>
template<class T> using SP = std::shared_ptr<T>;
#define COPYABLE 1
template<class T> auto fresh(int id) { return std::make_shared<T>(id); }
template<class T, class... U> auto make_virtual(U&&... u) { return om::make_shared_virtual<T, Reg>(std::forward<U>(u)...); }
#elif CFG_SP == 1
#include <boost/openmethod/interop/std_unique_ptr.hpp>
template<class T> using SP = std::unique_ptr<T>;
#define COPYABLE 0
template<class T> auto fresh(int id) { return std::make_unique<T>(id); }
template<class T, class... U> auto make_virtual(U&&... u) { return om::make_unique_virtual<T, Reg>(std::forward<U>(u)...); }
#else
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
inline void intrusive_ptr_add_ref(const A* a) { a->refs++; }
inline void intrusive_ptr_release(const A* a) { if (--a->refs == 0) delete a; }
template<class T> using SP = boost::intrusive_ptr<T>;
#define COPYABLE 1
template<class T> auto fresh(int id) { return SP<T>(new T(id)); }
template<class T, class... U> auto make_virtual(U&&... u) { return om::make_boost_intrusive_virtual<T, Reg>(std::forward<U>(u)...); }
#endif
using VA = om::virtual_ptr<SP<A>, Reg>; using VB = om::virtual_ptr<SP<B>, Reg>; using VM = om::virtual_ptr<SP<M>, Reg>; using VV = om::virtual_ptr<SP<V>, Reg>;
// objects: made[id] is the dynamic class, addr[id] the A subobject
static int made[16]; static A* addr[16]; static int nobj;
static int held[16]; // owners
template<class P> static P keep(P p, int d) { made[nobj] = d; addr[nobj] = p.get(); nobj++; return p; }
static SP<A> any_fresh(int d) {
    switch (d) { case DA: return keep(fresh<A>(nobj), d); case DB: return keep(fresh<B>(nobj), d); case DM: return keep(fresh<M>(nobj), d); default: return keep(fresh<V>(nobj), d); }
}
// methods: what an overrider receives
static const void* seen; static om::vptr_type seenv; static long seen_owners;
template<class P> static long owners(const P& p) {
#if CFG_SP == 0
    return p.pointer().use_count();
#elif CFG_SP == 1
    return 1;
#else
    return p->refs;
#endif
}
template<class P> static void see(const P& p) { seen = static_cast<A*>(p.get()); seenv = p.vptr(); seen_owners = owners(p); }
struct ByVal; struct ByRef; struct ByRvr; struct RawVal; struct RawRef;
using MVal = om::method<ByVal, int(VA), Reg>;
static int va(VA p) { see(p); return DA; } static int vb(VB p) { see(p); return DB; } static int vm(VM p) { see(p); return DM; } static int vv(VV p) { see(p); return DV; }
static MVal::override<va, vb, vm, vv> r1;
#if COPYABLE
using MRef = om::method<ByRef, int(const VA&), Reg>;
static int ra(const VA& p) { see(p); return DA; } static int rb(const VB& p) { see(p); return DB; } static int rm(const VM& p) { see(p); return DM; } static int rv(const VV& p) { see(p); return DV; }
static MRef::override<ra, rb, rm, rv> r2;
#endif
template<class P> static void see_raw(const P& p) {
    seen = static_cast<A*>(p.get());
}
// raw smart pointers as virtual arguments
#if COPYABLE
using MRawRef = om::method<RawRef, int(virtual_<const SP<A>&>), Reg>;
static int sa(const SP<A>& p) { see_raw(p); return DA; } static int sb(const SP<B>& p) { see_raw(p); return DB; } static int sm(const SP<M>& p) { see_raw(p); return DM; }
static int sv(const SP<V>& p) { see_raw(p); return DV; }
#if CFG_SP == 0
static MRawRef::override<sa, sb, sm, sv> r3;
#else
static MRawRef::override<sa, sb, sm, sv> r3;
#endif
#endif
using MRawVal = om::method<RawVal, int(virtual_<SP<A>>), Reg>;
static int wa(SP<A> p) { see_raw(p); return DA; } static int wb(SP<B> p) { see_raw(p); return DB; } static int wm(SP<M> p) { see_raw(p); return DM; } static int wv(SP<V> p) { see_raw(p); return DV; }
static MRawVal::override<wa, wb, wm, wv> r4;

// objects of classes that are not registered: with runtime checks nothing takes them
struct XA : A { using A::A; }; struct XM : M { using M::M; };
template<class T, class F> static void refused(F f) {
    destroyed[15] = 0;
    { SP<T> x; if constexpr (std::is_same_v<T, A>) x = fresh<XA>(15); else x = fresh<XM>(15);
      nerr = 0; sym_assert(attempt([&] { f(x); }) == MISSING_CLASS && nerr == 1, "an object of an unregistered class is refused"); nerr = 0; }
    sym_assert(destroyed[15] == 1, "the object refused is destroyed once"); sym_reach("refused");
}
// an object made with arguments of all kinds
struct Own { uint64_t v; Own(uint64_t x) : v(x) {} Own(Own&& o) : v(o.v) { o.v = 0; } Own(const Own& o) : v(o.v + 1) {} };
struct Made : A { Own a, b, c; const Own* l; const Own* k; uint64_t n; bool forwarded; template<class X, class Y, class Z, class W> Made(int id, X&& x, Y&& y, Z&& z, uint64_t i, W&& w) : A(id), a(std::forward<X>(x)), b(y), c(z), l(&y), k(&z), n(i + w.v), forwarded(std::is_same_v<X, Own> && std::is_same_v<Y, Own&> && std::is_same_v<Z, const Own&> && std::is_same_v<W, Own>) {} };
static om::use_classes<A, Made, Reg> made_cls;
static void make(int id) {
    Own x(sym_u64("x", 1, ~0ull)), y(sym_u64("y", 1, ~0ull - 1)), z(sym_u64("z", 1, ~0ull - 1)); uint64_t xv = x.v, yv = y.v, zv = z.v, n = sym_u64("n", 0, ~0ull); const Own& cz = z;
    auto p = make_virtual<Made>(id, std::move(x), y, cz, n, Own(7));
    sym_assert(p->forwarded && p->a.v == xv && x.v == 0 && p->b.v == yv + 1 && y.v == yv && p->c.v == zv + 1 && z.v == zv && p->l == &y && p->k == &z && p->n == n + 7 && p.vptr() == Reg::static_vptr<Made>, "the object is made with the arguments"); sym_reach("made");
}
struct State {
    VA p, q; VM m; VB b; SP<A> s; SP<M> t;
    int mp = -1, mq = -1, mm = -1, mb = -1, ms = -1, mt = -1;
    template<class VPtr> void one(const VPtr& x, int o) {
        using E = typename VPtr::element_type;
        if (o < 0) { sym_assert(x.get() == nullptr && !x.pointer(), "an empty smart virtual_ptr holds no object"); sym_assert(x.vptr() == nullptr, "an empty smart virtual_ptr has a null v-table pointer"); return; }
        sym_assert(static_cast<A*>(x.get()) == addr[o] && &*x == x.get() && x.operator->() == x.get() && x.pointer().get() == x.get(), "the smart virtual_ptr holds the object it was last given");
        sym_assert(x.vptr() == vptr_of(made[o]), "the v-table is that of the class of the object held");
#if COPYABLE
        sym_assert(owners(x) == held[o], "as many owners as pointers");
#endif
    }
    void check() {
        for (int i = 0; i < nobj; i++) held[i] = 0;
        for (int o : {mp, mq, mm, mb, ms, mt}) if (o >= 0) held[o]++;
        for (int i = 0; i < nobj; i++) sym_assert(destroyed[i] == (held[i] ? 0 : 1), "an object is destroyed once, when its last owner goes");
        one(p, mp); one(q, mq); one(m, mm); one(b, mb);
        sym_assert(s.get() == (ms < 0 ? nullptr : addr[ms]) && (mt < 0 ? t.get() == nullptr : static_cast<A*>(t.get()) == addr[mt]), "raw smart pointers keep their object");
        sym_assert((p == q) == (mp == mq) && (p != q) == (mp != mq), "comparison agrees with the object pointers");
    }
    int is_m(int o) { return o >= 0 && made[o] == DM; } int is_b(int o) { return o >= 0 && (made[o] == DB || made[o] == DV); }
    void steal(int& to, int& from) { to = from; from = -1; }
    // how many operations there are
    static constexpr int NOPS = (COPYABLE ? 43 : 26) + Reg::has_runtime_checks;
    void refuse(const char* n) {
        switch (sym_pick(n, COPYABLE ? 11 : 6)) { // everything stays as it was
        case 0: refused<A>([&](SP<A>& x) { p = std::move(x); }); break;
        case 1: refused<A>([&](SP<A>& x) { VA y(std::move(x)); }); break;
        case 2: refused<M>([&](SP<M>& x) { p = std::move(x); }); break;
        case 3: refused<M>([&](SP<M>& x) { VA y(std::move(x)); }); break;
        case 4: refused<M>([&](SP<M>& x) { m = std::move(x); }); break;
        case 5: refused<A>([&](SP<A>& x) { MRawVal::fn(std::move(x)); }); break;
#if COPYABLE
        case 6: refused<A>([&](SP<A>& x) { p = x; }); break;
        case 7: refused<A>([&](SP<A>& x) { const SP<A>& c = x; q = c; }); break;
        case 8: refused<M>([&](SP<M>& x) { p = x; }); break;
        case 9: refused<M>([&](SP<M>& x) { VM y(x); }); break;
        case 10: refused<A>([&](SP<A>& x) { MRawRef::fn(x); }); break;
#endif
        }
    }
    void step(int i) {
        int d; const char* dn = nm("class", i);
        int op = (int)sym_pick(nm("op", i), NOPS);
        if (Reg::has_runtime_checks && op == NOPS - 1) { refuse(nm("refused", i)); return; }
        switch (op) {
        // moves: all smart pointers
        case 0: d = (int)sym_pick(dn, NDYN); mp = nobj; p = any_fresh(d); break;
        case 1: d = (int)sym_pick(dn, NDYN); ms = nobj; s = any_fresh(d); break;
        case 2: p = std::move(s); steal(mp, ms); break;
        case 3: p = nullptr; mp = -1; break;
        case 4: p = std::move(q); steal(mp, mq); break;
        case 5: q = std::move(p); steal(mq, mp); break;
        case 6: { VA x(std::move(s)); steal(mp, ms); p = std::move(x); sym_assert(!x.get() && !x.vptr(), "moving leaves the source null"); break; }
        case 7: mm = nobj; m = keep(make_virtual<M>(nobj), DM); break;
        case 8: p = std::move(m); steal(mp, mm); break;
        case 9: if (is_m(mp)) { m = std::move(p).template cast<M>(); steal(mm, mp); } break;
        case 10: { VA x(std::move(m)); q = std::move(x); steal(mq, mm); break; }
        case 11: { using std::swap; swap(p, q); std::swap(mp, mq); break; }
        case 12: mt = nobj; t = keep(fresh<M>(nobj), DM); break;
        case 13: m = std::move(t); steal(mm, mt); break;
        case 14: p = std::move(t); steal(mp, mt); break;
        case 15: if (mm >= 0) { VM x(std::move(m)); p = std::move(x).template cast<A>(); steal(mp, mm); break; }
        case 16: s = SP<A>(); ms = -1; break;
        case 17: if (is_b(mp)) { b = std::move(p).template cast<B>(); steal(mb, mp); } break;
        case 18: { VA x(std::move(b)); steal(mq, mb); q = std::move(x); break; }
        case 19: mb = nobj; { VB x(keep(make_virtual<B>(nobj), DB)); b = std::move(x); } break;
        case 20: if (mp >= 0) { int o = mp; mp = -1; seen = nullptr; int r = MVal::fn(std::move(p)); sym_assert(r == made[o] && seen == addr[o] && seenv == vptr_of(made[o]), "a call by value hands the object over"); sym_assert(!p.get() && !p.vptr(), "moved into the call"); sym_reach("by value"); } break;
        case 21: { VA x(nullptr); p = std::move(x); mp = -1; break; }
        case 22: { VA x; q = std::move(x); mq = -1; break; }
        case 23: p = SP<A>(); mp = -1; break;
        case 24: { int o = ms; if (o >= 0) { ms = -1; seen = nullptr; int r = MRawVal::fn(std::move(s)); sym_assert(r == made[o] && seen == addr[o], "a call by value hands the object over"); s = SP<A>(); sym_reach("raw by value"); } break; }
        case 25: { VA& self = p; p = std::move(self); break; } // like the smart pointers, unchanged
#if COPYABLE
        case 26: p = s; mp = ms; break;
        case 27: p = q; mp = mq; break;
        case 28: { VA x(s); q = x; mq = ms; break; }
        case 29: { const SP<A>& cs = s; VA x(cs); p = x; mp = ms; break; }
        case 30: { const SP<A>& cs = s; p = cs; mp = ms; break; }
        case 31: p = m; mp = mm; break;
        case 32: { const VM& cm = m; p = cm; mp = mm; break; }
        case 33: { VA x(m); q = x; mq = mm; break; }
        case 34: if (is_m(mp)) { m = p.template cast<M>(); mm = mp; } break;
        case 35: if (is_m(mp)) { const VA& cp = p; m = cp.template cast<M>(); mm = mp; } break;
        case 36: s = p.pointer(); ms = mp; break;
        case 37: p = t; mp = mt; break;
        case 38: { VA x(t); p = x; mp = mt; break; }
        case 39: if (mp >= 0) { seen = nullptr; int h = held[mp]; int r = MRef::fn(p); sym_assert(r == made[mp] && seen == addr[mp] && seenv == vptr_of(made[mp]), "a call by reference designates the object"); sym_assert(seen_owners >= h && seen_owners <= h + 1, "owners during a call"); sym_reach("by reference"); } break;
        case 40: if (mp >= 0) { seen = nullptr; int h = held[mp]; int r = MVal::fn(p); sym_assert(r == made[mp] && seen == addr[mp] && seenv == vptr_of(made[mp]) && seen_owners > h, "a call by value shares the object"); } break;
#if CFG_SP == 0
        case 41: if (ms >= 0) { seen = nullptr; int r = MRawRef::fn(s); sym_assert(r == made[ms] && seen == addr[ms], "a call by reference designates the object"); } break;
#else
        case 41: if (ms >= 0) { seen = nullptr; int r = MRawRef::fn(s); sym_assert(r == made[ms] && seen == addr[ms], "a call by reference designates the object"); } break;
#endif
        case 42: { VA& self = p; p = self; const VA& cself = p; p = cself; break; }
#endif
        }
    }
};
extern "C" void sym_main() {
    om::initialize<Reg>(); uint64_t live = sym_heap_live();
    if (sym_flag("make")) { make(14); sym_assert(destroyed[14] == 1 && sym_heap_live() == live, "destroyed"); sym_done(); }
    {
        State st; st.check();
        if (sym_flag("full")) { // start with objects everywhere, some shared
            st.mp = nobj; st.p = any_fresh((int)sym_pick("class_p", NDYN)); st.mm = nobj; st.m = keep(make_virtual<M>(nobj), DM);
            st.mb = nobj; st.b = keep(make_virtual<B>(nobj), DB); st.mt = nobj; st.t = keep(fresh<M>(nobj), DM);
#if COPYABLE
            st.q = st.p; st.mq = st.mp; st.s = st.p.pointer(); st.ms = st.mp;
#else
            st.mq = nobj; st.q = any_fresh(DV); st.ms = nobj; st.s = any_fresh(DB);
#endif
            st.check();
        }
        for (int i = 0; i < CFG_STEPS; i++) { st.step(i); st.check(); sym_assert(nerr == 0, "no error"); }
        // plain pointers from smart ones
        if (st.mp >= 0) { om::virtual_ptr<A, Reg> w(st.p); sym_assert(w.get() == addr[st.mp] && w.vptr() == vptr_of(made[st.mp]), "a plain virtual_ptr from a smart one"); sym_reach("held"); st.check(); } else sym_reach("null");
    }
    for (int i = 0; i < nobj; i++) sym_assert(destroyed[i] == 1, "every object is destroyed exactly once");
    sym_assert(sym_heap_live() == live, "nothing is leaked");
}
