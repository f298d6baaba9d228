// C05, C06: real classes, registered by use_classes objects that list them in several ways, in any order and several
// times; as they come and go, initialize reflects the classes' real inheritance.
#define CFG_MAXN 8
#define CFG_MAXK 8
#define CFG_MAXP 2
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <typeinfo>
#include <new>
#ifndef CFG_POL
#define CFG_POL pol::vptr_map<>
#endif
struct A { virtual ~A() {} int a = 1; }; struct B : virtual A { int b = 2; }; struct C : virtual A { int c = 3; }; struct D : B, C { int d = 4; };
struct E { virtual int pure() const = 0; virtual ~E() {} int e = 5; }; // abstract
struct F : E, D { int pure() const override { return 1; } int f = 6; }; struct G : F { int g = 7; };
using R = om::registry<pol::std_rtti, rec_errors, CFG_POL>;
constexpr int N = 7;
static A oa; static B ob; static C oc; static D od; static F of; static G og;
static A* objs[N] = {&oa, &ob, &oc, &od, nullptr, &of, &og};
static type_id ids[N] = {&typeid(A), &typeid(B), &typeid(C), &typeid(D), &typeid(E), &typeid(F), &typeid(G)};
static om::vptr_type* svp[N] = {&R::static_vptr<A>, &R::static_vptr<B>, &R::static_vptr<C>, &R::static_vptr<D>, &R::static_vptr<E>, &R::static_vptr<F>, &R::static_vptr<G>};
static int tag;
struct Id; using M1 = om::method<Id, int(virtual_<A&>), R>; using M2 = om::method<Id, int(virtual_<const A&>, virtual_<A*>), R>; using M3 = om::method<Id, int(int, virtual_<E&>), R>;
template<class T, int W> static int f1(T&) { ran++; return W; } template<class T, class U, int W> static int f2(const T&, U*) { ran++; return W; } template<class T, int W> static int f3(int, T&) { ran++; return W; }
static M1::override<f1<A, 0>, f1<B, 1>, f1<C, 2>, f1<D, 3>, f1<G, 4>> r1;
static M2::override<f2<A, A, 0>, f2<B, A, 1>, f2<A, C, 2>, f2<D, F, 3>, f2<F, D, 4>, f2<G, G, 5>> r2;
static M3::override<f3<F, 0>> r3;
// the registrations, and the direct bases that they tell
struct Any { virtual void on() = 0; virtual void off() = 0; };
template<class... T> struct Set : Any {
    using U = om::use_classes<T..., R>; alignas(16) static inline char store[sizeof(U)]; // registration objects are static
    void on() override { for (auto& c : store) c = 0; new (store) U; } void off() override { ((U*)store)->~U(); }
};
static Set<A, B, C, D, E, F, G> s0; static Set<G, F, E, D, C, B, A> s1; static Set<A, B> s2; static Set<C, A> s3; static Set<D, B, C> s4; static Set<E, F, D> s5; static Set<G, F> s6;
static Set<A, D, G> s7; static Set<D, C, B, A> s8; static Set<E, G, F, D> s9;
static Any* sets[] = {&s0, &s1, &s2, &s3, &s4, &s5, &s6, &s7, &s8, &s9};
enum { AB = 1, AC = 2, BD = 4, CD = 8, DF = 16, EF = 32, FG = 64, ALL = 127 };
static const int tells[] = {ALL, ALL, AB, AC, BD | CD, DF | EF, FG, 0, AB | AC | BD | CD, DF | EF | FG};
static Graph g; static Spec p1, p2;
template<class F> static void one(int want, F f) {
    nerr = ran = 0; int got = -1; int k = attempt([&] { got = f(); });
    if (want >= 0) { sym_assert(k == NONE && got == want && ran == 1, "calls reflect the inheritance of the registered classes"); sym_reach("ran"); }
    else { sym_assert(k == (want == -1 ? NO_OVERRIDER : AMBIGUOUS) && nerr == 1 && ran == 0, "calls reflect the inheritance of the registered classes"); sym_reach(want == -1 ? "no_overrider" : "ambiguous"); }
}
static int pick_object(const char* n) { int c = (int)sym_pick(n, N - 1); return c >= 4 ? c + 1 : c; }
static void verify() {
    nerr = 0; auto comp = om::initialize<R>(); sym_assert(nerr == 0, "a complete program is accepted");
    auto r = comp.report;
    static bool first = true; static size_t cells, ni, am;
    if (first) { cells = r.cells; ni = r.not_implemented; am = r.ambiguous; first = false; }
    sym_assert(r.cells == cells && r.not_implemented == ni && r.ambiguous == am, "the report does not depend on how the classes are registered");
    for (int i = 0; i < N; i++) if (i != 4) sym_assert(R::policy<pol::vptr>::dynamic_vptr(*objs[i]) == *svp[i], "the objects of a class have its v-table");
}
extern "C" void sym_main() {
    g.start(N); g.edge(1, 0); g.edge(2, 0); g.edge(3, 1); g.edge(3, 2); g.edge(5, 4); g.edge(5, 3); g.edge(6, 5);
    static const int o1[] = {0, 1, 2, 3, 6}, o2[][2] = {{0, 0}, {1, 0}, {0, 2}, {3, 5}, {5, 3}, {6, 6}};
    p1.k = 5; for (int i = 0; i < 5; i++) p1.ov[i][0] = o1[i]; p2.np = 2; p2.k = 6; for (int i = 0; i < 6; i++) { p2.ov[i][0] = o2[i][0]; p2.ov[i][1] = o2[i][1]; }
    // a sequence of registrations that tell all the bases
    int seq[CFG_LEN], used = 0, told = 0, len = 0; constexpr int S = sizeof(sets) / sizeof(*sets);
    for (int i = 0; i < CFG_LEN; i++) { int k = (int)sym_pick(nm("set", i), S + 1); if (k == S) break; sym_assume(!(used >> k & 1)); used |= 1 << k; told |= tells[k]; seq[len++] = k; }
    sym_assume(told == ALL);
    for (int i = 0; i < len; i++) sets[seq[i]]->on();
    verify();
    // some go, some come
    for (int s = 0; s < CFG_STEPS; s++) {
        int k = (int)sym_pick(nm("change", s), S); bool was = used >> k & 1; int now = 0; used ^= 1 << k;
        for (int i = 0; i < S; i++) if (used >> i & 1) now |= tells[i]; sym_assume(now == ALL);
        if (was) { sets[k]->off(); sym_reach("removed"); } else { sets[k]->on(); sym_reach("added"); }
        verify();
    }
    switch (sym_pick("method", 3)) {
    case 0: { int c = pick_object("class"); int a[] = {c}; one(p1.call(g, a), [&] { return M1::fn(*objs[c]); }); break; }
    case 1: { int c = pick_object("class"), d = pick_object("other"); int a[] = {c, d}; one(p2.call(g, a), [&] { return M2::fn(*objs[c], objs[d]); }); break; }
    case 2: { E& e = sym_flag("g") ? static_cast<E&>(og) : static_cast<E&>(of); one(0, [&] { return M3::fn(5, e); }); break; }
    }
}
