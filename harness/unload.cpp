// C06: libraries are loaded and unloaded: their registration objects (classes, overriders, methods) are constructed and
// destroyed, in any order, any number of times; each initialization reflects exactly those that exist.
#define CFG_MAXN 5
#define CFG_MAXK 8
#define CFG_MAXP 2
#include "world.hpp"
#include <boost/openmethod/policies/std_rtti.hpp>
#include <typeinfo>
#include <new>
struct deferred_std_rtti : pol::deferred_static_rtti { template<class R> struct fn : pol::std_rtti::fn<R> {}; };
using R = om::registry<CFG_RTTI, rec_errors, CFG_POL>;
struct A { virtual ~A() {} int a = 1; }; struct B : virtual A { int b = 2; }; struct C : virtual A { int c = 3; }; struct D : B, C { int d = 4; }; struct E : D { int e = 5; };
constexpr int N = 5;
static A oa; static B ob; static C oc; static D od; static E oe; static A* objs[N] = {&oa, &ob, &oc, &od, &oe};
struct Id; using M1 = om::method<Id, int(virtual_<A&>), R>; using M2 = om::method<Id, int(virtual_<const A&>, virtual_<A*>), R>; using M3 = om::method<Id, int(int, virtual_<B&>), R>;
// a piece of a library: an object that registers something
struct Any { bool here = false; virtual void make() = 0; virtual void end() = 0; void set(bool on) { if (on == here) return; here = on; if (on) make(); else end(); } };
template<class U> struct Piece : Any { alignas(16) static inline char store[sizeof(U)]; void make() override { for (auto& c : store) c = 0; new (store) U; } void end() override { ((U*)store)->~U(); } };
template<class... T> using Set = Piece<om::use_classes<T..., R>>;
template<class M, auto F> using Over = Piece<typename M::template override_impl<F, int>>;
struct MethodPiece : Any { // the method object itself
    MethodPiece() { here = true; }
    void make() override { char* p = (char*)&M3::fn; for (size_t i = 0; i < sizeof(M3); i++) p[i] = 0; new (&M3::fn) M3; } void end() override { M3::fn.~M3(); }
};
static int fA(A&) { return ran++, 0; } static int fB(B&) { return ran++, 1; } static int fC(C&) { return ran++, 2; } static int fD(D&) { return ran++, 3; } static int fE(E&) { return ran++, 4; } static int fB2(B&) { return ran++, 5; }
static int gAA(const A&, A*) { return ran++, 0; } static int gBA(const B&, A*) { return ran++, 1; } static int gAC(const A&, C*) { return ran++, 2; } static int gDD(const D&, D*) { return ran++, 3; } static int gEB(const E&, B*) { return ran++, 4; }
static int hB(int, B&) { return ran++, 0; } static int hE(int, E&) { return ran++, 1; }
// libraries: what they register, and the overriders that need their classes
static Set<A> cA; static Set<A, B> cB; static Set<C, A> cC; static Set<A, B, C, D> cD; static Set<D, E> cE;
static Over<M1, fA> xA; static Over<M1, fB> xB; static Over<M1, fC> xC; static Over<M1, fD> xD; static Over<M1, fE> xE; static Over<M1, fB2> xB2;
static Over<M2, gAA> yAA; static Over<M2, gBA> yBA; static Over<M2, gAC> yAC; static Over<M2, gDD> yDD; static Over<M2, gEB> yEB;
static Over<M3, hB> zB; static Over<M3, hE> zE; static MethodPiece mM;
static constexpr int o1[] = {0, 1, 2, 3, 4, 1}, o2[][2] = {{0, 0}, {1, 0}, {0, 2}, {3, 3}, {4, 1}}, o3[] = {1, 4};
static Any *p1[] = {&xA, &xB, &xC, &xD, &xE, &xB2}, *p2[] = {&yAA, &yBA, &yAC, &yDD, &yEB}, *p3[] = {&zB, &zE};
constexpr int L = 7; // the core, B, C, D, E, more overriders on A, others on B
static const std::initializer_list<Any*> libs[L] = {{&cA}, {&cB, &xB, &yBA}, {&cC, &xC, &yAC}, {&cD, &xD, &yDD}, {&cE, &xE, &yEB, &zE}, {&xA, &yAA}, {&cB, &xB2, &mM, &zB}};
static Graph g; static Spec s1, s2, s3; static bool reg[N]; static Graph now;
static void plan(const bool* on) { // what is registered, from the libraries present
    static const int knows[L][N] = {{1}, {1, 1}, {1, 0, 1}, {1, 1, 1, 1}, {0, 0, 0, 1, 1}, {}, {1, 1}};
    for (int c = 0; c < N; c++) { reg[c] = false; for (int l = 0; l < L; l++) if (on[l] && knows[l][c]) reg[c] = true; }
    now = g; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (!reg[i] || !reg[j]) now.is[i][j] = false;
}
template<class F> static int outcome(F f) {
    nerr = ran = 0; int got = -9; int k = attempt([&] { got = f(); });
    sym_assert(k == NONE ? ran == 1 && nerr == 0 : ran == 0 && nerr == 1, "one overrider runs, or one error is reported");
    return k == NONE ? got : k == NO_OVERRIDER ? -1 : k == AMBIGUOUS ? -2 : k == MISSING_CLASS ? -3 : -9;
}
static void is(int got, int want) { sym_assert(got == want, "calls reflect the current registrations"); sym_reach(got >= 0 ? "ran" : got == -1 ? "no_overrider" : got == -2 ? "ambiguous" : "missing_class"); }
template<class M, auto F, class... T> static void nexts(const Spec& s, int k, T&&... a) {
    if (s.removed[k] || !s.unique(k)) return;
    int w = s.next(now, k); sym_assert((M::template has_next<F>()) == (w >= 0), "has_next reflects the current registrations");
    sym_assert(outcome([&] { return M::template next<F>(a...); }) == w, "next reflects the current registrations"); sym_reach("next");
}
extern "C" void sym_main() {
    g.start(N); g.edge(1, 0); g.edge(2, 0); g.edge(3, 1); g.edge(3, 2); g.edge(4, 3);
    s1.k = 6; for (int i = 0; i < 6; i++) s1.ov[i][0] = o1[i]; s2.np = 2; s2.k = 5; for (int i = 0; i < 5; i++) { s2.ov[i][0] = o2[i][0]; s2.ov[i][1] = o2[i][1]; } s3.k = 2; for (int i = 0; i < 2; i++) s3.ov[i][0] = o3[i];
    mM.set(false); bool on[L] = {}, was = false, init = false;
    for (int step = 0; step < CFG_STEPS; step++) {
        // the core first; then any libraries, whose dependencies are there
        if (step == 0) { on[0] = true; for (int l = 1; l < L; l++) on[l] = sym_flag(nm("loaded", l)); }
        else { int l = (int)sym_pick(nm("change", step), L - 1) + 1; on[l] = !on[l]; }
        plan(on);
        if (on[4]) sym_assume(on[3]); // E's base
        if (on[4]) sym_assume(on[6]); // its overriders of M3
        // libraries share pieces, as inline functions and variables do: a piece is there as long as one of them is
        bool backwards = step && sym_flag(nm("order", step));
        auto apply = [&](int l, bool load) { for (Any* p : libs[l]) { bool w = false; for (int m = 0; m < L; m++) if (on[m]) for (Any* q : libs[m]) w |= p == q; if (w == load) p->set(w); } };
        for (int i = 0; i < L; i++) apply(backwards ? L - 1 - i : i, false);
        if (!mM.here && on[6]) mM.set(true); // a method comes before its overriders
        for (int i = 0; i < L; i++) apply(backwards ? L - 1 - i : i, true);
        for (int i = 0; i < 6; i++) s1.removed[i] = !p1[i]->here; for (int i = 0; i < 5; i++) s2.removed[i] = !p2[i]->here; for (int i = 0; i < 2; i++) s3.removed[i] = !p3[i]->here;
        sym_assert(attempt([] { om::initialize<R>(); }) == NONE, "initialize succeeds on a complete program");
        if (step) sym_reach("changed");
    }
    switch (sym_pick("method", 4)) {
    case 0: { int c = (int)sym_pick("class", N); is(outcome([&] { return M1::fn(*objs[c]); }), reg[c] ? s1.call(now, &c) : -3); break; }
    case 1: { int c[] = {(int)sym_pick("class", N), (int)sym_pick("other", N)}; is(outcome([&] { return M2::fn(*objs[c[0]], objs[c[1]]); }), reg[c[0]] && reg[c[1]] ? s2.call(now, c) : -3); break; }
    case 2: { sym_assume(on[6]); int c = 1 + (int)sym_pick("class", 3); if (c > 1) c++; B* b[] = {nullptr, &ob, nullptr, &od, &oe}; is(outcome([&] { return M3::fn(7, *b[c]); }), reg[c] ? s3.call(now, &c) : -3); break; }
    case 3:
        nexts<M1, fA>(s1, 0, oa); nexts<M1, fB>(s1, 1, ob); nexts<M1, fC>(s1, 2, oc); nexts<M1, fD>(s1, 3, od); nexts<M1, fE>(s1, 4, oe); nexts<M1, fB2>(s1, 5, ob);
        nexts<M2, gAA>(s2, 0, oa, &oa); nexts<M2, gBA>(s2, 1, ob, &oa); nexts<M2, gAC>(s2, 2, oa, &oc); nexts<M2, gDD>(s2, 3, od, &od); nexts<M2, gEB>(s2, 4, oe, &ob);
        if (on[6]) { nexts<M3, hB>(s3, 0, 7, ob); nexts<M3, hE>(s3, 1, 7, oe); }
    }
}
