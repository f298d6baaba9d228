// C28: a program of three translation units written with the macros behaves as declared.
#define CFG_MAXN 8
#define CFG_MAXK 8
#define CFG_MAXP 3
#include "world.hpp"
#include "macros.hpp"
#include <typeinfo>
using namespace zoo;
int trail[16]; int ntrail; Diary zoo::diary;
using R = BOOST_OPENMETHOD_DEFAULT_REGISTRY;
using Poke = BOOST_OPENMETHOD_TYPE(poke, (virtual_ptr<Animal>, int&), int);
using Meet = BOOST_OPENMETHOD_TYPE(poke, (virtual_ptr<Animal>, virtual_ptr<Animal>), int);
using Name = BOOST_OPENMETHOD_TYPE(name, (long, virtual_<const Animal&>), const int*);
namespace farm { using Farm = BOOST_OPENMETHOD_TYPE(poke, (virtual_<Animal&>, long), long); }
BOOST_OPENMETHOD_CLASSES(Animal, Dog);
BOOST_OPENMETHOD_REGISTER(om::use_classes<Dog, Bulldog>);
static Animal a0; static Dog d0; static Cat c0; static Catdog cd0; static Bulldog b0;
Animal& animal(int c) { switch (c) { case 0: return a0; case 1: return d0; case 2: return c0; case 3: return cd0; default: return b0; } }
static type_id ids[5] = {&typeid(Animal), &typeid(Dog), &typeid(Cat), &typeid(Catdog), &typeid(Bulldog)};
static int class_of(type_id t) { for (int i = 0; i < 5; i++) if (ids[i] == t) return i; return -1; }
struct Failed { int kind; };
static void on_error_(const om::default_registry::error_handler::error_variant& e) {
    if (std::holds_alternative<om::no_overrider>(e)) throw Failed{NO_OVERRIDER}; if (std::holds_alternative<om::ambiguous_call>(e)) throw Failed{AMBIGUOUS}; throw Failed{99};
}
static Graph g; static Spec spec[4]; static om::detail::overrider_info* info[4][5];
static void collect(int m, om::detail::method_info& mi, Spec s) { // each overrider is in the method it was declared for, once
    int n = 0; for (auto& o : mi.overriders) { n++; int at = -1;
        for (int k = 0; k < s.k; k++) { bool same = true; for (int p = 0; p < s.np; p++) if (class_of(o.vp_begin[p]) != s.ov[k][p]) same = false; if (same) at = k; }
        sym_assert(at >= 0 && !info[m][at], "an overrider is added to the method with its name that accepts its arguments, once"); info[m][at] = &o;
    }
    sym_assert(n == s.k, "all the overriders of a method are added to it"); spec[m] = s;
}
template<class F> static int attempt_(F f) { try { f(); } catch (Failed& e) { return e.kind; } return NONE; }
// what poke returns, and adds to its argument, from overrider o on
static int n_; static int poked(int o) { n_++; if (o == 0) return 1; static const int code[] = {1, 2, 3, 4, 5}; const Spec& s = spec[0];
    if (o == 3) return 10 * (n_ > 50 ? poked(0) : poked(1)) + 4;
    int x = s.next(g, o); return x >= 0 ? 10 * poked(x) + code[o] : code[o]; }
static int book; static int met(int o) { static const int code[] = {1, 2, 3, 4, 5}; if (o == 0) book++; if (o == 3) book += 10; if (o == 0) return 1; int x = spec[1].next(g, o); return x >= 0 ? 10 * met(x) + code[o] : code[o]; }
extern "C" void sym_main() {
    g.start(5); g.edge(1, 0); g.edge(2, 0); g.edge(3, 1); g.edge(3, 2); g.edge(4, 1);
    Spec p; p.k = 5; for (int i = 0; i < 5; i++) p.ov[i][0] = i;
    Spec q; q.np = 2; q.k = 5; static const int qs[5][2] = {{0, 0}, {1, 0}, {0, 2}, {1, 2}, {3, 3}}; for (int i = 0; i < 5; i++) { q.ov[i][0] = qs[i][0]; q.ov[i][1] = qs[i][1]; }
    Spec r; r.k = 2; r.ov[0][0] = 1; r.ov[1][0] = 2;
    Spec f; f.k = 4; f.ov[0][0] = 0; f.ov[1][0] = 2; f.ov[2][0] = 1; f.ov[3][0] = 3;
    int nm_ = 0; for (auto& m : R::methods) { (void)m; nm_++; } sym_assert(nm_ == 4, "there are four methods");
    collect(0, Poke::fn, p); collect(1, Meet::fn, q); collect(2, Name::fn, r); collect(3, farm::Farm::fn, f);
    R::error_handler::set(on_error_);
    int m = (int)sym_pick("method", 4); Spec& s = spec[m];
    om::detail::method_info* mi[] = {&Poke::fn, &Meet::fn, &Name::fn, &farm::Farm::fn};
    for (int o = 0; o < s.k; o++) if (!sym_flag(nm("present", o))) { mi[m]->overriders.remove(*info[m][o]); s.removed[o] = true; }
    sym_assert(attempt_([] { om::initialize(); }) == NONE, "the program is complete");
    int c = (int)sym_pick("class", 5), d = s.np == 2 ? (int)sym_pick("other", 5) : 0; int args[] = {c, d};
    int want = s.call(g, args), kind = want == -1 ? NO_OVERRIDER : want == -2 ? AMBIGUOUS : NONE;
    bool b = sym_flag("unit"); int got = 0, k = NONE;
    switch (m) {
    case 0: { // 3 calls overrider 0 or 1 directly; 4 calls itself
        int n = (int)sym_u64("n", 0, 200), n0 = n;
        if (want == 3 && s.removed[1]) sym_assume(n > 50); // the next of an overrider that is not registered is not set
        k = attempt_([&] { got = b ? pokeB(c, n) : pokeA(c, n); }); sym_assert(k == kind, "a method called by its name runs its overriders");
        if (k == NONE) { n_ = n0; if (want == 4 && n_ > 100) { n_ -= 100; sym_reach("fn"); } if (want == 3) sym_reach("overrider"); int w = poked(want); sym_assert(got == w && n == n_ && trail[0] == want, "next, has_next, fn and the containers designate the right overriders"); }
        break; }
    case 1: k = attempt_([&] { got = b ? meetB(c, d) : meetA(c, d); }); sym_assert(k == kind, "an overload runs its own overriders");
        if (k == NONE) { int w = met(want); sym_assert(got == w && trail[0] == want && diary.read() == book, "an overload runs its own overriders"); sym_reach("overload"); } break;
    case 2: { const int* x = nullptr; k = attempt_([&] { x = b ? nameB(c) : nameA(c); }); sym_assert(k == kind, "an overrider may be in any namespace");
        if (k == NONE) sym_assert(ntrail == 1 && trail[0] == want && x == (want == 0 ? &dynamic_cast<Dog&>(animal(c)).d : &dynamic_cast<Cat&>(animal(c)).c), "an overrider may be in any namespace"); break; }
    case 3: { long x = (long)sym_u64("x", 0, 1000000), y = 0; k = attempt_([&] { y = b ? farmB(c, x) : farmA(c, x); });
        int nx = want >= 0 ? s.next(g, want) : 0; if (want == 1 || want == 2) kind = nx >= 0 ? NONE : nx == -1 ? NO_OVERRIDER : AMBIGUOUS;
        sym_assert(k == kind, "methods of the same name in several namespaces are distinct");
        if (k == NONE) sym_assert(y == (want == 0 ? x : want == 1 ? x + 3 : want == 2 ? x + 6 : nx >= 0 ? 1 : x * 2) && trail[0] == want, "methods of the same name in several namespaces are distinct"); break; }
    }
    sym_reach(k == NONE ? "ran" : k == NO_OVERRIDER ? "no_overrider" : "ambiguous");
}
