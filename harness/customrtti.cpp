// C23: type information comes from the rtti policy only: opaque ids, several per class, read when initialize runs if deferred.
#include "world.hpp"
namespace {
struct A { type_id type; int self = 0; A(type_id t) : type(t) {} virtual void* as(int c) { return c == 0 ? this : nullptr; } };
struct B : virtual A { int b = 1; B(type_id t) : A(t) {} void* as(int c) override { return c == 1 ? this : A::as(c); } };
struct C : virtual A { int c = 2; C(type_id t) : A(t) {} void* as(int c) override { return c == 2 ? this : A::as(c); } };
struct D : B, C { int d = 3; D(type_id t) : A(t), B(t), C(t) {} void* as(int c) override { return c == 3 ? (void*)this : c == 1 ? (void*)(B*)this : c == 2 ? (void*)(C*)this : A::as(c); } };
template<class T> constexpr int number = std::is_same_v<T, A> ? 0 : std::is_same_v<T, B> ? 1 : std::is_same_v<T, C> ? 2 : 3;
constexpr int NC = 4;
constexpr bool derives[NC][NC] = {{1}, {1, 1}, {1, 0, 1}, {1, 1, 1, 1}};
uint64_t id[NC][2], identity[NC], invalid; int pattern[NC], calls[NC]; bool ready, started, early;
// the ids: any pairwise distinct values, two per class
void ids() {
    ready = true;
#if CFG_IDS == 0 // free values
    int al = (int)sym_pick("aliased", NC + 1);
    for (int c = 0; c < NC; c++) { id[c][0] = sym_u64(nm("id", c), 0, ~0ull); id[c][1] = id[c][0]; }
    if (al < NC) { id[al][1] = sym_u64("alias", 0, ~0ull); pattern[al] = 2 + (int)sym_pick("pattern", 2); for (int c = 0; c < NC; c++) sym_assume(id[al][1] != id[c][0]); }
    for (int c = 0; c < NC; c++) for (int d = 0; d < c; d++) sym_assume(id[c][0] != id[d][0]);
    invalid = sym_u64("invalid", 0, ~0ull); for (int c = 0; c < NC; c++) sym_assume(invalid != id[c][0] && invalid != id[c][1]);
#elif CFG_IDS == 1 // values far apart
    static const uint64_t scheme[4][9] = {{0, 1, 2, 3, 4, 5, 6, 7, 0xffffff}, {0x7ffff000, 0x10, 0x7ffff010, 0x5555555540, 0x5555555550, 0x5555555560, 0x5555555570, 0x20, 0}, {~0ull, 0, 1ull << 63, ~0ull - 1, 1ull << 32, 1, ~0ull >> 1, 1ull << 31, 5}, {7, 6, 5, 4, 3, 2, 1, 0, 8}};
    int s = (int)sym_pick("scheme", 4); for (int c = 0; c < NC; c++) { id[c][0] = scheme[s][2 * c]; id[c][1] = scheme[s][2 * c + 1]; pattern[c] = (int)sym_pick(nm("pattern", c), 4); } invalid = scheme[s][8];
#else // small values, in any order
    invalid = 0xffffff; int al = (int)sym_pick("aliased", NC), n = 0; bool used[8] = {};
    for (int c = 0; c < NC; c++) for (int a = 0; a < 2; a++) { if (a && c != al) { id[c][1] = id[c][0]; continue; } uint64_t v = sym_pick(nm("id", n++), 6); sym_assume(!used[v]); used[v] = true; id[c][a] = v; }
    pattern[al] = 2 + (int)sym_pick("pattern", 2);
#endif
    uint64_t rot = sym_pick("identities", NC); for (int c = 0; c < NC; c++) identity[c] = (c + rot) % NC; // another numbering
}
struct Identity { uint64_t v; bool operator==(const Identity& o) const { return v == o.v; } bool operator!=(const Identity& o) const { return v != o.v; } };
}
template<> struct std::hash<Identity> { size_t operator()(const Identity& i) const { return (size_t)i.v * 7; } };
struct user_rtti : pol::CFG_RTTI {
    template<class R> struct fn : pol::rtti::defaults {
        template<class T> static constexpr bool is_polymorphic = std::is_base_of_v<A, T>;
        template<class T> static type_id static_type() {
            if (std::is_base_of_v<pol::deferred_static_rtti, user_rtti> && !started) { early = true; return (type_id)(uintptr_t)0xdead; }
            if (!ready) ids();
            if constexpr (std::is_base_of_v<A, T>) { constexpr int c = number<T>; int n = calls[c]++; return (type_id)(uintptr_t)id[c][pattern[c] == 0 ? 0 : pattern[c] == 1 ? 1 : (n + pattern[c]) & 1]; }
            else return (type_id)(uintptr_t)invalid;
        }
        template<class T> static type_id dynamic_type(const T& o) { if constexpr (std::is_base_of_v<A, T>) return o.type; else return (type_id)(uintptr_t)invalid; }
        static Identity type_index(type_id t) {
            for (int c = 0; c < NC; c++) if ((uint64_t)(uintptr_t)t == id[c][0] || (uint64_t)(uintptr_t)t == id[c][1]) return Identity{identity[c]};
            return Identity{100};
        }
        template<class To, class From> static To dynamic_cast_ref(From&& o) {
            using T = std::remove_cv_t<std::remove_reference_t<To>>;
            return (To)*(T*)const_cast<std::remove_cv_t<std::remove_reference_t<From>>&>(o).as(number<T>);
        }
    };
};
struct Reg : om::registry<user_rtti, rec_errors, CFG_POL> {};
template<class T> using VP = om::virtual_ptr<T, Reg>;
static om::use_classes<A, B, Reg> r1; static om::use_classes<A, C, Reg> r2; static om::use_classes<B, C, D, Reg> r3; static om::use_classes<A, B, Reg> r4; static om::use_classes<A, D, Reg> r5;
struct uni_; struct two_; struct ret_; struct more_;
using M1 = om::method<uni_, int(om::virtual_<A&>, int), Reg>;
using M2 = om::method<two_, int(VP<A>, int, om::virtual_<const A&>), Reg>;
using M3 = om::method<ret_, A*(om::virtual_<A&>, om::virtual_<A&>), Reg>;
static int uA(A& a, int x) { return 100 + x + a.self; } static int uB(B& b, int x) { return b.b * 200 + x; } static int uC(C& c, int x) { return c.c * 200 + x; }
static int tAA(VP<A>, int x, const A&) { return x; } static int tBC(VP<B> b, int x, const C& c) { return b->b * 10 + c.c + x; } static int tCA(VP<C> c, int x, const A&) { return c->c * 10 + x; } static int tDD(VP<D> d, int x, const D& e) { return d->d * 10 + e.d + x; }
static A* rAB(A&, B&) { static A a(nullptr); return &a; } static B* rBA(B&, A&) { static B b(nullptr); return &b; }
static M1::override<uA, uB, uC> ou; static M2::override<tAA, tBC, tCA, tDD> ot; static M3::override<rAB, rBA> orr;
static bool known(uint64_t t) { for (auto& c : Reg::classes) if ((uint64_t)(uintptr_t)c.type == t) return true; return false; }
extern "C" void sym_main() {
    sym_assert(!early, "type ids are not read before initialize"); started = true;
    if (!ready) ids();
    bool again = sym_flag("again");
    bool n = sym_flag("n2216");
    for (int i = 0; i <= again; i++) {
        // ids are read anew by each initialization: here they move to other classes
        if (i && std::is_base_of_v<pol::deferred_static_rtti, user_rtti> && sym_flag("moved")) { for (int c = 1; c < NC; c++) { std::swap(id[0], id[c]); std::swap(pattern[0], pattern[c]); } sym_reach("moved"); }
        sym_assert(attempt([&] { if (n) om::initialize<Reg>(om::n2216()); else om::initialize<Reg>(); }) == NONE, "initialize succeeds on a complete program");
    }
    int x = (int)sym_pick("class x", NC), y = (int)sym_pick("class y", NC); uint64_t ix = id[x][sym_pick("alias x", 2)], iy = id[y][sym_pick("alias y", 2)];
    sym_assume(known(ix) && known(iy));
    A a((type_id)(uintptr_t)ix), a2((type_id)(uintptr_t)iy); B b((type_id)(uintptr_t)ix), b2((type_id)(uintptr_t)iy); C c((type_id)(uintptr_t)ix), c2((type_id)(uintptr_t)iy); D d((type_id)(uintptr_t)ix), d2((type_id)(uintptr_t)iy);
    A* px[] = {&a, &b, &c, &d}; A* py[] = {&a2, &b2, &c2, &d2}; A &ox = *px[x], &oy = *py[y];
    int got = -1; Kind k = (Kind)attempt([&] { got = M1::fn(ox, 5); });
    // B and C are equally good for D
    if (x == 3) sym_assert(k == AMBIGUOUS || (n && k == NONE && (got == 205 || got == 405)), "ambiguous");
    else sym_assert(k == NONE && got == (x == 0 ? 105 : x * 200 + 5), "a method of one class runs the overrider of that class");
    if (k == AMBIGUOUS) sym_assert(last.types[0] == ox.type, "the error carries the object's type id");
    // two parameters
    static constexpr int tbl[NC][NC] = {{5, 5, 5, 5}, {5, 5, 17, 17}, {25, 25, 25, 25}, {25, 25, 17, 38}};
    got = -1; k = (Kind)attempt([&] { got = M2::fn(VP<A>(ox), 5, oy); });
    sym_assert(k == NONE && got == tbl[x][y], "two parameters: the most specific overrider");
    // covariant return types
    A* r = nullptr; k = (Kind)attempt([&] { r = M3::fn(ox, oy); });
    bool f = derives[y][1], s = derives[x][1];
    if (f && s) { if (n) sym_assert(k == NONE && ((A*)r)->as(1) != nullptr, "the overrider with the most derived return type"); else sym_assert(k == AMBIGUOUS, "two overriders are equally good"); sym_reach(n ? "covariant" : "ambiguous"); }
    else if (!f && !s) sym_assert(k == NO_OVERRIDER && last.types[0] == ox.type && last.types[1] == oy.type, "no overrider applies");
    else sym_assert(k == NONE && (r->as(1) != nullptr) == s, "the applicable overrider");
    if (ix != id[x][0]) sym_reach("alias");
    sym_reach("ran");
}
