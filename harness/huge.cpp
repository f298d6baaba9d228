// Hundreds of classes, overriders and methods: calls, next and slots.
#define CFG_MAXN 8
#define CFG_MAXK 8
#define CFG_MAXP 3
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
constexpr int N = CFG_N, T = CFG_T;
namespace {
enum Shape { LEVELS, JOIN, DEEP };
int shape;
// two levels; with a join; one long chain
int parent(int c) { return c == 0 ? -1 : shape == DEEP ? c - 1 : c <= N / 2 ? 0 : c - N / 2; }
bool is(int c, int b) { for (int x = c; x >= 0; x = parent(x)) if (x == b) return true; return shape == JOIN && c == N - 1 && b == 2; }
om::vptr_type svp[N];
void add_classes() {
    static om::detail::class_info ci[N]; static type_id bases[N][3];
    for (int c = 0; c < N; c++) {
        int n = 0; bases[c][n++] = id_of(c); if (c) bases[c][n++] = id_of(parent(c)); if (shape == JOIN && c == N - 1) bases[c][n++] = id_of(2);
        ci[c].type = id_of(c); ci[c].static_vptr = &svp[c]; ci[c].first_base = bases[c]; ci[c].last_base = bases[c] + n; CFG_REG::classes.push_back(ci[c]);
    }
}
// overriders: registration objects of their own, whose function says which one it is
int who; template<class... O> using fp = int (*)(O...);
template<int K> int body1(Obj&) { who = K; return K; }
template<int K> int body2(Obj&, Obj&) { who = K; return K; }
template<int... K> fp<Obj&>* bodies1(std::integer_sequence<int, K...>) { static fp<Obj&> t[] = {body1<K>...}; return t; }
template<int... K> fp<Obj&, Obj&>* bodies2(std::integer_sequence<int, K...>) { static fp<Obj&, Obj&> t[] = {body2<K>...}; return t; }
auto body(std::integral_constant<int, 1>, int k) { return bodies1(std::make_integer_sequence<int, N>())[k]; }
auto body(std::integral_constant<int, 2>, int k) { return bodies2(std::make_integer_sequence<int, N>())[k]; }
template<class M, int A> struct Over {
    using F = typename M::FunctionPointer; static inline om::detail::overrider_info o[N]; static inline F next[N]; static inline type_id vp[N][A]; static inline int cls[N][A]; static inline int n;
    static void add(int x, int y = 0) {
        auto& i = o[n]; i.method = &M::fn; i.type = id_of(0); i.return_type = id_of(0); i.next = (void (**)())&next[n]; i.pf = (void (*)())body(std::integral_constant<int, A>(), n);
        vp[n][0] = id_of(x); cls[n][0] = x; if (A > 1) { vp[n][A - 1] = id_of(y); cls[n][A - 1] = y; }
        i.vp_begin = vp[n]; i.vp_end = vp[n] + A; M::fn.overriders.push_back(i); n++;
    }
    static bool takes(int k, const int* c) { for (int p = 0; p < A; p++) if (!is(c[p], cls[k][p])) return false; return true; }
    static bool better(int a, int b) { bool r = false; for (int p = 0; p < A; p++) { if (cls[a][p] != cls[b][p] && is(cls[b][p], cls[a][p])) return false; if (cls[a][p] != cls[b][p] && is(cls[a][p], cls[b][p])) r = true; } return r; }
    static bool wider(int a, int b) { if (a == b) return false; for (int p = 0; p < A; p++) if (!is(cls[b][p], cls[a][p])) return false; return true; }
    template<class P> static int best(P cand) { // -1 none, -2 ambiguous
        int l[N], m = 0; for (int k = 0; k < n; k++) if (cand(k)) l[m++] = k;
        for (int i = 0; i < m; i++) { bool all = true; for (int j = 0; j < m && all; j++) if (i != j && !better(l[i], l[j])) all = false; if (all) return l[i]; }
        return m ? -2 : -1;
    }
    static int want(const int* c) { return best([&](int k) { return takes(k, c); }); }
    static int want_next(int k) { return best([&](int q) { return wider(q, k); }); }
};
struct u_; struct f_; struct s_; struct l_;
using U = om::method<u_, int(virtual_<Obj&>), CFG_REG>; using F2 = om::method<f_, int(virtual_<Obj&>, virtual_<Obj&>), CFG_REG>; using S2 = om::method<s_, int(virtual_<Obj&>, virtual_<Obj&>), CFG_REG>;
using OU = Over<U, 1>; using OF = Over<F2, 2>; using OS = Over<S2, 2>;
// many methods: registration objects of their own, each with one overrider for a class
om::detail::method_info filler[T ? T : 1]; size_t slot[T ? T : 1]; om::detail::overrider_info fo[T ? T : 1]; type_id fvp[T ? T : 1]; void (*fnext[T ? T : 1])();
template<class M> void roots(M& m, int a) { for (int p = 0; p < a; p++) m.vp_begin[p] = id_of(0); }
template<class C> int outcome_of_call(C call) { nerr = 0; who = -7; try { int r = call(); sym_assert(r == who && nerr == 0, "the value of the overrider that ran"); return r; } catch (Thrown&) { sym_assert(who == -7 && nerr == 1, "nothing runs, one error"); return outcome_of(last.kind); } }
void reach(int w) { sym_reach(w >= 0 ? "ran" : w == -1 ? "no_overrider" : "ambiguous"); }
int any_class(const char* n) { return (int)sym_pick(n, N); }
}
extern "C" void sym_main() {
    shape = (int)sym_pick("shape", CFG_SHAPES); add_classes(); roots(U::fn, 1); roots(F2::fn, 2); roots(S2::fn, 2);
    int step = shape == DEEP ? N / 4 : 1;
    for (int c = N; c--;) if (c % step == 0 && (step > 1 || c % 7 != 3)) OU::add(c); else if (c == 0) OU::add(0);
    for (int c = 1; c < N; c += step) { OF::add(c, c % 5 == 1 ? 1 : 0); OS::add(c % 3 == 0 ? 2 : 0, c); }
    if (T) for (int t = 0; t < T; t++) {
        auto& m = filler[t]; fvp[t] = id_of(t % 3 > 0); m.vp_begin = &fvp[t]; m.vp_end = &fvp[t] + 1; m.slots_strides_ptr = &slot[t]; m.method_type_id = m.return_type_id = id_of(0); m.not_implemented = (void (*)())&body1<0>; m.ambiguous = (void (*)())&body1<1>;
        auto& i = fo[t]; i.method = &m; i.type = i.return_type = id_of(0); i.next = &fnext[t]; i.pf = (void (*)())(uintptr_t)(0x1000 + t); i.vp_begin = &fvp[t]; i.vp_end = &fvp[t] + 1; m.overriders.push_back(i); CFG_REG::methods.push_back(m);
    }
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    Obj o[2];
    switch (sym_pick("what", T ? 5 : 4)) {
    case 0: { int x = any_class("x"); o[0].type = id_of(x); int w = OU::want(&x); sym_assert(outcome_of_call([&] { return U::fn(o[0]); }) == w, "the call runs the overrider overload resolution picks"); reach(w); break; }
    case 1: case 2: {
        bool first = sym_flag("first"); int c[2]; int few[] = {0, 1, 2, N - 1, N / 2 + 1}; c[first ? 0 : 1] = any_class("x"); c[first ? 1 : 0] = few[sym_pick("y", 5)]; for (int p = 0; p < 2; p++) o[p].type = id_of(c[p]);
        int w = first ? OF::want(c) : OS::want(c); sym_assert(outcome_of_call([&] { return first ? F2::fn(o[0], o[1]) : S2::fn(o[0], o[1]); }) == w, "the call runs the overrider overload resolution picks"); reach(w); break; }
    case 3: { int k = (int)sym_pick("overrider", OU::n); int w = OU::want_next(k); o[0].type = id_of(OU::cls[k][0]); sym_assert(outcome_of_call([&] { return OU::next[k](o[0]); }) == w, "next runs the best of the less specialized overriders"); if (w >= 0) sym_reach("next"); else sym_reach("no next"); break; }
    default: {
        static bool used[T + 16]; for (int t = 0; t < T; t++) { sym_assert(slot[t] < T + 16 && !used[slot[t]], "two virtual parameters never share a v-table entry"); used[slot[t]] = true; }
        size_t real[] = {U::fn.slots_strides_ptr[0], F2::fn.slots_strides_ptr[0], F2::fn.slots_strides_ptr[1], S2::fn.slots_strides_ptr[0], S2::fn.slots_strides_ptr[1]}; for (size_t r : real) { sym_assert(r < T + 16 && !used[r], "two virtual parameters never share a v-table entry"); used[r] = true; }
        int x = any_class("x"); for (int t = 0; t < T; t++) if (is(x, t % 3 > 0)) sym_assert(svp[x][slot[t]].pf == (void (*)())(uintptr_t)(0x1000 + t), "the entry of each method leads to its own overrider");
        sym_reach("slots"); } }
}
