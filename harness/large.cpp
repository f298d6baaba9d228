// Larger programs, from families of inheritance graphs: calls, next, slots, the report, re-initialization.
#define CFG_MAXN 80
#define CFG_MAXK 80
#define CFG_MAXP 4
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_vec
#endif
#ifndef CFG_K
#define CFG_K CFG_N
#endif
#ifndef CFG_EXTRA
#define CFG_EXTRA 0
#endif
#ifndef CFG_CONCRETE
#define CFG_CONCRETE 0
#endif
#ifndef CFG_PLACES
#define CFG_PLACES 5
#endif
constexpr int N = CFG_N;
OM_SHAPE(Quad, 4, (virtual_<Obj&>, virtual_<Obj&>, int, virtual_<Obj&>, virtual_<Obj&>), (Obj&, Obj&, int, Obj&, Obj&), , (o[0], o[1], 5, o[2], o[3]))
static Graph g; static Spec s;
// families of graphs; everything derives from class 0
enum Family { CHAIN, STAR, TREE, DIAMONDS, GRID, LAYERS, FAN, FAMILIES };
static int perm[MAXN], pos[MAXN]; // shape position -> label (registration order), and back
static void family(int f) {
    g.start(N);
    auto e = [](int i, int j) { if (i != j && !g.listed[perm[i]][perm[j]]) g.edge(perm[i], perm[j]); };
    for (int i = 1; i < N; i++) switch (f) {
    case CHAIN: e(i, i - 1); break;
    case STAR: e(i, 0); break;
    case TREE: e(i, (i - 1) / 2); break;
    case DIAMONDS: if (i % 3 == 0) { e(i, i - 1); e(i, i - 2); } else e(i, i - i % 3); break;
    case GRID: { int w = N > 30 ? 7 : 3; if (i % w) e(i, i - 1); if (i >= w) e(i, i - w); break; }
    case LAYERS: if (i < 4) e(i, 0); else { int l = (i - 1) / 3 * 3 + 1; for (int k = 1; k <= 3; k++) e(i, l - k); } break;
    case FAN: if (i < N - 1) e(i, 0); else for (int k = 1; k < N - 1; k++) e(i, k); break; // a class with very many bases
    }
}
static void register_classes(int style) {
    auto reg = [](int i, const bool* m, int k) { // class i
        static om::detail::class_info ci[3][MAXN]; static type_id bases[3][MAXN][MAXN + 1];
        int n = 0; auto b = bases[k][i]; b[n++] = id_of(i); for (int j = 0; j < N; j++) if (m[j]) b[n++] = id_of(j);
        auto& c = ci[k][i]; c.type = id_of(i); c.static_vptr = &Classes<CFG_REG>::svp[i]; c.first_base = b; c.last_base = b + n; c.is_abstract = false;
        CFG_REG::classes.push_back(c);
    };
    for (int i = 0; i < N; i++) {
        bool m[MAXN] = {}, h[MAXN] = {}; int cnt = 0;
        for (int j = 0; j < N; j++) { m[j] = g.listed[i][j]; if (m[j]) { if (cnt++ & 1) h[j] = true; } }
        if (style == 0) reg(i, m, 0); // the direct bases
        if (style == 1) { for (int j = 0; j < N; j++) m[j] = g.strict(i, j); reg(i, m, 0); } // all the bases
        if (style == 2) { reg(i, h, 0); } // one half now, the other at the end
    }
    if (style == 2) for (int i = N; i--;) { bool m[MAXN] = {}; int cnt = 0; for (int j = 0; j < N; j++) if (g.listed[i][j] && !(cnt++ & 1)) m[j] = true; reg(i, m, 1); }
}
static void shape() {
    int f = (int)sym_pick("family", FAMILIES), order = (int)sym_pick("order", 3);
    for (int i = 0; i < N; i++) { perm[i] = order == 0 ? i : order == 1 ? N - 1 - i : (i * 11 + 3) % N; pos[perm[i]] = i; }
    family(f);
#if CFG_EXTRA
    // any further edge
    int x = (int)sym_pick("extra derived", N), y = (int)sym_pick("extra base", N); if (x != y && !g.is[y][x] && !g.listed[x][y]) g.edge(x, y);
#endif
    register_classes((int)sym_pick("style", CFG_MODE == 5 ? 3 : 1));
}
// an argument of a method with this root, for each parameter: the last one is left to the solver
template<class S> static void args(const Spec& s, uint64_t* a, const char* name, const int* from = nullptr) {
    for (int p = 0; p < s.np; p++) {
        static uint8_t okc[MAXN]; for (int i = 0; i < N; i++) okc[i] = g.is[i][from ? from[p] : s.root[p]];
        a[p] = sym_u64(nm(name, p), 0, N - 1); sym_assume(okc[a[p]]);
        if (p < s.np - 1 || CFG_CONCRETE) a[p] = sym_concretize(a[p]);
    }
}
static Obj o[MAXP];
static int want_call(const Spec& s, const uint64_t* a) {
    static int8_t t[MAXN]; int c[MAXP]; for (int p = 0; p < s.np - 1; p++) c[p] = (int)a[p];
    for (int i = 0; i < N; i++) { c[s.np - 1] = i; t[i] = g.is[i][s.root[s.np - 1]] ? (int8_t)s.call(g, c) : -9; }
    return t[a[s.np - 1]];
}
template<class S> static void one_call(const Spec& s, const char* name) {
    uint64_t a[MAXP]; args<S>(s, a, name);
    for (int p = 0; p < s.np; p++) o[p].type = (type_id)(uintptr_t)(a[p] + 1);
    int want = want_call(s, a); nerr = ran = 0; int got = outcome<S>(o);
    sym_assert(got == want, "the call runs the overrider overload resolution picks");
    sym_assert(got >= 0 ? ran == 1 && nerr == 0 : ran == 0 && nerr == 1, "one overrider runs, or one error is reported");
    sym_reach(got >= 0 ? "ran" : got == -1 ? "no_overrider" : "ambiguous");
}
// where the overriders are
static void places(Spec& s, int np) {
    int how = (int)sym_pick("places", CFG_PLACES), gap = (int)sym_pick("gap", 4);
    s.np = np; s.k = CFG_K; for (int p = 0; p < np; p++) s.root[p] = perm[0];
    int out = 0;
    for (int k = 0; k < CFG_K; k++) {
        int i = k % N, j = how == 0 ? i : how == 1 ? 0 : how == 2 ? (i * 5 + 1) % N : how == 3 ? N - 1 - i : k / N % N;
        if (how == 1 && (k & 1)) { j = i; i = 0; }
        if (gap == 1 && k == 0) continue;          // none for the root
        if (gap == 2 && k == CFG_K - 1) continue;  // none for the last
        if (gap == 3 && k % 3 == 1) continue;      // none for a third
        s.ov[out][0] = perm[i]; for (int p = 1; p < np; p++) s.ov[out][p] = perm[p == 1 ? j : p == 2 ? (i + j) % N : (i + 2 * j + 1) % N];
        out++;
    }
    s.k = out;
}
#if CFG_MODE == 2 // many methods
#ifndef CFG_SLOT
#define CFG_SLOT(t) Uni
#endif
template<int T> struct Sh { using type = std::conditional_t<T % 3 == 2, Bi<CFG_REG, T>, std::conditional_t<T % 3 == 1, Uni2<CFG_REG, T>, Uni<CFG_REG, T>>>; };
template<class M> auto slot_of(M& m, int p, int) -> decltype((long)m.slots_strides[p]) { return (long)m.slots_strides[p]; }
template<class M> long slot_of(M&, int, ...) { static long never = -1; return never--; }
static Spec sp[CFG_T];
template<int T> static void define(int how) {
    using S = typename Sh<T>::type; using O = Overriders<S, 1>; auto& q = sp[T]; q.np = S::np; q.k = 1;
    for (int p = 0; p < q.np; p++) q.root[p] = q.ov[0][p] = perm[how == 0 ? 0 : how == 1 ? (T + p) % N : how == 2 ? (T * 5 + p * 3) % N : how == 3 ? N - 1 - (T + p) % N : (p ? 0 : T % N)];
    O::define(q);
}
template<int T> static void check_one(int want) {
    if (T != want) return;
    using S = typename Sh<T>::type; auto& q = sp[T]; uint64_t a[MAXP]; args<S>(q, a, "arg");
    for (int p = 0; p < q.np; p++) o[p].type = (type_id)(uintptr_t)(a[p] + 1);
    nerr = ran = 0; hit = -1; int got = outcome<S>(o);
    sym_assert(got == 0 && ran == 1 && nerr == 0 && hit == T * 16, "each method runs its own overrider"); sym_reach("ran");
}
static long slots[CFG_T][2];
template<int T> static void slots_of() { using S = typename Sh<T>::type; for (int p = 0; p < S::np; p++) slots[T][p] = slot_of(S::m::fn, p, 0); }
template<int... T> static void all(int how, std::integer_sequence<int, T...>) { (define<T>(how), ...); }
template<int... T> static void all_slots(std::integer_sequence<int, T...>) { (slots_of<T>(), ...); }
template<int... T> static void all_check(int t, std::integer_sequence<int, T...>) { (check_one<T>(t), ...); }
extern "C" void sym_main() {
    shape(); auto seq = std::make_integer_sequence<int, CFG_T>();
    all((int)sym_pick("places", 5), seq);
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    all_slots(seq);
    for (int t = 0; t < CFG_T; t++) for (int u = 0; u <= t; u++) for (int p = 0; p < sp[t].np; p++) for (int q = 0; q < sp[u].np; q++) {
        if (t == u && q >= p) continue;
        bool common = false; for (int c = 0; c < N && !common; c++) common = g.is[c][sp[t].root[p]] && g.is[c][sp[u].root[q]];
        if (common && slots[t][p] == slots[u][q]) sym_assert(false, "two virtual parameters never share a v-table entry");
    }
    all_check((int)sym_pick("method", CFG_T), seq);
}
#else
using S = CFG_SHAPE<CFG_REG, 0>;
using O = Overriders<S, CFG_K>;
template void O::touch();
static void report(const Spec& s) {
    static int8_t row[MAXN]; size_t cells = 1; bool miss = false, amb = false;
    for (int p = 0; p < s.np; p++) {
        static uint64_t masks[MAXN][2]; int m = 0;
        for (int c = 0; c < N; c++) if (g.is[c][s.root[p]]) {
            uint64_t k[2] = {0, 0}; for (int o = 0; o < s.k; o++) if (g.is[c][s.ov[o][p]]) k[o >> 6] |= 1ull << (o & 63);
            bool seen = false; for (int i = 0; i < m; i++) if (masks[i][0] == k[0] && masks[i][1] == k[1]) seen = true;
            if (!seen) { masks[m][0] = k[0]; masks[m++][1] = k[1]; }
        }
        cells *= m;
    }
    if (s.np == 1) cells = 0;
    int c[MAXP];
    for (int i = 0; i < N; i++) for (int j = 0; j < (s.np > 1 ? N : 1); j++) { c[0] = i; c[1] = j; if (!g.is[i][s.root[0]] || (s.np > 1 && !g.is[j][s.root[1]])) continue; int w = s.call(g, c); miss = miss || w == -1; amb = amb || w == -2; }
    size_t r[3];
    sym_assert(attempt([&] { auto k = om::initialize<CFG_REG>(); r[0] = k.report.cells; r[1] = k.report.not_implemented; r[2] = k.report.ambiguous; }) == NONE, "initialize succeeds on a complete program");
    sym_assert(r[0] == cells, "cells is the number of cells of the dispatch tables of the multi-methods");
    sym_assert(r[1] == (size_t)miss, "not_implemented is the number of methods with a tuple that has no applicable overrider");
    sym_assert(r[2] == (size_t)amb, "ambiguous is the number of methods with an ambiguous tuple");
    sym_reach(miss ? "gaps" : "complete"); if (amb) sym_reach("ambiguous");
}
static void one_next(const Spec& s) {
    int cur = (int)sym_pick("cur", s.k); sym_assume(s.unique(cur));
    int want = s.next(g, cur);
    sym_assert(O::has_next(cur) == (want >= 0), "has_next is true exactly when next would run an overrider");
    uint64_t a[MAXP]; args<S>(s, a, "arg", s.ov[cur]); for (int p = 0; p < s.np; p++) o[p].type = (type_id)(uintptr_t)(a[p] + 1);
    nerr = ran = 0; int got = next_outcome<S, CFG_K>(cur, o);
    sym_assert(got == want, "next runs the best of the less specialized overriders");
    sym_assert(want >= 0 ? ran == 1 && nerr == 0 : ran == 0 && nerr == 1, "next runs one overrider, or reports one error");
    sym_reach(want >= 0 ? "next" : want == -1 ? "none" : "ambiguous");
}
#if CFG_MODE == 7
static bool classes;
static void check_n2216(const bool* cand, int got, const char* msg) {
    int best = s.best(g, cand);
    if (best != -2) { sym_assert(got == best, msg); return; }
    sym_assert(got >= 0 && got < s.k && cand[got], "an ambiguous call runs an applicable overrider");
    bool top[MAXK] = {}; int tops = 0; // the most specialized
    for (int o = 0; o < s.k; o++) if (cand[o]) { top[o] = true; for (int q = 0; q < s.k && top[o]; q++) if (cand[q] && s.better(g, q, o)) top[o] = false; tops += top[o]; }
    if (!tops) { sym_reach("circular"); return; }
    sym_assert(top[got], "an ambiguous call runs one of the most specialized applicable overriders");
    if (classes) {
        int pick = -1;
        for (int o = 0; o < s.k; o++) if (top[o]) { bool all = true; for (int q = 0; q < s.k && all; q++) if (top[q] && q != o && !g.strict(s.ret[o], s.ret[q])) all = false; if (all) pick = o; }
        if (pick >= 0) { sym_assert(got == pick, "an ambiguous call runs the contender with the most derived return type"); sym_reach("covariant"); }
    }
    sym_reach(tops > 2 ? "three" : "two");
}
#endif
extern "C" void sym_main() {
    shape(); places(s, S::np);
    O::define(s);
#if CFG_MODE == 7
    // return types: none; the class of the first parameter; classes of a chain of their own order
    int r = (int)sym_pick("returns", 4); classes = r > 0;
    if (classes) { S::m::fn.return_type_id = id_of(perm[0]); for (int o = 0; o < s.k; o++) { s.ret[o] = r == 1 ? s.ov[o][0] : r == 2 ? s.ov[o][s.np - 1] : perm[(o * 7 + 2) % N]; O::info(o).return_type = id_of(s.ret[o]); } }
    sym_assert(attempt([] { om::initialize<CFG_REG>(om::n2216()); }) == NONE, "initialize completes");
    uint64_t a[MAXP]; args<S>(s, a, "arg"); int c[MAXP]; for (int p = 0; p < s.np; p++) { c[p] = (int)sym_concretize(a[p]); o[p].type = id_of(c[p]); }
    nerr = ran = 0; int got = outcome<S>(o);
    sym_assert(got != -2, "no call is ambiguous"); sym_assert(ran == (got >= 0) && nerr == (got < 0), "one overrider runs, or one error is reported");
    bool cand[MAXK] = {}; for (int k = 0; k < s.k; k++) cand[k] = s.applicable(g, k, c);
    check_n2216(cand, got, "a call that is not ambiguous runs the same overrider as without the option");
    if (got >= 0 && s.unique(got)) {
        bool wide[MAXK] = {}; for (int k = 0; k < s.k; k++) wide[k] = k != got && s.wider(g, k, got);
        int nx = next_outcome<S, CFG_K>(got, o);
        sym_assert(nx != -2, "next is never ambiguous"); check_n2216(wide, nx, "next runs the same overrider as without the option");
        sym_assert(O::has_next(got) == (nx >= 0), "has_next is true exactly when next runs an overrider"); if (nx >= 0) sym_reach("next");
    }
    return;
#endif
#if CFG_MODE == 3
    report(s); return;
#endif
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
#if CFG_MODE == 4 // one overrider in three goes, then comes back
    int rem = (int)sym_pick("removed", 3); auto& l = S::m::fn.overriders;
    for (int k = 0; k < s.k; k++) if (k % 3 == rem) { l.remove(O::info(k)); s.removed[k] = true; }
    sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    if (sym_flag("back")) {
        for (int k = s.k; k--;) if (s.removed[k] && k % 2) { l.push_back(O::info(k)); s.removed[k] = false; }
        sym_assert(attempt([] { om::initialize<CFG_REG>(); }) == NONE, "initialize succeeds on a complete program");
    }
#endif
#if CFG_MODE == 6
    one_next(s);
#elif CFG_MODE == 1
    one_call<S>(s, "arg");
#else
    if (sym_flag("next")) one_next(s); else one_call<S>(s, "arg");
#endif
}
#endif
