// C07: many registered type ids. C08 (part): any other id is recognized.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_hash
#endif
constexpr int NC = CFG_N;
struct Cls {
    type_id ids[3]; int k; om::vptr_type v, *pv;
    auto type_id_begin() const { return ids; } auto type_id_end() const { return ids + k; }
    auto vptr() const -> const om::vptr_type& { return *pv; }
};
struct Ctx {
    Cls c[NC]; int n;
    template<class> static constexpr bool has_option = false;
    auto classes_begin() const { return c; } auto classes_end() const { return c + n; }
};
using Reg = CFG_REG;
using hasher = Reg::policy<pol::type_hash>;
using vptrs = Reg::policy<pol::vptr>;
static om::detail::word table[NC];
static uint64_t scheme(int s, uint64_t i) {
    switch (s) {
    case 0: return 0x555555554000ull + 16 * i; // addresses of type_info objects
    case 1: return i;
    case 2: return (i << 56) + i;
    case 3: return ~0ull - 24 * i;
    case 4: return 0x7f0000000000ull + (i % 3 << 20) + 0x38 * i;
    default: return (i + 1) * 0x9e3779b97f4a7c15ull;
    }
}
extern "C" void sym_main() {
    static Ctx x; static type_id all[NC * 3]; static int cls[NC * 3]; int n = 0;
    x.n = CFG_ANY_N ? 1 + (int)sym_pick("classes", NC) : NC; int s = (int)sym_pick("scheme", 6), al = (int)sym_pick("aliases", 3);
    for (int i = 0; i < x.n; i++) {
        x.c[i].pv = &x.c[i].v; x.c[i].v = (om::vptr_type)&table[i];
        x.c[i].k = al == 0 ? 1 : al == 1 ? 1 + (i & 1) : 3;
        for (int j = 0; j < x.c[i].k; j++) { cls[n] = i; all[n++] = x.c[i].ids[j] = (type_id)(uintptr_t)scheme(s, i + 101 * j); }
    }
    std::tuple<> none;
    sym_budget(CFG_BUDGET);
    auto [lo, hi] = hasher::initialize(x, none);
    sym_budget(0); static size_t h[NC * 3];
    for (int a = 0; a < n; a++) {
        h[a] = hasher::hash(all[a]);
        sym_assert(h[a] >= lo && h[a] <= hi, "the hash of a registered type id is between the reported minimum and maximum");
    }
    for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) sym_assert(h[a] != h[b], "distinct type ids have distinct hash values");
    vptrs::initialize(x, none);
    for (int a = 0; a < n; a++) { Obj o{all[a]}; sym_assert(vptrs::dynamic_vptr(o) == (om::vptr_type)&table[cls[a]], "each type id retrieves the v-table of its class"); }
    sym_reach("found");
#if CFG_STRANGER
    Obj o{(type_id)(uintptr_t)sym_u64("stranger", 0, UINT64_MAX)};
    for (int a = 0; a < n; a++) sym_assume(o.type != all[a]);
    int k = attempt([&] { vptrs::dynamic_vptr(o); });
    sym_assert(k == MISSING_CLASS && nerr == 1 && last.a == o.type, "an unregistered type id is reported as missing_class");
    sym_reach("stranger");
#endif
}
