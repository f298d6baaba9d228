// C07: the type hash separates any registered type ids; C08 (part): and recognizes any other.
#include "world.hpp"
#ifndef CFG_REG
#define CFG_REG reg_hash
#endif
constexpr int NC = CFG_N, NA = CFG_ALIASES; // classes, type ids per class
struct Cls {
    type_id ids[NA]; int k; om::vptr_type v, *pv;
    auto type_id_begin() const { return ids; } auto type_id_end() const { return ids + k; }
    auto vptr() const -> const om::vptr_type& { return *pv; }
};
struct Ctx {
    Cls c[NC];
    template<class> static constexpr bool has_option = false;
    auto classes_begin() const { return c; } auto classes_end() const { return c + NC; }
};
using Reg = CFG_REG;
using hasher = Reg::policy<pol::type_hash>;
using vptrs = Reg::policy<pol::vptr>;
static om::detail::word table[NC];
extern "C" void sym_main() {
    static Ctx x; type_id all[NC * NA]; int n = 0;
    for (int i = 0; i < NC; i++) {
        x.c[i].pv = &x.c[i].v; x.c[i].v = (om::vptr_type)&table[i];
        x.c[i].k = NA > 1 ? NA - (int)sym_pick(nm("fewer", i), NA) : 1;
        for (int j = 0; j < x.c[i].k; j++) all[n++] = x.c[i].ids[j] = (type_id)(uintptr_t)sym_u64(nm("id", i, j), 0, UINT64_MAX);
    }
    for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) sym_assume(all[a] != all[b]);
    std::tuple<> none;
    sym_budget(CFG_BUDGET); // several attempts
#if CFG_HASHER
    auto [lo, hi] = hasher::initialize(x, none);
    sym_budget(0); size_t h[NC * NA];
    for (int a = 0; a < n; a++) {
        h[a] = hasher::hash(all[a]);
        sym_assert(h[a] >= lo && h[a] <= hi, "the hash of a registered type id is between the reported minimum and maximum");
        for (int b = 0; b < a; b++) sym_assert(h[a] != h[b], "distinct type ids have distinct hash values");
    }
    sym_reach("found");
#else
    vptrs::initialize(x, none);
    sym_budget(0);
    for (int i = 0; i < NC; i++) for (int j = 0; j < x.c[i].k; j++) { Obj o{x.c[i].ids[j]}; sym_assert(attempt([&] { sym_assert(vptrs::dynamic_vptr(o) == (om::vptr_type)&table[i], "each type id retrieves the v-table of its class"); }) == NONE, "no error for a registered type id"); }
    sym_reach("found");
#if CFG_STRANGER
    Obj o{(type_id)(uintptr_t)sym_u64("stranger", 0, UINT64_MAX)};
    for (int a = 0; a < n; a++) sym_assume(o.type != all[a]);
    int k = attempt([&] { vptrs::dynamic_vptr(o); });
    sym_assert(k == MISSING_CLASS && nerr == 1 && last.a == o.type, "an unregistered type id is reported as missing_class");
    sym_reach("stranger");
    sym_expect_abort(1); errReturns = true; vptrs::dynamic_vptr(o); sym_assert(false, "execution does not continue after a missing class");
#endif
#endif
}
