// C07: when no hash can be found, an error is reported and the program does not go on.
#define CFG_ONE_CLASS
#include "world.hpp"
using Reg = CFG_REG;
namespace boost::openmethod { // the size of the control table, if it is where it is
template<class> inline std::vector<type_id> fast_perfect_hash_control;
namespace detail { template<class R> size_t buckets_of() { return fast_perfect_hash_control<R>.size(); } }
}
constexpr int A = CFG_ALIASES;
extern "C" void sym_main() {
    // one class with more type ids than the largest table has buckets
    static ClassSlot more[A]; static om::vptr_type svp; static type_id base[1];
    uint64_t stride = sym_pick("stride", CFG_STRIDES);
    static const uint64_t strides[] = {1, 24, 1ull << 58, 0x9E3779B97F4A7C15ull};
    base[0] = id_of(0);
    for (int k = 0; k < A; k++) {
        auto& ci = more[k].ci; ci.type = (type_id)(uintptr_t)(1 + k * strides[stride]); ci.static_vptr = &svp; ci.is_abstract = false;
        more[k].bases[0] = ci.type; ci.first_base = more[k].bases; ci.last_base = more[k].bases + 1; Reg::classes.push_back(ci);
    }
    aliases = true;
    if constexpr (!Reg::has_error_handler) { sym_expect_abort(1); sym_reach("reported"); om::initialize<Reg>(); sym_assert(false, "without an error handler the program stops"); return; }
    bool ret = sym_flag("handler returns"); static bool told;
    on_error = [] { told = true; sym_assert(last.kind == SEARCH && nerr == 1, "one error, of the right kind"); };
    if (ret) { errReturns = true; sym_expect_abort(1); }
    int k = attempt([] { om::initialize<Reg>(); });
    sym_assert(!ret, "execution does not continue when no hash was found");
    sym_assert(k == SEARCH && told, "the failure to find a hash is reported");
    sym_assert(last.arity > 0 && last.a, "the error says what was attempted"); 
    size_t buckets = om::detail::buckets_of<Reg>(); if (buckets) sym_assert((size_t)last.a == buckets, "the error gives the number of buckets of the last attempt");
    sym_reach("reported");
}
