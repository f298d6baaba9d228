#include "sym.h"
#include <vector>
#include <map>
#include <unordered_map>
struct E { int x; }; struct F : E { };
static int thrower(int k) { if (k == 2) { F f; f.x = 7; throw f; } return k; }
extern "C" void sym_main() {
    uint64_t a = sym_u64("a", 0, 5), b = sym_u64("b", 0, 1000);
    std::vector<int> v; for (int i = 0; i < 6; i++) v.push_back(i * i);
    sym_assert(v[a] <= 25, "sq");
    std::unordered_map<int, int> m; for (int i = 0; i < 20; i++) m[i * 3] = i;
    std::map<int, int> mm; for (int i = 0; i < 20; i++) mm[i * 7 % 20] = i;
    int last = -1; for (auto& p : mm) { sym_assert(p.first == last + 1, "order"); last++; }
    auto it = m.find((int)a * 3); sym_assert(it != m.end() && it->second == (int)a, "find");
    try { int r = thrower((int)a); sym_log("r", r); sym_reach("ret"); } catch (E& e) { sym_assert(e.x == 7, "caught"); sym_reach("catch"); }
#ifdef BUG
    sym_assert(!(a == 3 && b * 7 == 693), "bug");
#endif
}
