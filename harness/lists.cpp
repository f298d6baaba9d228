// C15: the registration lists are sequences.
#include "sym.h"
#include <iterator>
#include <boost/openmethod/core.hpp>
using namespace boost::openmethod::detail;
struct Node : static_list<Node>::static_link { int v; };
constexpr int N = CFG_N;
static Node node[N]; static static_list<Node> list;
static const char* name[] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7", "op8", "op9", "op10", "op11"};
static int model[N], len; static bool in[N];
static void check() {
    const auto& cl = list;
    sym_assert(cl.empty() == (len == 0) && (int)cl.size() == len, "size and emptiness agree with the elements");
    int k = 0;
    for (auto& n : list) { sym_assert(k < len && &n == &node[model[k]], "elements in the order they were added"); k++; if (k > N) break; }
    sym_assert(k == len, "every element is visited once");
    k = 0;
    for (auto& n : cl) { sym_assert(k < len && &n == &node[model[k]], "elements in the order they were added"); k++; if (k > N) break; }
    sym_assert(k == len, "every element is visited once");
    sym_assert((list.begin() == list.end()) == (len == 0) && (cl.begin() == cl.end()) == (len == 0) && list.begin() == list.begin() && cl.begin() == cl.begin() && !(list.begin() != list.begin()) && !(cl.begin() != cl.begin()), "iterators are equal at the same place only");
    k = 0;
    for (auto it = list.begin(); it != list.end(); k++) { auto old = it++; sym_assert(&*old == &node[model[k]] && old->v == model[k] && (old == it) == false, "post-increment gives the element"); sym_assert(old->next() == (k + 1 < len ? &node[model[k + 1]] : nullptr), "next gives the next element"); if (k > N) break; }
    k = 0;
    for (auto it = cl.begin(); it != cl.end(); k++) { auto old = it++; sym_assert(&*old == &node[model[k]] && old->v == model[k] && old != it && !(old == it), "post-increment gives the element"); if (k > N) break; }
}
static void drop(int e) { int j = 0; for (int k = 0; k < len; k++) if (model[k] != e) model[j++] = model[k]; len = j; in[e] = false; }
extern "C" void sym_main() {
    for (int i = 0; i < N; i++) node[i].v = i;
    check();
    for (int s = 0; s < CFG_STEPS; s++) {
        int op = (int)sym_pick(name[s], N + 1); // an element is added if it is out, removed if it is in
        if (op == N) { list.clear(); while (len) drop(model[0]); sym_reach("cleared"); }
        else if (!in[op]) { list.push_back(node[op]); model[len++] = op; in[op] = true; sym_reach(len == 1 ? "first" : "added"); }
        else { sym_reach(len == 1 ? "only" : model[0] == op ? "remove first" : model[len - 1] == op ? "remove last" : "remove middle"); list.remove(node[op]); drop(op); }
        check();
    }
}
