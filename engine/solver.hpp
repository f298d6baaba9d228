// Z3 back end: incremental solver, independent-constraint slicing, query cache.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>

struct Shared { // shared between worker processes
    std::atomic<u64> paths, completed, assumed_out, overBudget, undecided, retries, steps, forks, queries, queryHits, sat, unsat, solverNs, violations, errors, active, maxVars, states, asserts, assertsSym, logged, stop, samples, errCount, idle;
    std::atomic<u64> reach[64]; char reachName[64][56]; std::atomic<u32> reachLock;
    std::atomic<u8> fnSeen[1 << 16];
    char firstErr[2048];
};
extern Shared* S;

struct Solver {
    Z3_context ctx; Z3_solver s;
    struct Res { int sat; std::vector<std::pair<u32, u128>> model; };
    std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, Res>>> cache;
    unsigned rlimit = 0, sinceFresh = 0;

    static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
    void init(unsigned rl) {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
        Z3_set_error_handler(ctx, onErr);
        rlimit = rl;
        fresh();
    }
    void fresh(unsigned seed = 0) {
        // even: the incremental core; odd: a solver that preprocesses
        s = seed & 1 ? Z3_mk_solver_from_tactic(ctx, Z3_mk_tactic(ctx, "qfbv")) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        if (rlimit) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
        if (seed) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), seed * 7919);
        Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_ast one() { static Z3_ast o = nullptr; if (!o) { o = Z3_mk_unsigned_int64(ctx, 1, bv(1)); Z3_inc_ref(ctx, o); } return o; }
    Z3_ast zero() { static Z3_ast o = nullptr; if (!o) { o = Z3_mk_unsigned_int64(ctx, 0, bv(1)); Z3_inc_ref(ctx, o); } return o; }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, one(), zero()); }
    Z3_ast boolOf(Expr* e) { return Z3_mk_eq(ctx, tr(e), one()); }
    // abstract: products by constants become unknowns of their own
    bool abstract = false; std::unordered_map<Expr*, Z3_ast> absZ; std::vector<Expr*> absMul;
    static bool isProduct(Expr* e) { return e->op == Op::Mul && e->w >= 32 && isC(e->b); }
    Z3_ast tr(Expr* e) {
        if (abstract) { auto it = absZ.find(e); if (it != absZ.end()) return it->second; if (isProduct(e)) { absMul.push_back(e); Z3_ast r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("product!" + std::to_string(e->id)).c_str()), bv(e->w)); Z3_inc_ref(ctx, r); return absZ[e] = r; } }
        else if (e->z) return e->z;
        Z3_ast r = nullptr, x, y;
        switch (e->op) {
        case Op::Const: {
            if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->k, bv(e->w));
            else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->k >> 64), bv(e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->k, bv(64)));
            break; }
        case Op::Var: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, P.vars[(size_t)e->k].name.c_str()), bv(e->w)); break;
        case Op::Ite: r = Z3_mk_ite(ctx, boolOf(e->a), tr(e->b), tr(e->c)); break;
        case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
        case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
        case Op::Extract: r = Z3_mk_extract(ctx, (unsigned)e->k + e->w - 1, (unsigned)e->k, tr(e->a)); break;
        case Op::Concat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
        default:
            x = tr(e->a); y = tr(e->b);
            switch (e->op) {
            case Op::Add: r = Z3_mk_bvadd(ctx, x, y); break;
            case Op::Sub: r = Z3_mk_bvsub(ctx, x, y); break;
            case Op::Mul: r = Z3_mk_bvmul(ctx, x, y); break;
            case Op::UDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
            case Op::SDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
            case Op::URem: r = Z3_mk_bvurem(ctx, x, y); break;
            case Op::SRem: r = Z3_mk_bvsrem(ctx, x, y); break;
            case Op::And: r = Z3_mk_bvand(ctx, x, y); break;
            case Op::Or: r = Z3_mk_bvor(ctx, x, y); break;
            case Op::Xor: r = Z3_mk_bvxor(ctx, x, y); break;
            case Op::Shl: r = Z3_mk_bvshl(ctx, x, y); break;
            case Op::LShr: r = Z3_mk_bvlshr(ctx, x, y); break;
            case Op::AShr: r = Z3_mk_bvashr(ctx, x, y); break;
            case Op::Eq: r = b2v(Z3_mk_eq(ctx, x, y)); break;
            case Op::Ult: r = b2v(Z3_mk_bvult(ctx, x, y)); break;
            case Op::Ule: r = b2v(Z3_mk_bvule(ctx, x, y)); break;
            case Op::Slt: r = b2v(Z3_mk_bvslt(ctx, x, y)); break;
            case Op::Sle: r = b2v(Z3_mk_bvsle(ctx, x, y)); break;
            default: abort();
            }
        }
        Z3_inc_ref(ctx, r);
        if (abstract) return absZ[e] = r;
        return e->z = r;
    }
    // A variable multiplied by an odd constant: the product is as good an unknown as the variable. Solve for it,
    // which leaves (most) queries without multiplications; the variable is recovered from the model.
    struct Basis { Expr* var; Expr* inv; };
    std::unordered_map<Expr*, Expr*> memo;
    static void operands(Expr* e, std::unordered_map<Expr*, bool>& seen, std::vector<Expr*>& vars, Expr*& k) {
        if (!e || seen[e]) return; seen[e] = true;
        if (e->op == Op::Var && e->w >= 32) vars.push_back(e);
        if (e->op == Op::Mul && e->a->op == Op::Var && e->w >= 32 && isC(e->b) && (e->b->k & 1) && (!k || e->b->id < k->id)) k = e->b;
        operands(e->a, seen, vars, k); operands(e->b, seen, vars, k); operands(e->c, seen, vars, k);
    }
    Expr* rebuild(Expr* e) {
        if (!e || isC(e)) return e;
        auto it = memo.find(e); if (it != memo.end()) return it->second;
        Expr* r = e;
        switch (e->op) {
        case Op::Var: break;
        case Op::Ite: r = mkIte(rebuild(e->a), rebuild(e->b), rebuild(e->c)); break;
        case Op::ZExt: r = mkZExt(rebuild(e->a), e->w); break;
        case Op::SExt: r = mkSExt(rebuild(e->a), e->w); break;
        case Op::Extract: r = mkExtract(rebuild(e->a), (unsigned)e->k, e->w); break;
        case Op::Concat: r = mkConcat(rebuild(e->a), rebuild(e->b)); break;
        default: r = mkBin(e->op, rebuild(e->a), rebuild(e->b));
        }
        return memo[e] = r;
    }
    std::vector<Basis> changeBasis(std::vector<Expr*>& q) {
        std::unordered_map<Expr*, bool> seen; std::vector<Expr*> vars; Expr* k = nullptr; std::vector<Basis> r;
        for (Expr* e : q) operands(e, seen, vars, k);
        if (!k) return r;
        memo.clear();
        for (Expr* v : vars) if (v->w == k->w) { Expr* inv = mkConst(oddInverse(k->k, k->w), k->w); r.push_back({v, inv}); memo[v] = mkBin(Op::Mul, v, inv); }
        for (Expr*& e : q) e = rebuild(e);
        return r;
    }
    static bool hasProduct(Expr* e, std::unordered_map<Expr*, bool>& seen) {
        if (!e || isC(e)) return false; auto it = seen.find(e); if (it != seen.end()) return it->second;
        bool r = isProduct(e) || hasProduct(e->a, seen) || hasProduct(e->b, seen) || hasProduct(e->c, seen);
        return seen[e] = r;
    }
    static void constsOf(Expr* e, std::unordered_map<Expr*, bool>& seen, std::vector<Expr*>& out) {
        if (!e || seen[e]) return; seen[e] = true; if (isC(e) && e->w >= 32) { out.push_back(e); return; }
        if (isProduct(e)) { constsOf(e->a, seen, out); return; }
        constsOf(e->a, seen, out); constsOf(e->b, seen, out); constsOf(e->c, seen, out);
    }
    static void varsOf(Expr* e, std::unordered_map<Expr*, bool>& seen, std::vector<Expr*>& out) {
        if (!e || seen[e]) return; seen[e] = true; if (e->op == Op::Var) out.push_back(e);
        varsOf(e->a, seen, out); varsOf(e->b, seen, out); varsOf(e->c, seen, out);
    }
    u64 rnd = 88172645463325252ull; u64 random() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
    // Queries with products by constants: unsatisfiable if they are when the products are arbitrary; satisfiable if
    // some values near those of that abstraction satisfy the query itself; otherwise undecided.
    Z3_lbool products(const std::vector<Expr*>& q, std::vector<std::pair<u32, u128>>& found) {
        absZ.clear(); absMul.clear(); abstract = true;
        Z3_solver_push(ctx, s);
        for (Expr* e : q) if (!isC(e)) Z3_solver_assert(ctx, s, boolOf(e));
        for (size_t i = 0; i < absMul.size(); i++) { tr(absMul[i]->a); for (size_t j = 0; j < i; j++) if (absMul[i]->b == absMul[j]->b && (absMul[i]->b->k & 1))
            Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, Z3_mk_eq(ctx, tr(absMul[i]), tr(absMul[j])), Z3_mk_eq(ctx, tr(absMul[i]->a), tr(absMul[j]->a)))); }
        std::unordered_map<Expr*, bool> seenK; std::vector<Expr*> ks; for (Expr* e : q) constsOf(e, seenK, ks);
        for (size_t i = 0; i < absMul.size(); i++) { Expr* p = absMul[i]; if (!(p->b->k & 1)) continue; size_t n = 0;
            for (Expr* k : ks) if (k->w == p->w && n++ < 12) for (int way = 0; way < 2; way++) { // x = k iff c x = c k
                u128 x = way ? k->k * oddInverse(p->b->k, p->w) : k->k, y = way ? k->k : k->k * p->b->k;
                Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, Z3_mk_eq(ctx, tr(p->a), tr(mkConst(x, p->w))), Z3_mk_eq(ctx, tr(p), tr(mkConst(y, p->w)))));
            } }
        Z3_lbool r = Z3_solver_check(ctx, s), out = Z3_L_UNDEF;
        if (r == Z3_L_FALSE) out = r;
        else if (r == Z3_L_TRUE) {
            std::unordered_map<Expr*, bool> seen; std::vector<Expr*> vs; for (Expr* e : q) varsOf(e, seen, vs);
            Model m(P.vars.size(), 0), base; Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
            for (Expr* v : vs) { Z3_ast o; if (v->w <= 64 && Z3_model_eval(ctx, zm, tr(v), true, &o)) { uint64_t t; Z3_get_numeral_uint64(ctx, o, &t); m[(size_t)v->k] = t; } }
            Z3_model_dec_ref(ctx, zm); base = m;
            for (int n = 0; n < 60000; n++) {
                P.stamp++; bool ok = true; for (Expr* e : q) if (!evalRec(e, m)) { ok = false; break; }
                if (ok) { for (Expr* v : vs) found.push_back({(u32)v->k, m[(size_t)v->k]}); out = Z3_L_TRUE; break; }
                for (Expr* v : vs) if (v->w >= 32 && v->w <= 64) { unsigned keep = n % 4 == 3 ? 0 : n % 4 == 2 ? 2 : n % 4 == 1 ? 4 : 8; u128 low = maskw(v->w - keep); m[(size_t)v->k] = (base[(size_t)v->k] & ~low & maskw(v->w)) | (random() & low); }
            }
        }
        Z3_solver_pop(ctx, s, 1);
        abstract = false; return out;
    }
    // 1 sat (model filled for the variables of the query), 0 unsat, -1 unknown
    int check(std::vector<Expr*> q, Model* model) {
        for (Expr* e : q) if (isC(e) && !e->k) return 0;
        std::sort(q.begin(), q.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
        q.erase(std::unique(q.begin(), q.end()), q.end());
        std::vector<u32> key; u64 h = 1469598103934665603ull;
        for (Expr* e : q) { if (isC(e)) continue; key.push_back(e->id); h = (h ^ e->id) * 1099511628211ull; h ^= h >> 29; }
        if (key.empty()) return 1;
        auto& bucket = cache[h];
        for (auto& kv : bucket) if (kv.first == key) {
            S->queryHits++;
            if (model) apply(kv.second, *model);
            return kv.second.sat;
        }
        auto t0 = std::chrono::steady_clock::now();
        Z3_solver_push(ctx, s);
        VarMask vm; std::vector<Expr*> orig = q;
        std::vector<Basis> basis = changeBasis(q);
        for (Expr* e : orig) if (!isC(e)) vm |= e->vars;
        for (Expr* e : q) if (isC(e) && !e->k) q = {e};
        if (q.size() == 1 && isC(q[0]) && !q[0]->k) Z3_solver_assert(ctx, s, Z3_mk_false(ctx));
        Z3_lbool r = Z3_L_UNDEF; std::vector<std::pair<u32, u128>> found;
        std::unordered_map<Expr*, bool> seenMul; bool muls = false; for (Expr* e : q) muls |= hasProduct(e, seenMul);
        if (muls) r = products(q, found);
        else for (Expr* e : q) if (!isC(e)) Z3_solver_assert(ctx, s, boolOf(e));
        if (r == Z3_L_UNDEF) { if (muls) for (Expr* e : q) if (!isC(e)) Z3_solver_assert(ctx, s, boolOf(e)); r = Z3_solver_check(ctx, s); found.clear(); }
        // the search is heuristic: another seed, without what this solver has learnt, often decides at once
        for (unsigned tries = 1; r == Z3_L_UNDEF && tries <= 6; tries++) {
            Z3_solver_pop(ctx, s, 1); Z3_solver_dec_ref(ctx, s); fresh(tries); sinceFresh = 0; S->retries++;
            Z3_solver_push(ctx, s);
            for (Expr* e : q) if (!isC(e)) Z3_solver_assert(ctx, s, boolOf(e)); else if (!e->k) Z3_solver_assert(ctx, s, Z3_mk_false(ctx));
            r = Z3_solver_check(ctx, s); found.clear();
        }
        if (r == Z3_L_UNDEF && getenv("SYMIR_DUMP")) fprintf(stderr, "unknown: %s\n", Z3_solver_to_string(ctx, s));
        Res res; res.sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (r == Z3_L_TRUE && !found.empty()) {
            for (auto& kv : found) { u128 val = kv.second; Expr* v = P.varByName[P.vars[kv.first].name]; for (auto& b : basis) if (b.var == v) val = val * b.inv->k & maskw(v->w); res.model.push_back({kv.first, val}); }
        } else if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
            for (size_t i = 0; i < P.vars.size(); i++) {
                unsigned ix = i & 255; if (!((vm.m[ix >> 6] >> (ix & 63)) & 1)) continue;
                if (P.vars.size() > 256 && !used(orig, i)) continue;
                Expr* v = P.varByName[P.vars[i].name];
                Z3_ast out; u128 val = 0;
                if (v->w <= 64) { if (Z3_model_eval(ctx, m, tr(v), true, &out)) { uint64_t t; Z3_inc_ref(ctx, out); Z3_get_numeral_uint64(ctx, out, &t); val = t; Z3_dec_ref(ctx, out); } }
                else for (int part = 0; part < 2; part++) {
                    Z3_ast ex = Z3_mk_extract(ctx, part ? v->w - 1 : 63, part ? 64 : 0, tr(v));
                    if (Z3_model_eval(ctx, m, ex, true, &out)) { uint64_t t; Z3_get_numeral_uint64(ctx, out, &t); val |= (u128)t << (64 * part); }
                }
                for (auto& b : basis) if (b.var == v) val = val * b.inv->k & maskw(v->w);
                res.model.push_back({(u32)i, val});
            }
            Z3_model_dec_ref(ctx, m);
        }
        Z3_solver_pop(ctx, s, 1);
        if (++sinceFresh >= 100) { Z3_solver_dec_ref(ctx, s); fresh(); sinceFresh = 0; }
        S->solverNs += std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t0).count();
        S->queries++; (res.sat == 1 ? S->sat : S->unsat)++;
        if (res.sat >= 0) bucket.push_back({key, res});
        if (model) apply(res, *model);
        return res.sat;
    }
    bool used(const std::vector<Expr*>& q, size_t var) {
        std::vector<Expr*> st(q.begin(), q.end()); std::unordered_map<Expr*, bool> seen;
        while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (!e || seen[e]) continue; seen[e] = true;
            if (e->op == Op::Var && (size_t)e->k == var) return true; st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
        return false;
    }
    void apply(const Res& r, Model& m) { for (auto& kv : r.model) { if (m.size() <= kv.first) m.resize(kv.first + 1, 0); m[kv.first] = kv.second; } }
};
