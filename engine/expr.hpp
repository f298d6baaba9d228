// Hash-consed bit-vector expressions, width 1..128.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <z3.h>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i32 = int32_t; using i64 = int64_t;
using u128 = unsigned __int128; using i128 = __int128;

enum class Op : u8 {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat
};

struct VarMask {
    u64 m[4] = {0, 0, 0, 0};
    void operator|=(const VarMask& o) { for (int i = 0; i < 4; i++) m[i] |= o.m[i]; }
    bool intersects(const VarMask& o) const { for (int i = 0; i < 4; i++) if (m[i] & o.m[i]) return true; return false; }
    bool subset(const VarMask& o) const { for (int i = 0; i < 4; i++) if (m[i] & ~o.m[i]) return false; return true; }
    bool empty() const { return !(m[0] | m[1] | m[2] | m[3]); }
    void minus(const VarMask& o) { for (int i = 0; i < 4; i++) m[i] &= ~o.m[i]; }
};

struct Expr {
    Op op;
    u16 w;
    u16 leaves;      // >0: tree of Ite over constants, that many leaves
    u32 id;
    Expr *a, *b, *c;
    u128 k;          // constant / var index / extract low bit
    VarMask vars;
    u64 stamp = 0;
    u128 ev = 0;
    Z3_ast z = nullptr;
};

static constexpr int MAXLEAVES = 256;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) { return w >= 128 ? (i128)v : ((i128)(v << (128 - w))) >> (128 - w); }

struct VarInfo { std::string name; unsigned w; u64 lo = 0, hi = 0; bool small = false; };

struct ExprPool {
    struct Key { size_t h; };
    std::vector<Expr*> table; size_t count = 0; u32 nextId = 1;
    std::vector<VarInfo> vars; std::unordered_map<std::string, Expr*> varByName;
    u64 stamp = 1;
    ExprPool() : table(1 << 16, nullptr) {}

    static size_t hash(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k) {
        u64 h = (u64)op * 0x9E3779B97F4A7C15ull + w;
        auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix((u64)k); mix((u64)(k >> 64));
        return h;
    }
    Expr* raw(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 k) {
        size_t h = hash(op, w, a, b, c, k), m = table.size() - 1, i = h & m;
        while (Expr* e = table[i]) {
            if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
            i = (i + 1) & m;
        }
        Expr* e = new Expr{};
        e->op = op; e->w = (u16)w; e->a = a; e->b = b; e->c = c; e->k = k; e->id = nextId++;
        for (Expr* x : {a, b, c}) if (x) e->vars |= x->vars;
        e->leaves = 0;
        if (op == Op::Const) e->leaves = 1;
        else if (op == Op::Ite && b->leaves && c->leaves && b->leaves + c->leaves <= MAXLEAVES) e->leaves = b->leaves + c->leaves;
        if (op == Op::Var) { unsigned ix = (unsigned)k & 255; e->vars.m[ix >> 6] |= 1ull << (ix & 63); }
        table[i] = e;
        if (++count * 2 > table.size()) grow();
        return e;
    }
    void grow() {
        std::vector<Expr*> o; o.swap(table); table.assign(o.size() * 2, nullptr); size_t m = table.size() - 1;
        for (Expr* e : o) if (e) { size_t i = hash(e->op, e->w, e->a, e->b, e->c, e->k) & m; while (table[i]) i = (i + 1) & m; table[i] = e; }
    }
};
extern ExprPool P;

inline Expr* mkConst(u128 v, unsigned w) { return P.raw(Op::Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
inline bool isC(Expr* e) { return e->op == Op::Const; }

inline u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : m;
    case Op::URem: return b ? (a % b) & m : a;
    case Op::SDiv: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(x / y) & m; }
    case Op::SRem: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; return (u128)(x % y) & m; }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case Op::AShr: { i128 x = sextw(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & m; }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextw(a, w) < sextw(b, w);
    case Op::Sle: return sextw(a, w) <= sextw(b, w);
    default: abort();
    }
}

// inverse of an odd constant modulo 2^w
inline u128 oddInverse(u128 c, unsigned w) { u128 x = c; for (int i = 0; i < 7; i++) x *= 2 - c * x; return x & maskw(w); }
inline bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);

inline Expr* mkNot(Expr* e) {
    if (isC(e)) return mkConst(!e->k, 1);
    if (e->op == Op::Xor && isC(e->b) && e->b->k == 1) return e->a;
    if (e->op == Op::Ult) return mkBin(Op::Ule, e->b, e->a);
    if (e->op == Op::Ule) return mkBin(Op::Ult, e->b, e->a);
    if (e->op == Op::Slt) return mkBin(Op::Sle, e->b, e->a);
    if (e->op == Op::Sle) return mkBin(Op::Slt, e->b, e->a);
    return P.raw(Op::Xor, 1, e, mkConst(1, 1), nullptr, 0);
}
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(Op::And, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(Op::Or, a, b); }

// push an operation through a constant tree
template<class F> Expr* mapTree(Expr* e, F f, std::unordered_map<Expr*, Expr*>& memo) {
    if (isC(e)) return f(e);
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr* x = mapTree(e->b, f, memo); Expr* y = mapTree(e->c, f, memo);
    Expr* r = mkIte(e->a, x, y);
    memo[e] = r; return r;
}
template<class F> Expr* mapTree(Expr* e, F f) { std::unordered_map<Expr*, Expr*> memo; return mapTree(e, f, memo); }

inline Expr* mkBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w, rw = isCmp(op) ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", (int)op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->k, b->k, w), rw);
    // constant on the right for commutative operations
    switch (op) {
    case Op::Add: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Eq:
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    default: break;
    }
    u128 m = maskw(w);
    if (isC(b)) {
        u128 k = b->k;
        switch (op) {
        case Op::Add: case Op::Sub: if (k == 0) return a; break;
        case Op::Or: if (k == 0) return a; if (k == m) return b; break;
        case Op::Xor: if (k == 0) return a; if (w == 1) return mkNot(a); break;
        case Op::Shl: case Op::LShr: if (k == 0) return a; if (k >= w) return mkConst(0, w); break;
        case Op::AShr: if (k == 0) return a; break;
        case Op::And: if (k == 0) return b; if (k == m) return a; break;
        case Op::Mul: if (k == 0) return b; if (k == 1) return a; break;
        case Op::UDiv: case Op::SDiv: if (k == 1) return a; break;
        case Op::URem: if (k == 1) return mkConst(0, w); break;
        case Op::Ult: if (k == 0) return mkConst(0, 1); if (k == 1) return mkBin(Op::Eq, a, mkConst(0, w)); break;
        case Op::Ule: if (k == m) return mkConst(1, 1); if (k == 0) return mkBin(Op::Eq, a, b); break;
        case Op::Eq:
            if (w == 1) return k ? a : mkNot(a);
            if (a->op == Op::ZExt) {
                if (k >> a->a->w) return mkConst(0, 1);
                return mkBin(Op::Eq, a->a, mkConst(k, a->a->w));
            }
            if (a->op == Op::SExt) {
                if ((u128)(sextw(k, a->a->w)) != (u128)sextw(k, w)) return mkConst(0, 1);
                return mkBin(Op::Eq, a->a, mkConst(k, a->a->w));
            }
            if (a->op == Op::Mul && isC(a->b) && (a->b->k & 1)) return mkBin(Op::Eq, a->a, mkConst(k * oddInverse(a->b->k, w), w));
            if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Eq, a->a, mkConst(k - a->b->k, w));
            if (a->op == Op::Xor && isC(a->b)) return mkBin(Op::Eq, a->a, mkConst(k ^ a->b->k, w));
            if (a->op == Op::Shl && isC(a->b) && a->a->op == Op::ZExt && a->a->a->w + (unsigned)a->b->k <= w) {
                if (k & maskw((unsigned)a->b->k)) return mkConst(0, 1);
                return mkBin(Op::Eq, a->a, mkConst(k >> (unsigned)a->b->k, w));
            }
            break;
        default: break;
        }
        if (op == Op::Sub) return mkBin(Op::Add, a, mkConst(-k, w));
        if (op == Op::Add && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, mkConst(a->b->k + k, w));
        if (op == Op::And && a->op == Op::And && isC(a->b)) return mkBin(Op::And, a->a, mkConst(a->b->k & k, w));
        if (op == Op::Mul && (k & (k - 1)) == 0) { unsigned s = 0; while (!((k >> s) & 1)) s++; return mkBin(Op::Shl, a, mkConst(s, w)); }
        if (op == Op::Mul && a->op == Op::Mul && isC(a->b)) return mkBin(Op::Mul, a->a, mkConst(a->b->k * k, w));
        if (op == Op::Shl && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Shl, a->a, b), mkConst(a->b->k << (unsigned)k, w));
        if (op == Op::Shl && a->op == Op::Shl && isC(a->b)) return mkBin(Op::Shl, a->a, mkConst(a->b->k + k, w));
        if (op == Op::UDiv && (k & (k - 1)) == 0 && k) { unsigned s = 0; while (!((k >> s) & 1)) s++; return mkBin(Op::LShr, a, mkConst(s, w)); }
        if (op == Op::URem && (k & (k - 1)) == 0 && k) return mkBin(Op::And, a, mkConst(k - 1, w));
        if (a->op == Op::ZExt && (op == Op::Ult || op == Op::Ule)) {
            u128 im = maskw(a->a->w);
            if (k > im) return mkConst(1, 1);
            return mkBin(op, a->a, mkConst(k, a->a->w));
        }
        if (op == Op::LShr && a->op == Op::ZExt && k >= a->a->w) return mkConst(0, w);
        if (op == Op::And && a->op == Op::ZExt) {
            u128 im = maskw(a->a->w);
            if ((k & im) == im) return a;
            if ((k & im) == 0) return mkConst(0, w);
        }
        if (a->leaves > 1) return mapTree(a, [&](Expr* x) { return mkConst(foldBin(op, x->k, k, w), rw); });
    } else if (isC(a)) {
        u128 k = a->k;
        switch (op) {
        case Op::Shl: case Op::LShr: if (k == 0) return a; break;
        case Op::Ult: if (k == m) return mkConst(0, 1); if (b->op == Op::ZExt && k > maskw(b->a->w)) return mkConst(0, 1);
            if (k == 0) return mkNot(mkBin(Op::Eq, b, a)); if (b->op == Op::ZExt) return mkBin(Op::Ult, mkConst(k, b->a->w), b->a); break;
        case Op::Ule: if (k == 0) return mkConst(1, 1); if (b->op == Op::ZExt && k > maskw(b->a->w)) return mkConst(0, 1);
            if (b->op == Op::ZExt) return mkBin(Op::Ule, mkConst(k, b->a->w), b->a); break;
        default: break;
        }
        if (b->leaves > 1) return mapTree(b, [&](Expr* x) { return mkConst(foldBin(op, k, x->k, w), rw); });
    }
    if (a == b) {
        switch (op) {
        case Op::Sub: case Op::Xor: case Op::URem: return mkConst(0, w);
        case Op::And: case Op::Or: return a;
        case Op::Eq: case Op::Ule: case Op::Sle: return mkConst(1, 1);
        case Op::Ult: case Op::Slt: return mkConst(0, 1);
        default: break;
        }
    }
    if (w == 1) {
        if (op == Op::And) { if (a == mkNot(b)) return mkConst(0, 1); }
        if (op == Op::Or) { if (a == mkNot(b)) return mkConst(1, 1); }
    }
    if (op == Op::Eq && a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(Op::Eq, a->a, b->a);
    if (op == Op::Eq && a->op == Op::Mul && b->op == Op::Mul && isC(a->b) && a->b == b->b && (a->b->k & 1)) return mkBin(Op::Eq, a->a, b->a);
    if (op == Op::Sub && a->op == Op::Add) { if (a->b == b) return a->a; if (a->a == b) return a->b; }
    if (a->leaves > 1 && b->leaves > 1 && (int)a->leaves * b->leaves <= 64)
        return mapTree(a, [&](Expr* x) { return mapTree(b, [&](Expr* y) { return mkConst(foldBin(op, x->k, y->k, w), rw); }); });
    return P.raw(op, rw, a, b, nullptr, 0);
}

inline Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == Op::Xor && isC(c->b)) { std::swap(a, b); c = c->a; }
    if (a->op == Op::Ite && a->a == c) a = a->b;
    if (b->op == Op::Ite && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
        if (isC(a)) return a->k ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->k ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (b->op == Op::Ite && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
    if (b->op == Op::Ite && b->c == a) return mkIte(mkOr(c, mkNot(b->a)), a, b->b);
    return P.raw(Op::Ite, a->w, c, a, b, 0);
}
inline Expr* mkZExt(Expr* e, unsigned w) {
    if (e->w == w) return e;
    if (e->leaves) return mapTree(e, [&](Expr* x) { return mkConst(x->k, w); });
    if (e->op == Op::ZExt) return P.raw(Op::ZExt, w, e->a, nullptr, nullptr, 0);
    return P.raw(Op::ZExt, w, e, nullptr, nullptr, 0);
}
inline Expr* mkSExt(Expr* e, unsigned w) {
    if (e->w == w) return e;
    if (e->leaves) return mapTree(e, [&](Expr* x) { return mkConst((u128)sextw(x->k, e->w), w); });
    if (e->op == Op::ZExt) return P.raw(Op::ZExt, w, e->a, nullptr, nullptr, 0);
    return P.raw(Op::SExt, w, e, nullptr, nullptr, 0);
}
inline Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, w);
    if (isC(hi) && hi->k == 0) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->k == lo->k + lo->w)
        return mkExtract(hi->a, (unsigned)lo->k, w);
    if (hi->leaves && lo->leaves && (int)hi->leaves * lo->leaves <= 64)
        return mapTree(hi, [&](Expr* x) { return mapTree(lo, [&](Expr* y) { return mkConst((x->k << lo->w) | y->k, w); }); });
    return P.raw(Op::Concat, w, hi, lo, nullptr, 0);
}
inline Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
    if (lo == 0 && w == e->w) return e;
    if (e->leaves) return mapTree(e, [&](Expr* x) { return mkConst(x->k >> lo, w); });
    if (e->op == Op::Extract) return mkExtract(e->a, lo + (unsigned)e->k, w);
    if (e->op == Op::ZExt) {
        if (lo >= e->a->w) return mkConst(0, w);
        if (lo + w <= e->a->w) return mkExtract(e->a, lo, w);
        if (lo == 0) return mkZExt(e->a, w);
    }
    if (e->op == Op::Concat) {
        unsigned lw = e->b->w;
        if (lo >= lw) return mkExtract(e->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(e->b, lo, w);
    }
    if (e->op == Op::Ite) { // push through: keeps byte views of pointer trees readable
        return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
    }
    return P.raw(Op::Extract, w, e, nullptr, nullptr, lo);
}
inline Expr* mkVar(const std::string& name, unsigned w) {
    auto it = P.varByName.find(name);
    if (it != P.varByName.end()) return it->second;
    unsigned ix = P.vars.size(); P.vars.push_back({name, w});
    Expr* e = P.raw(Op::Var, w, nullptr, nullptr, nullptr, ix);
    P.varByName[name] = e; return e;
}

using Model = std::vector<u128>; // by var index; missing = 0
inline u128 evalRec(Expr* e, const Model& m) {
    if (e->op == Op::Const) return e->k;
    if (e->stamp == P.stamp) return e->ev;
    u128 r;
    switch (e->op) {
    case Op::Var: r = (size_t)e->k < m.size() ? m[(size_t)e->k] & maskw(e->w) : 0; break;
    case Op::Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    case Op::ZExt: r = evalRec(e->a, m); break;
    case Op::SExt: r = (u128)sextw(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case Op::Extract: r = (evalRec(e->a, m) >> (unsigned)e->k) & maskw(e->w); break;
    case Op::Concat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    default: r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w);
    }
    e->stamp = P.stamp; e->ev = r; return r;
}
inline u128 eval(Expr* e, const Model& m) { P.stamp++; return evalRec(e, m); }
std::string exprStr(Expr* e, int depth = 6);
