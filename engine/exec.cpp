// symir: symbolic execution of LLVM IR with Z3.
#include <csignal>
#include <sys/stat.h>
#include "compile.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <set>
#include <cmath>

ExprPool P; Shared* S; Program G; MemObj freedObj{1, 0, KFreed, 0, nullptr, nullptr, nullptr};
static Solver Z;
static std::vector<State*> pending;
static std::string outDir = "."; static u64 stepLimit = 50000000; static unsigned workers = 8; static u64 maxViol = 3; static u64 maxSamples = 16; static bool quietDup = true; static double timeLimit = 0;
static std::map<std::string, u64> fixedVals; static bool concreteMode = false;
static bool leakCheck = false;
static u64 vtClass, vtSi, vtVmi, vtPtr;
static std::vector<Func*> startList;

struct PathEnd { int why; };
static thread_local int dummy;

std::string exprStr(Expr* e, int d) {
    static const char* nm[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "zext", "sext", "extract", "concat"};
    if (e->op == Op::Const) { char b[40]; snprintf(b, 40, "0x%llx", (unsigned long long)(u64)e->k); return b; }
    if (e->op == Op::Var) return P.vars[(size_t)e->k].name;
    if (!d) return "...";
    std::string r = std::string("(") + nm[(int)e->op];
    for (Expr* x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x, d - 1);
    return r + ")";
}

static std::string where(State& st) {
    std::string r; int n = 0;
    for (size_t i = st.frames.size(); i-- > 0 && n < 14; n++) {
        Frame& f = st.frames[i]; std::string d = llvm::demangle(f.f->name); if (d.size() > 400) d = d.substr(0, 120) + " ... " + d.substr(d.size() - 280);
        u32 line = f.pc < f.f->lines.size() ? f.f->lines[f.pc] : 0;
        r += "    at " + d + ":" + std::to_string(line) + "\n";
    }
    return r;
}
[[noreturn]] static void engineError(State& st, const std::string& msg) {
    if (S->errCount++ < 5) {
        std::string t = "symir: engine error: " + msg + "\n" + where(st);
        fputs(t.c_str(), stderr); if (!S->firstErr[0]) strncpy(S->firstErr, t.c_str(), sizeof S->firstErr - 1);
    }
    S->errors++; throw PathEnd{3};
}

// ---------- path condition ----------
static std::unordered_map<Expr*, u64> ttCache;
static int singleVar(Expr* e) {
    if (P.vars.size() > 256) return -1;
    int r = -1;
    for (int i = 0; i < 4; i++) if (e->vars.m[i]) { if (r >= 0 || (e->vars.m[i] & (e->vars.m[i] - 1))) return -1; r = i * 64 + __builtin_ctzll(e->vars.m[i]); }
    return r;
}
static u64 truth(Expr* e, int v) {
    auto it = ttCache.find(e); if (it != ttCache.end()) return it->second;
    VarInfo& vi = P.vars[v]; u64 t = 0; static Model m; m.assign(v + 1, 0);
    for (u64 x = vi.lo; x <= vi.hi; x++) { m[v] = x; if (eval(e, m)) t |= 1ull << (x - vi.lo); }
    return ttCache[e] = t;
}
static int known(State& st, Expr* c) {
    if (isC(c)) return (int)(u64)c->k;
    if (c->vars.subset(st.pinned)) return eval(c, st.model) != 0;
    int v = singleVar(c);
    if (v >= 0 && P.vars[v].small) {
        u64 t = truth(c, v), d = st.dom[v];
        if (!(d & ~t)) return 1;
        if (!(d & t)) return 0;
    }
    Expr* n = mkNot(c);
    for (Expr* k : st.cons) { if (k == c) return 1; if (k == n) return 0; }
    return -1;
}
static void pin(State& st, int v) { st.pinned.m[v >> 6] |= 1ull << (v & 63); }
static void addCons(State& st, Expr* c) {
    if (isC(c)) return;
    if (c->op == Op::And && c->w == 1) { addCons(st, c->a); addCons(st, c->b); return; }
    if (known(st, c) == 1) return;
    st.cons.push_back(c);
    int v = singleVar(c);
    if (v >= 0) {
        if (P.vars[v].small) { st.dom[v] &= truth(c, v); if (st.dom[v] && !(st.dom[v] & (st.dom[v] - 1))) pin(st, v); }
        else if (c->op == Op::Eq && c->a->op == Op::Var && isC(c->b)) pin(st, v);
    }
}
static std::vector<Expr*> slice(State& st, Expr* c) {
    std::vector<Expr*> q{c}; VarMask need = c->vars; need.minus(st.pinned); VarMask all = c->vars;
    std::vector<bool> in(st.cons.size(), false); bool ch = !need.empty();
    while (ch) {
        ch = false;
        for (size_t i = 0; i < st.cons.size(); i++) if (!in[i] && st.cons[i]->vars.intersects(need)) {
            in[i] = true; q.push_back(st.cons[i]); VarMask v = st.cons[i]->vars; all |= v; v.minus(st.pinned); if (!v.subset(need)) { need |= v; ch = true; }
        }
    }
    for (size_t i = 0; i < P.vars.size() && i < 256; i++) if (((all.m[i >> 6] >> (i & 63)) & 1) && ((st.pinned.m[i >> 6] >> (i & 63)) & 1)) {
        Expr* v = P.varByName[P.vars[i].name]; q.push_back(mkBin(Op::Eq, v, mkConst(i < st.model.size() ? st.model[i] : 0, v->w)));
    }
    return q;
}
static bool feasible(State& st, Expr* c, Model* m) {
    int k = known(st, c); if (k == 0) return false;
    if (k == 1) return true;
    if (P.vars.size() > 256) { st.pinned = VarMask(); }
    if (m) *m = st.model;
    int r = Z.check(slice(st, c), m);
    if (r < 0) { S->undecided++; return false; } // the solver gave up: left unexplored, and counted
    return r == 1;
}
static void forkWith(State& st, Expr* c, const Model& m) {
    State* n = st.fork(); n->model = m; addCons(*n, c); pending.push_back(n); S->forks++;
}
static bool branch(State& st, Expr* c) {
    int k = known(st, c); if (k >= 0) return k;
    bool mv = eval(c, st.model) != 0; Expr* same = mv ? c : mkNot(c); Expr* other = mv ? mkNot(c) : c;
    Model m;
    if (feasible(st, other, &m)) forkWith(st, other, m);
    addCons(st, same);
    return mv;
}
static Expr* toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static Val toV(Expr* e) { if (isC(e) && e->w <= 64) return {(u64)e->k, nullptr}; return {0, e}; }
static Val norm(State& st, Val v) { if (v.e && v.e->w <= 64 && !isC(v.e) && v.e->vars.subset(st.pinned)) return {(u64)eval(v.e, st.model), nullptr}; return v; }
static u64 concretize(State& st, Val v, unsigned w) {
    v = norm(st, v); if (!v.e) return v.v;
    if (isC(v.e)) return (u64)v.e->k;
    u128 k = eval(v.e, st.model); Expr* eq = mkBin(Op::Eq, v.e, mkConst(k, w)); Model m;
    if (known(st, eq) != 1 && feasible(st, mkNot(eq), &m)) forkWith(st, mkNot(eq), m);
    addCons(st, eq);
    return (u64)k;
}

// ---------- reporting ----------
static void writeInputs(State& st, FILE* f, const Model& m) {
    for (Expr* v : st.inputs) { size_t ix = (size_t)v->k; u128 x = ix < m.size() ? m[ix] & maskw(v->w) : P.vars[ix].lo; fprintf(f, "%s=%llu\n", P.vars[ix].name.c_str(), (unsigned long long)(u64)x); }
}
static void writeLog(State& st, FILE* f, const Model& m) {
    for (auto& l : st.log) { u64 v = l.v.e ? (u64)eval(l.v.e, m) : l.v.v; fprintf(f, "log %s %llu\n", l.tag, (unsigned long long)v); }
}
static void violation(State& st, const std::string& msg, const Model& m) {
    u64 n = S->violations++;
    if (n < maxViol) {
        std::string p = outDir + "/cex-" + std::to_string(n) + ".txt"; FILE* f = fopen(p.c_str(), "w");
        fprintf(f, "# %s\n", msg.c_str()); std::string w = where(st); std::string line; for (char c : w) { if (c == '\n') { fprintf(f, "#%s\n", line.c_str()); line.clear(); } else line += c; }
        writeInputs(st, f, m); fclose(f);
    }
    if (n + 1 >= maxViol) S->stop = 1;
}
[[noreturn]] static void fail(State& st, const std::string& msg) { violation(st, msg, st.model); throw PathEnd{2}; }

// ---------- memory ----------
static const char* accessErr(State& st, u64 addr, u64 n, bool write, MemObj** out, u32* off) {
    if (addr < 4096) return "null pointer access";
    if (addr < ABASE) return "access through a wild pointer";
    u64 id = objId(addr); MemObj* o = st.find(id);
    if (!o) return "access through a wild pointer";
    if (o == &freedObj) return "use after free";
    u64 d = addr - objBase(id);
    if (d > o->size || d + n > o->size) return "out-of-bounds access";
    if (write && (o->kind == KConst)) return "write to constant memory";
    if (write && id < st.frozen && st.isFrozen(id)) return "memory that concurrent calls share is written";
    *out = o; *off = (u32)d; return nullptr;
}
static Val loadAt(MemObj* o, u32 off, unsigned w, unsigned n) {
    if (!o->sym) {
    conc:
        if (w <= 64) { u64 v = 0; memcpy(&v, o->data + off, n); return {v & (u64)maskw(w), nullptr}; }
        u128 k = 0; memcpy(&k, o->data + off, n); return {0, mkConst(k, w)};
    }
    bool any = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { any = true; break; }
    if (!any) goto conc;
    SymByte* s = o->sym + off; bool whole = s[0].e && s[0].idx == 0 && s[0].e->w == n * 8;
    for (unsigned i = 1; whole && i < n; i++) whole = s[i].e == s[0].e && s[i].idx == i;
    Expr* e;
    if (whole) e = s[0].e;
    else {
        e = nullptr;
        for (int i = n - 1; i >= 0; i--) { Expr* b = s[i].e ? mkExtract(s[i].e, s[i].idx * 8, 8) : mkConst(o->data[off + i], 8); e = e ? mkConcat(e, b) : b; }
    }
    if (w < n * 8) e = mkExtract(e, 0, w);
    return toV(e);
}
static void storeAt(MemObj* o, u32 off, Val v, unsigned w, unsigned n) {
    if (v.e && !isC(v.e)) {
        if (!o->sym) o->sym = (SymByte*)calloc(o->size ? o->size : 1, sizeof(SymByte));
        Expr* e = mkZExt(v.e, n * 8);
        for (unsigned i = 0; i < n; i++) o->sym[off + i] = {e, i};
    } else {
        u128 k = v.e ? v.e->k : (u128)v.v; memcpy(o->data + off, &k, n);
        if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr;
    }
}
// Give a symbolic address as a tree of constants (enumerating its feasible values with the solver if it is not one).
static Expr* addrTree(State& st, Expr* e, unsigned n, bool write) {
    if (e->leaves) return e;
    std::vector<u128> vals; Expr* excl = mkConst(1, 1); Model m = st.model, bad; Expr* t = nullptr; const char* err = nullptr;
    for (;;) {
        u128 v = eval(e, m); vals.push_back(v); MemObj* o; u32 off;
        if (n && !err) if (const char* er = accessErr(st, (u64)v, n, write, &o, &off)) { err = er; bad = m; }
        if (vals.size() > 512 && err) { violation(st, std::string(err) + (write ? " (store, symbolic address)" : " (load, symbolic address)"), bad); throw PathEnd{2}; }
        if (vals.size() > 512) engineError(st, "symbolic address with more than 512 values: " + exprStr(e, 4));
        excl = mkAnd(excl, mkNot(mkBin(Op::Eq, e, mkConst(v, 64))));
        if (!feasible(st, excl, &m)) break;
        if (known(st, excl) == 1) engineError(st, "addrTree");
    }
    std::sort(vals.begin(), vals.end());
    for (size_t i = vals.size(); i-- > 0;) t = t ? mkIte(mkBin(Op::Eq, e, mkConst(vals[i], 64)), mkConst(vals[i], 64), t) : mkConst(vals[i], 64);
    return t;
}
template<class F> static Expr* walkTree(State& st, Expr* t, Expr* pc, F f, std::unordered_map<Expr*, Expr*>& memo) {
    // f(leafAddr, pathCond) -> Expr* or null for an infeasible leaf
    if (isC(t)) return f((u64)t->k, pc);
    int k = known(st, t->a);
    if (k == 1) return walkTree(st, t->b, pc, f, memo);
    if (k == 0) return walkTree(st, t->c, pc, f, memo);
    Expr* x = walkTree(st, t->b, mkAnd(pc, t->a), f, memo); Expr* y = walkTree(st, t->c, mkAnd(pc, mkNot(t->a)), f, memo);
    if (!x) return y;
    if (!y) return x;
    return mkIte(t->a, x, y);
}
static Val load(State& st, Val p, unsigned w, unsigned n) {
    MemObj* o; u32 off;
    if (p.e) p = norm(st, p);
    if (!p.e) {
        if (const char* er = accessErr(st, p.v, n, false, &o, &off)) fail(st, std::string(er) + " (load)");
        Val v = loadAt(o, off, w, n); return v.e ? norm(st, v) : v;
    }
    Expr* t = addrTree(st, p.e, n, false); std::unordered_map<Expr*, Expr*> memo; Model m;
    Expr* r = walkTree(st, t, mkConst(1, 1), [&](u64 a, Expr* pc) -> Expr* {
        MemObj* o; u32 off;
        if (const char* er = accessErr(st, a, n, false, &o, &off)) {
            Model mm = st.model;
            if (feasible(st, pc, &mm)) { Model use = known(st, pc) == 1 ? st.model : mm; violation(st, std::string(er) + " (load, symbolic address)", use); Expr* np = mkNot(pc); if (!feasible(st, np, &mm)) throw PathEnd{2}; if (known(st, np) != 1 && !eval(np, st.model)) st.model = mm; addCons(st, np); }
            return nullptr;
        }
        return toE(loadAt(o, off, w, n), w);
    }, memo);
    if (!r) throw PathEnd{2};
    return norm(st, toV(r));
}
static void store(State& st, Val p, Val v, unsigned w, unsigned n) {
    MemObj* o; u32 off;
    if (p.e) p = norm(st, p);
    if (!p.e) {
        if (const char* er = accessErr(st, p.v, n, true, &o, &off)) fail(st, std::string(er) + " (store)");
        o = st.writable(objId(p.v)); storeAt(o, off, v, w, n); return;
    }
    Expr* t = addrTree(st, p.e, n, true); std::unordered_map<Expr*, Expr*> memo; std::vector<std::pair<u64, Expr*>> leaves;
    walkTree(st, t, mkConst(1, 1), [&](u64 a, Expr* pc) -> Expr* { leaves.push_back({a, pc}); return nullptr; }, memo);
    std::map<u64, Expr*> by; for (auto& l : leaves) { auto& e = by[l.first]; e = e ? mkOr(e, l.second) : l.second; }
    for (auto& l : by) {
        if (const char* er = accessErr(st, l.first, n, true, &o, &off)) {
            Model mm = st.model;
            if (feasible(st, l.second, &mm)) { violation(st, std::string(er) + " (store, symbolic address)", known(st, l.second) == 1 ? st.model : mm); throw PathEnd{2}; }
            continue;
        }
        o = st.writable(objId(l.first)); Val old = loadAt(o, off, w, n);
        storeAt(o, off, toV(mkIte(l.second, toE(v, w), toE(old, w))), w, n);
    }
}
static void copyMem(State& st, u64 d, u64 s, u64 n) {
    if (!n) return;
    MemObj *so, *dobj; u32 soff, doff;
    if (const char* er = accessErr(st, s, n, false, &so, &soff)) fail(st, std::string(er) + " (memcpy source)");
    if (const char* er = accessErr(st, d, n, true, &dobj, &doff)) fail(st, std::string(er) + " (memcpy destination)");
    dobj = st.writable(objId(d)); so = st.find(objId(s));
    memmove(dobj->data + doff, so->data + soff, n);
    if (so->sym || dobj->sym) {
        if (!dobj->sym) dobj->sym = (SymByte*)calloc(dobj->size ? dobj->size : 1, sizeof(SymByte));
        if (so->sym) memmove(dobj->sym + doff, so->sym + soff, n * sizeof(SymByte)); else memset((void*)(dobj->sym + doff), 0, n * sizeof(SymByte));
    }
}
static std::string cstr(State& st, Val p) {
    std::string r; if (p.e) return "<symbolic>";
    for (u64 a = p.v;; a++) { MemObj* o; u32 off; if (accessErr(st, a, 1, false, &o, &off)) return r; if (!o->data[off] || r.size() > 200) return r; r += (char)o->data[off]; }
}
static u64 rd64(State& st, u64 a) { MemObj* o; u32 off; if (accessErr(st, a, 8, false, &o, &off)) return 0; u64 v; memcpy(&v, o->data + off, 8); return v; }

// ---------- exceptions ----------
static bool derives(State& st, u64 ti, u64 want, u64 obj, u64& adj) {
    if (ti == want) { adj = obj; return true; }
    u64 vt = rd64(st, ti);
    if (vtSi && vt == vtSi + 16) return derives(st, rd64(st, ti + 16), want, obj, adj);
    if (vtVmi && vt == vtVmi + 16) {
        u32 n = (u32)(rd64(st, ti + 16) >> 32);
        for (u32 i = 0; i < n; i++) {
            u64 b = rd64(st, ti + 24 + i * 16); i64 fl = (i64)rd64(st, ti + 32 + i * 16); i64 off = fl >> 8;
            if (fl & 1) off = (i64)rd64(st, rd64(st, obj) + off);
            if (derives(st, b, want, obj + off, adj)) return true;
        }
    }
    return false;
}
static void popFrame(State& st) {
    Frame& f = st.frames.back();
    while (st.allocas.size() > f.allocaStart) { st.release(st.allocas.back()); st.allocas.pop_back(); }
    st.regs.resize(f.base); st.frames.pop_back();
}
static void takeEdge(State& st, u32 ei) {
    Frame& f = st.frames.back(); Edge& e = f.f->edges[ei]; Val* L = st.regs.data() + f.base;
    if (!e.copies.empty()) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
        size_t i = 0; for (auto& c : e.copies) t[i++] = c.second >= 0 ? L[c.second] : G.K[~c.second];
        i = 0; for (auto& c : e.copies) L[c.first] = t[i++];
    }
    f.pc = e.pc;
}
static u32 curExc; static u64 curSel;
static void unwind(State& st, u32 ex) {
    while (!st.frames.empty()) {
        Frame& f = st.frames.back(); Insn& in = f.f->code[f.pc];
        if (in.op == I::Call) {
            CallSite* cs = f.f->calls[in.x].get();
            if (cs->invoke) {
                u32 tp = f.f->edges[cs->unwind].pc; Insn& li = f.f->code[tp];
                if (li.op != I::Landing) engineError(st, "unwind edge without landingpad");
                LandingInfo& lp = f.f->lps[li.x]; bool hit = false; u64 sel = 0;
                for (auto& c : lp.clauses) {
                    if (!c.first) { hit = false; fail(st, "exception specification violated"); }
                    u64 adj = st.exc[ex].obj;
                    if (c.second == 0 || (st.exc[ex].tinfo && derives(st, st.exc[ex].tinfo, c.second, st.exc[ex].obj, adj))) { hit = true; sel = c.second ? (c.second - ABASE) >> 20 : 1; st.exc[ex].adjusted = adj; break; }
                }
                if (hit || lp.cleanup) {
                    takeEdge(st, cs->unwind); Frame& g = st.frames.back(); Val* L = st.regs.data() + g.base; L[li.dst] = {st.exc[ex].obj, nullptr}; L[li.dst + 1] = {hit ? sel : 0, nullptr};
                    g.pc++; return;
                }
            }
        }
        popFrame(st);
    }
    fail(st, "uncaught exception");
}

static void popFrames(State& st) { while (!st.frames.empty()) popFrame(st); }
static double dbits(Val v, unsigned w) { if (w == 32) { float f; u32 x = (u32)v.v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.v, 8); return d; }
static Val fbits(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return {x, nullptr}; } u64 x; memcpy(&x, &d, 8); return {x, nullptr}; }

static void pushCall(State& st, Func* F, const std::vector<Val>& args, CallSite* cs) {
    if (!F->compiled) G.compile(F);
    if (st.frames.size() > 4000) fail(st, "stack overflow (call depth 4000)");
    bool variadic = args.size() != F->argW.size() && (F->name == "fprintf" || F->name == "snprintf" || F->name == "sprintf"); // their models take the variable arguments as parameters
    if (variadic && args.size() > F->argW.size()) engineError(st, "arguments of " + F->name);
    if (args.size() != F->argW.size() && !variadic) fail(st, "call to " + F->name + " with a wrong number of arguments");
    if (F->index < (1 << 16)) S->fnSeen[F->index] = 1;
    u32 base = st.regs.size(); st.regs.resize(base + F->nslots, Val{0, nullptr});
    for (size_t i = 0; i < args.size(); i++) st.regs[base + i] = args[i];
    if (variadic) for (size_t i = 0; i < args.size(); i++) if (Expr* e = args[i].e) if (e->w < F->argW[i]) st.regs[base + i].e = mkZExt(e, F->argW[i]);
    st.frames.push_back({F, 0, base, cs, (u32)st.allocas.size()});
}
static void setRet(State& st, Val v) { Frame& f = st.frames.back(); CallSite* cs = f.f->calls[f.f->code[f.pc].x].get(); if (cs->dst >= 0) st.regs[f.base + cs->dst] = v; }
static void setRet2(State& st, Val v, Val v2) { Frame& f = st.frames.back(); CallSite* cs = f.f->calls[f.f->code[f.pc].x].get(); if (cs->dst >= 0) { st.regs[f.base + cs->dst] = v; st.regs[f.base + cs->dst + 1] = v2; } }
static void callDone(State& st) { Frame& f = st.frames.back(); CallSite* cs = f.f->calls[f.f->code[f.pc].x].get(); if (cs->invoke) takeEdge(st, cs->normal); else f.pc++; }

static void finishPath(State& st, const char* how) {
    S->completed++;
    if (leakCheck && st.heapLive) fail(st, "memory leak: " + std::to_string(st.heapLive) + " blocks still allocated");
    u64 n = S->completed;
    bool take = (n & (n - 1)) == 0 || n % 997 == 0;
    if (take) { u64 k = S->samples++; if (k < maxSamples) {
        std::string p = outDir + "/sample-" + std::to_string(k) + ".txt"; FILE* f = fopen(p.c_str(), "w"); writeInputs(st, f, st.model); fprintf(f, "end %s\n", how); writeLog(st, f, st.model); fclose(f); } }
}
static Val binary(State& st, Op o, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) return {(u64)foldBin(o, a.v, b.v, w), nullptr};
    a = norm(st, a); b = norm(st, b);
    return toV(mkBin(o, toE(a, w), toE(b, w)));
}
static Val boolSel(State& st, Val c, Val x, Val y, unsigned w) {
    c = norm(st, c); if (!c.e) return c.v ? x : y;
    int k = known(st, c.e); if (k >= 0) return k ? x : y;
    return toV(mkIte(c.e, toE(x, w), toE(y, w)));
}

// if (c) { *p = x; } on a symbolic condition: both ways at once, *p = c ? x : *p, rather than two paths.
// Only in the library: its loops compare symbolic numbers, to keep the least and the greatest.
static bool condStores(State& st, Frame* fr, Expr* c, bool sense, u32 te, u32 je) {
    Func* F = fr->f; const Insn* code = F->code.data(); Edge &T = F->edges[te], &J = F->edges[je];
    if (!T.copies.empty()) return false;
    u32 pc = T.pc, n = 0; Val* L = st.regs.data() + fr->base; auto V = [&](i32 o) { return o >= 0 ? L[o] : G.K[~o]; };
    for (; code[pc].op == I::Store && n < 4; pc++, n++) {
        const Insn& in = code[pc]; Val p = V(in.a); MemObj* o; u32 off;
        if (in.sub || p.e || accessErr(st, p.v + in.x, in.w2, true, &o, &off)) return false;
    }
    if (!n || code[pc].op != I::Br) return false;
    Edge& B = F->edges[code[pc].x]; if (B.pc != J.pc) return false;
    Val cv = {0, sense ? c : mkNot(c)};
    for (u32 q = T.pc; q < pc; q++) { const Insn& in = code[q]; Val p = {V(in.a).v + in.x, nullptr}; store(st, p, boolSel(st, cv, V(in.b), load(st, p, in.w, in.w2), in.w), in.w, in.w2); }
    std::vector<std::pair<i32, Val>> out;
    for (size_t i = 0; i < B.copies.size(); i++) { i32 d = B.copies[i].first; Val other = L[d]; for (auto& k : J.copies) if (k.first == d) other = V(k.second); out.push_back({d, boolSel(st, cv, V(B.copies[i].second), other, B.widths[i])}); }
    for (size_t i = 0; i < J.copies.size(); i++) { i32 d = J.copies[i].first; bool both = false; for (auto& k : B.copies) if (k.first == d) both = true; if (!both) out.push_back({d, boolSel(st, cv, L[d], V(J.copies[i].second), J.widths[i])}); }
    for (auto& o : out) L[o.first] = o.second;
    fr->pc = J.pc; return true;
}

static void freePtr(State& st, Val p, u8 kind, const char* what) {
    u64 a = concretize(st, p, 64); if (!a) return;
    if (a < ABASE) fail(st, std::string(what) + " of a wild pointer");
    u64 id = objId(a); MemObj* o = st.find(id);
    if (!o) fail(st, std::string(what) + " of a wild pointer");
    if (o == &freedObj) fail(st, "double free");
    if (o->kind != KHeap || a != objBase(id)) fail(st, std::string(what) + " of a pointer that was not allocated");
    if (o->allocKind != kind) fail(st, "mismatched deallocation");
    if (st.isFrozen(id)) fail(st, "memory that concurrent calls share is freed");
    st.heapLive--; st.release(id);
}

static void builtin(State& st, CallSite* cs, int b, std::vector<Val>& a, const std::string& name) {
    unsigned w = cs->argW.empty() ? 64 : cs->argW[0];
    switch (b) {
    case B_SYM_U64: {
        std::string nm = cstr(st, a[0]); u64 lo = concretize(st, a[1], 64), hi = concretize(st, a[2], 64);
        u32 cnt = 0; bool f = false; for (auto& p : st.nameCount) if (p.first == nm) { cnt = ++p.second; f = true; } if (!f) { st.nameCount.push_back({nm, 1}); cnt = 1; }
        if (cnt > 1) nm += "#" + std::to_string(cnt);
        if (lo > hi) throw PathEnd{1};
        unsigned bits = 1; while (bits < 64 && (hi >> bits)) bits++;
        if (concreteMode) { auto it = fixedVals.find(nm); u64 v = it == fixedVals.end() ? lo : it->second; if (v < lo || v > hi) { throw PathEnd{1}; } setRet(st, {v, nullptr}); break; }
        std::string key = nm; Expr* v;
        for (int k = 0;; k++) { // a name may be reused with another range on another path: give it another solver variable
            key = k ? nm + "~" + std::to_string(k) : nm; bool fresh = !P.varByName.count(key); v = mkVar(key, bits); VarInfo& vi = P.vars[(size_t)v->k];
            if (fresh) { vi.lo = lo; vi.hi = hi; vi.small = hi - lo < 64; break; }
            if (v->w == bits && vi.lo == lo && vi.hi == hi) break;
        }
        size_t ix = (size_t)v->k; if (st.dom.size() <= ix) st.dom.resize(ix + 1, 0); if (st.model.size() <= ix) st.model.resize(ix + 1, 0);
        st.model[ix] = lo; if (P.vars[ix].small) st.dom[ix] = hi - lo == 63 ? ~0ull : (1ull << (hi - lo + 1)) - 1;
        if (S->maxVars < st.inputs.size() + 1) S->maxVars = st.inputs.size() + 1;
        st.inputs.push_back(v);
        if (lo == hi) pin(st, ix);
        if (lo) st.cons.push_back(mkBin(Op::Ule, mkConst(lo, bits), v));
        if ((u128)hi != maskw(bits)) st.cons.push_back(mkBin(Op::Ule, v, mkConst(hi, bits)));
        setRet(st, toV(mkZExt(v, 64))); if (lo == hi) setRet(st, {lo, nullptr});
        break; }
    case B_SYM_ASSUME: {
        Val c = norm(st, a[0]); if (!c.e) { if (!(c.v & 1)) { S->assumed_out++; throw PathEnd{1}; } break; }
        Expr* e = c.e; Model m = st.model; int k = known(st, e); if (k == 1) break; if (k == 0) { S->assumed_out++; throw PathEnd{1}; }
        if (!eval(e, st.model)) { if (!feasible(st, e, &m)) { S->assumed_out++; throw PathEnd{1}; } st.model = m; }
        addCons(st, e); break; }
    case B_SYM_ASSERT: {
        S->asserts++; Val c = norm(st, a[0]);
        if (!c.e) { if (!(c.v & 1)) fail(st, "assertion failed: " + cstr(st, a[1])); break; }
        S->assertsSym++; Model m = st.model; Expr* nc = mkNot(c.e);
        if (feasible(st, nc, &m)) { if (known(st, nc) == 1) m = st.model; violation(st, "assertion failed: " + cstr(st, a[1]), m); Model mm = st.model; if (!feasible(st, c.e, &mm)) throw PathEnd{2}; if (!eval(c.e, st.model)) st.model = mm; addCons(st, c.e); }
        break; }
    case B_SYM_CONC: { u64 v = concretize(st, a[0], 64); setRet(st, {v, nullptr}); break; }
    case B_SYM_FEASIBLE: { Val c = norm(st, a[0]); Model m; setRet(st, {c.e ? (u64)feasible(st, c.e, &m) : (c.v & 1), nullptr}); break; }
    case B_SYM_REACH: {
        std::string l = cstr(st, a[0]); if (l.size() > 55) l.resize(55);
        int i; for (i = 0; i < 64 && S->reachName[i][0]; i++) if (l == S->reachName[i]) break;
        if (i == 64 || !S->reachName[i][0]) {
            while (S->reachLock.exchange(1)) usleep(10);
            for (i = 0; i < 64 && S->reachName[i][0]; i++) if (l == S->reachName[i]) break;
            if (i == 64) { S->reachLock = 0; engineError(st, "too many reach labels"); }
            strcpy(S->reachName[i], l.c_str()); S->reachLock = 0;
        }
        S->reach[i]++; break; }
    case B_SYM_LOG: { S->logged++; MemObj* o; u32 off; if (a[0].e || accessErr(st, a[0].v, 1, false, &o, &off)) engineError(st, "log tag"); st.log.push_back({strdup(cstr(st, a[0]).c_str()), a[1]}); break; }
    case B_SYM_DONE: finishPath(st, "done"); throw PathEnd{0};
    case B_SYM_EXPECT_ABORT: st.expectAbort = (int)a[0].v; break;
    case B_SYM_BUDGET: st.discardAt = a[0].v ? st.steps + a[0].v : ~0ull; break;
    case B_SYM_ENGINE: setRet(st, {1, nullptr}); break;
    case B_SYM_FREEZE: st.frozen = a[0].v ? st.nextObj : 0; st.locked = 0; if (st.frozen) for (u64 t : G.tls) st.thawed.push_back(t); else st.thawed.clear(); break;
    case B_SYM_HEAP: setRet(st, {st.heapLive, nullptr}); break;
    case B_SYM_VALID: { u64 p = concretize(st, a[0], 64), n = concretize(st, a[1], 64); MemObj* o; u32 off; setRet(st, {accessErr(st, p, n, false, &o, &off) ? 0u : 1u, nullptr}); break; }
    case B_MALLOC: case B_NEW: case B_NEWA: {
        u64 n = concretize(st, a[0], 64); if (n > MAXOBJ) { if (b == B_MALLOC) { setRet(st, {0, nullptr}); break; } if (n >> 32) fail(st, "allocation of " + std::to_string(n) + " bytes"); engineError(st, "allocation of " + std::to_string(n) + " bytes"); }
        st.heapLive++; setRet(st, {st.alloc(n, KHeap, 0xA5, nullptr, b == B_MALLOC ? 0 : b == B_NEW ? 1 : 2), nullptr}); break; }
    case B_CALLOC: { u64 n = concretize(st, a[0], 64) * concretize(st, a[1], 64); if (n > MAXOBJ) engineError(st, "calloc size"); st.heapLive++; setRet(st, {st.alloc(n, KHeap, 0, nullptr, 0), nullptr}); break; }
    case B_REALLOC: {
        u64 p = concretize(st, a[0], 64), n = concretize(st, a[1], 64); if (n > MAXOBJ) engineError(st, "realloc size"); u64 q = st.alloc(n, KHeap, 0xA5, nullptr, 0); st.heapLive++;
        if (p) { MemObj* o = st.find(objId(p)); if (!o || o == &freedObj) fail(st, "realloc of an invalid pointer"); copyMem(st, q, p, std::min<u64>(n, o->size)); freePtr(st, {p, nullptr}, 0, "realloc"); }
        setRet(st, {q, nullptr}); break; }
    case B_FREE: freePtr(st, a[0], 0, "free"); break;
    case B_DEL: freePtr(st, a[0], 1, "delete"); break;
    case B_DELA: freePtr(st, a[0], 2, "delete[]"); break;
    case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(st, a[2], cs->argW[2]); u64 d = concretize(st, a[0], 64), s = concretize(st, a[1], 64); copyMem(st, d, s, n); setRet(st, {d, nullptr}); break; }
    case B_MEMSET: {
        u64 n = concretize(st, a[2], cs->argW[2]), d = concretize(st, a[0], 64); u64 v = concretize(st, a[1], cs->argW[1]); if (n) {
            MemObj* o; u32 off; if (const char* er = accessErr(st, d, n, true, &o, &off)) fail(st, std::string(er) + " (memset)");
            o = st.writable(objId(d)); memset(o->data + off, (int)v, n); if (o->sym) for (u64 i = 0; i < n; i++) o->sym[off + i].e = nullptr; }
        setRet(st, {d, nullptr}); break; }
    case B_NOP: break;
    case B_RET0: setRet(st, {0, nullptr}); break;
    case B_ARG0: setRet(st, a[0]); break;
    case B_ISCONST: setRet(st, {0, nullptr}); break;
    case B_ABORT: if (st.expectAbort) { finishPath(st, "abort"); throw PathEnd{0}; } fail(st, "abort() called");
    case B_EXIT: fail(st, "exit() called");
    case B_ASSERTFAIL: fail(st, "assert failed: " + cstr(st, a[0]) + " at " + cstr(st, a[1]) + ":" + std::to_string(a[2].v));
    case B_TERMINATE: fail(st, "std::terminate called");
    case B_TRAP: fail(st, "trap");
    case B_ALLOCEXC: { u64 n = concretize(st, a[0], 64); setRet(st, {st.alloc(n, KHeap, 0, nullptr, 3), nullptr}); break; }
    case B_FREEEXC: { st.release(objId(a[0].v)); break; }
    case B_THROW: st.exc.push_back({a[0].v, a[1].v, a[2].v, a[0].v, 0, false}); unwind(st, st.exc.size() - 1); return;
    case B_THROWLIB: { u64 o = st.alloc(16, KHeap, 0, nullptr, 3); st.exc.push_back({o, 0, 0, o, 0, false}); unwind(st, st.exc.size() - 1); return; }
    case B_RETHROW: { if (st.caught.empty()) fail(st, "rethrow without exception"); u32 e = st.caught.back(); st.exc[e].rethrown = true; unwind(st, e); return; }
    case B_BEGINCATCH: { u32 e = st.exc.size(); while (e-- > 0) if (st.exc[e].obj == a[0].v) break; if (e >= st.exc.size()) engineError(st, "begin_catch"); st.exc[e].handlers++; st.exc[e].rethrown = false; st.caught.push_back(e); setRet(st, {st.exc[e].adjusted, nullptr}); break; }
    case B_ENDCATCH: {
        if (st.caught.empty()) engineError(st, "end_catch"); u32 e = st.caught.back(); st.caught.pop_back(); ExcRec& x = st.exc[e];
        if (--x.handlers == 0 && !x.rethrown && x.dtor) { u64 d = x.dtor; u64 o = x.obj; u64 fi = (d - FBASE) / 16; callDone(st); pushCall(st, G.funcs[fi].get(), {Val{o, nullptr}}, nullptr); return; }
        break; }
    case B_TYPEIDFOR: setRet(st, {a[0].v ? (a[0].v - ABASE) >> 20 : 1, nullptr}); break;
    case B_GUARDACQ: { Val v = load(st, a[0], 8, 1); if (!v.v) st.locked++; setRet(st, {v.v ? 0u : 1u, nullptr}); break; }
    case B_GUARDREL: store(st, a[0], {1, nullptr}, 8, 1); if (st.locked) st.locked--; break;
    case B_UMAX: setRet(st, boolSel(st, binary(st, Op::Ult, a[0], a[1], w), a[1], a[0], w)); break;
    case B_UMIN: setRet(st, boolSel(st, binary(st, Op::Ult, a[0], a[1], w), a[0], a[1], w)); break;
    case B_SMAX: setRet(st, boolSel(st, binary(st, Op::Slt, a[0], a[1], w), a[1], a[0], w)); break;
    case B_SMIN: setRet(st, boolSel(st, binary(st, Op::Slt, a[0], a[1], w), a[0], a[1], w)); break;
    case B_ABS: setRet(st, boolSel(st, binary(st, Op::Slt, a[0], toV(mkConst(0, w)), w), binary(st, Op::Sub, toV(mkConst(0, w)), a[0], w), a[0], w)); break;
    case B_CTPOP: { Val v = norm(st, a[0]); if (!v.e) setRet(st, {(u64)__builtin_popcountll(v.v), nullptr}); else { Expr* s = mkConst(0, w); for (unsigned i = 0; i < w; i++) s = mkBin(Op::Add, s, mkZExt(mkExtract(v.e, i, 1), w)); setRet(st, toV(s)); } break; }
    case B_CTLZ: { Val v = norm(st, a[0]); if (!v.e) { unsigned n = 0; while (n < w && !((v.v >> (w - 1 - n)) & 1)) n++; setRet(st, {n, nullptr}); } else { Expr* s = mkConst(w, w); for (unsigned i = 0; i < w; i++) s = mkIte(mkExtract(v.e, i, 1), mkConst(w - 1 - i, w), s); setRet(st, toV(s)); } break; }
    case B_CTTZ: { Val v = norm(st, a[0]); if (!v.e) { unsigned n = 0; while (n < w && !((v.v >> n) & 1)) n++; setRet(st, {n, nullptr}); } else { Expr* s = mkConst(w, w); for (unsigned i = w; i-- > 0;) s = mkIte(mkExtract(v.e, i, 1), mkConst(i, w), s); setRet(st, toV(s)); } break; }
    case B_BSWAP: { Expr* e = toE(a[0], w); Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* x = mkExtract(e, i, 8); r = r ? mkConcat(r, x) : x; } setRet(st, toV(r)); break; }
    case B_UADDO: { Val r = binary(st, Op::Add, a[0], a[1], w); setRet2(st, r, binary(st, Op::Ult, r, a[0], w)); break; }
    case B_USUBO: { Val r = binary(st, Op::Sub, a[0], a[1], w); setRet2(st, r, binary(st, Op::Ult, a[0], a[1], w)); break; }
    case B_UMULO: { Expr* p = mkBin(Op::Mul, mkZExt(toE(a[0], w), 2 * w), mkZExt(toE(a[1], w), 2 * w)); Expr* r = mkExtract(p, 0, w); Expr* hi = mkExtract(p, w, w); setRet2(st, toV(r), toV(mkNot(mkBin(Op::Eq, hi, mkConst(0, w))))); break; }
    case B_SADDO: case B_SSUBO: case B_SMULO: { Op o = b == B_SADDO ? Op::Add : b == B_SSUBO ? Op::Sub : Op::Mul; unsigned W = b == B_SMULO ? 2 * w : w + 1; Expr* p = mkBin(o, mkSExt(toE(a[0], w), W), mkSExt(toE(a[1], w), W)); Expr* r = mkExtract(p, 0, w); setRet2(st, toV(r), toV(mkNot(mkBin(Op::Eq, mkSExt(r, W), p)))); break; }
    case B_USUBSAT: setRet(st, boolSel(st, binary(st, Op::Ult, a[0], a[1], w), toV(mkConst(0, w)), binary(st, Op::Sub, a[0], a[1], w), w)); break;
    case B_UADDSAT: { Val r = binary(st, Op::Add, a[0], a[1], w); setRet(st, boolSel(st, binary(st, Op::Ult, r, a[0], w), toV(mkConst(maskw(w), w)), r, w)); break; }
    case B_FSHL: case B_FSHR: {
        Val c = norm(st, a[2]); if (c.e) { u64 k = concretize(st, c, w); c = {k, nullptr}; } unsigned s = (unsigned)(c.v % w); Expr* cat = mkConcat(toE(a[0], w), toE(a[1], w));
        setRet(st, toV(b == B_FSHL ? mkExtract(cat, w - s, w) : mkExtract(cat, s, w))); break; }
    case B_OBJSIZE: setRet(st, {~0ull, nullptr}); break;
    case B_FMULADD: setRet(st, fbits(dbits(a[0], w) * dbits(a[1], w) + dbits(a[2], w), w)); break;
    case B_CEIL: setRet(st, fbits(std::ceil(dbits(a[0], w)), w)); break;
    case B_FLOOR: setRet(st, fbits(std::floor(dbits(a[0], w)), w)); break;
    default: engineError(st, "call to unknown external function " + llvm::demangle(name));
    }
    callDone(st);
}

static bool shareWork();
static u64 deadlineNs = 0; static pid_t rootPid = 0;
static u64 nowNs() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static void run(State& st) {
    u32 tick = 0;
    for (;;) {
        if (st.frames.empty()) {
            if (st.depth < startList.size()) { Func* sf = startList[st.depth++]; pushCall(st, sf, std::vector<Val>(sf->argW.size(), Val{0, nullptr}), nullptr); continue; }
            finishPath(st, "exit"); return;
        }
        Frame* fr = &st.frames.back(); Func* F = fr->f; Val* L = st.regs.data() + fr->base; const Val* K = G.K.data(); const Insn* code = F->code.data();
#define V(i) ((i) >= 0 ? L[i] : K[~(i)])
        for (;;) {
            const Insn& in = code[fr->pc];
            if (++st.steps > st.discardAt) { S->assumed_out++; S->overBudget++; throw PathEnd{1}; }
            if (st.steps > stepLimit) fail(st, "step limit exceeded: " + std::to_string(stepLimit) + " instructions on one path");
            if ((++tick & 0x3ff) == 0) { if ((tick & 0xfffff) == 0 && kill(rootPid, 0)) _exit(0); if (S->stop) throw PathEnd{4}; if (deadlineNs && nowNs() > deadlineNs) { S->stop = 2; throw PathEnd{4}; } }
            switch (in.op) {
            case I::Bin: {
                Val a = V(in.a), b = V(in.b);
                if (!a.e && !b.e) {
                    u64 m = in.w == 64 ? ~0ull : (1ull << in.w) - 1; u64 r;
                    switch ((Op)in.sub) {
                    case Op::Add: r = (a.v + b.v) & m; break; case Op::Sub: r = (a.v - b.v) & m; break; case Op::And: r = a.v & b.v; break; case Op::Or: r = a.v | b.v; break; case Op::Xor: r = a.v ^ b.v; break;
                    case Op::Mul: r = (a.v * b.v) & m; break;
                    case Op::Shl: if (b.v >= in.w) fail(st, "shift amount out of range"); r = (a.v << b.v) & m; break;
                    case Op::LShr: if (b.v >= in.w) fail(st, "shift amount out of range"); r = a.v >> b.v; break;
                    case Op::AShr: if (b.v >= in.w) fail(st, "shift amount out of range"); r = (u64)foldBin(Op::AShr, a.v, b.v, in.w); break;
                    case Op::UDiv: case Op::URem: case Op::SDiv: case Op::SRem: if (!b.v) fail(st, "division by zero"); r = (u64)foldBin((Op)in.sub, a.v, b.v, in.w); break;
                    default: r = (u64)foldBin((Op)in.sub, a.v, b.v, in.w);
                    }
                    L[in.dst] = {r, nullptr};
                } else {
                    Op o = (Op)in.sub;
                    if (o == Op::UDiv || o == Op::URem || o == Op::SDiv || o == Op::SRem) { if (branch(st, mkBin(Op::Eq, toE(b, in.w), mkConst(0, in.w)))) fail(st, "division by zero"); }
                    if (o == Op::Shl || o == Op::LShr || o == Op::AShr) if (b.e && !isC(b.e)) { if (branch(st, mkBin(Op::Ule, mkConst(in.w, in.w), toE(b, in.w)))) fail(st, "shift amount out of range"); }
                    L[in.dst] = binary(st, o, a, b, in.w);
                }
                fr->pc++; break; }
            case I::Cmp: case I::CmpN: {
                Val a = V(in.a), b = V(in.b);
                if (!a.e && !b.e) {
                    bool r;
                    switch ((Op)in.sub) { case Op::Eq: r = a.v == b.v; break; case Op::Ult: r = a.v < b.v; break; case Op::Ule: r = a.v <= b.v; break; default: r = foldBin((Op)in.sub, a.v, b.v, in.w) != 0; }
                    L[in.dst] = {(u64)(r ^ (in.op == I::CmpN)), nullptr};
                } else { Val r = binary(st, (Op)in.sub, a, b, in.w); if (in.op == I::CmpN) r = r.e ? toV(mkNot(r.e)) : Val{r.v ^ 1, nullptr}; L[in.dst] = r; }
                fr->pc++; break; }
            case I::Sel: { Val c = V(in.a); L[in.dst] = !c.e ? (c.v ? V(in.b) : V(in.c)) : boolSel(st, c, V(in.b), V(in.c), in.w); fr->pc++; break; }
            case I::ZExt: { Val a = V(in.a); L[in.dst] = (!a.e && in.w <= 64) ? a : toV(mkZExt(toE(a, in.w2), in.w)); fr->pc++; break; }
            case I::SExt: { Val a = V(in.a); if (!a.e && in.w <= 64) L[in.dst] = {(u64)sextw(a.v, in.w2) & (u64)maskw(in.w), nullptr}; else L[in.dst] = toV(mkSExt(toE(a, in.w2), in.w)); fr->pc++; break; }
            case I::Trunc: { Val a = V(in.a); if (!a.e) L[in.dst] = {a.v & (u64)maskw(in.w), nullptr}; else L[in.dst] = toV(mkExtract(a.e, 0, in.w)); fr->pc++; break; }
            case I::Copy: L[in.dst] = V(in.a); fr->pc++; break;
            case I::AddK: { Val a = V(in.a); u64 k = K[~in.b].v; if (!a.e) L[in.dst] = {a.v + k, nullptr}; else L[in.dst] = toV(mkBin(Op::Add, a.e, mkConst(k, 64))); fr->pc++; break; }
            case I::Gep: {
                Val a = V(in.a); auto& ix = F->geps[in.x];
                for (auto& p : ix) {
                    Val i = V(p.first);
                    if (!a.e && !i.e) a.v += i.v * (u64)p.second;
                    else a = toV(mkBin(Op::Add, toE(a, 64), mkBin(Op::Mul, toE(norm(st, i), 64), mkConst((u64)p.second, 64))));
                }
                L[in.dst] = a; fr->pc++; break; }
            case I::Load: {
                Val p = V(in.a);
                if (!p.e) {
                    u64 ad = p.v + in.x; MemObj* o; u32 off;
                    if (const char* er = accessErr(st, ad, in.w2, false, &o, &off)) fail(st, std::string(er) + " (load)");
                    if (!o->sym && in.w <= 64) { u64 v = 0; memcpy(&v, o->data + off, in.w2); L[in.dst] = {in.w == 64 ? v : v & ((1ull << in.w) - 1), nullptr}; }
                    else { Val v = loadAt(o, off, in.w, in.w2); L[in.dst] = v.e ? norm(st, v) : v; }
                } else { if (in.x) p = toV(mkBin(Op::Add, p.e, mkConst(in.x, 64))); L[in.dst] = load(st, p, in.w, in.w2); }
                fr->pc++; break; }
            case I::Store: {
                Val p = V(in.a), v = V(in.b);
                if (in.x) p = p.e ? toV(mkBin(Op::Add, p.e, mkConst(in.x, 64))) : Val{p.v + in.x, nullptr};
                if (in.sub) st.locked++;
                store(st, p, v, in.w, in.w2);
                if (in.sub) st.locked--;
                fr->pc++; break; }
            case I::Alloca: { u64 n = concretize(st, V(in.a), 64); u64 ad = st.alloc(n * in.x, KStack, 0xA5, nullptr); st.allocas.push_back((u32)objId(ad)); L[in.dst] = {ad, nullptr}; fr->pc++; break; }
            case I::Br: { Edge& e = F->edges[in.x]; if (e.copies.empty()) fr->pc = e.pc; else takeEdge(st, in.x); break; }
            case I::CondBr: { Val c = norm(st, V(in.a));
                if (c.e && F->lib && known(st, c.e) < 0 && (condStores(st, fr, c.e, true, in.x, (u32)in.c) || condStores(st, fr, c.e, false, (u32)in.c, in.x))) break;
                bool t = c.e ? branch(st, c.e) : c.v; u32 ei = t ? in.x : (u32)in.c; Edge& e = F->edges[ei]; if (e.copies.empty()) fr->pc = e.pc; else takeEdge(st, ei); break; }
            case I::Switch: { u64 v = concretize(st, V(in.a), in.w); SwitchInfo& s = F->sws[in.x]; u32 t = s.def; for (auto& c : s.cases) if (c.first == v) { t = c.second; break; } takeEdge(st, t); break; }
            case I::Ret: {
                Val rv[16]; auto& r = F->geps[in.x]; size_t n = r.size(); if (n > 16) engineError(st, "large return"); for (size_t i = 0; i < n; i++) rv[i] = V(r[i].first);
                CallSite* cs = fr->cs; popFrame(st);
                if (!st.frames.empty() && cs) {
                    Frame& c = st.frames.back(); if (cs->dst >= 0) for (size_t i = 0; i < n && i < cs->dstN; i++) st.regs[c.base + cs->dst + i] = rv[i];
                    if (cs->invoke) takeEdge(st, cs->normal); else c.pc++;
                }
                goto reload; }
            case I::Call: {
                CallSite* cs = F->calls[in.x].get(); std::vector<Val> args(cs->args.size());
                for (size_t i = 0; i < args.size(); i++) args[i] = V(cs->args[i]);
                int b = cs->builtin; Func* callee = cs->callee;
                if (!b && !callee) {
                    Val t = norm(st, V(cs->target)); u64 tv = 0;
                    if (!t.e) tv = t.v; else { Val t2 = toV(addrTree(st, t.e, 0, false)); tv = concretize(st, t2, 64); }
                    if (tv < FBASE || tv >= FBASE + 16 * G.funcs.size() || (tv - FBASE) % 16) fail(st, tv ? "call through a wild function pointer" : "call through a null function pointer");
                    Func* c = G.funcs[(tv - FBASE) / 16].get();
                    if (c->f->isDeclaration()) { b = c->builtin ? c->builtin : -1; callee = c; } else callee = c;
                }
                if (b) { builtin(st, cs, b, args, callee ? callee->name : cs->name); goto reload; }
                std::vector<u32> extra;
                for (auto& bv : cs->byval) { u64 ad = st.alloc(bv.second, KStack, 0, nullptr); extra.push_back((u32)objId(ad)); copyMem(st, ad, concretize(st, args[bv.first], 64), bv.second); args[bv.first] = {ad, nullptr}; }
                pushCall(st, callee, args, cs);
                for (u32 id : extra) st.allocas.push_back(id);
                goto reload; }
            case I::Unreach: fail(st, "unreachable code reached (undefined behaviour)");
            case I::Landing: engineError(st, "fell into landingpad");
            case I::Resume: { u64 o = V(in.a).v; u32 e = st.exc.size(); while (e-- > 0) if (st.exc[e].obj == o) break; popFrame(st); unwind(st, e); goto reload; }
            case I::FBin: {
                Val a = V(in.a), b = V(in.b); if (a.e || b.e) { a = norm(st, a); b = norm(st, b); if (a.e) a = {concretize(st, a, in.w), nullptr}; if (b.e) b = {concretize(st, b, in.w), nullptr}; }
                double x = dbits(a, in.w), y = dbits(b, in.w); double r = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : in.sub == 3 ? x / y : std::fmod(x, y); if (in.w == 32) { float fx = (float)x, fy = (float)y; r = in.sub == 0 ? fx + fy : in.sub == 1 ? fx - fy : in.sub == 2 ? fx * fy : in.sub == 3 ? fx / fy : std::fmod(fx, fy); }
                L[in.dst] = fbits(r, in.w); fr->pc++; break; }
            case I::FNeg: L[in.dst] = fbits(-dbits(V(in.a), in.w), in.w); fr->pc++; break;
            case I::FCmp: {
                double x = dbits(V(in.a), in.w), y = dbits(V(in.b), in.w); bool un = std::isnan(x) || std::isnan(y), r = false; int p = in.sub;
                if (p & 8 && un) r = true; if ((p & 1) && !un && x == y) r = true; if ((p & 2) && !un && x > y) r = true; if ((p & 4) && !un && x < y) r = true;
                L[in.dst] = {r, nullptr}; fr->pc++; break; }
            case I::FConv: {
                Val a = V(in.a); if (a.e) a = {concretize(st, a, in.w2), nullptr}; L = st.regs.data() + fr->base;
                switch (in.sub) { case 0: L[in.dst] = fbits((double)a.v, in.w); if (in.w == 32) L[in.dst] = fbits((float)a.v, 32); break; case 1: { i64 s = (i64)sextw(a.v, in.w2); L[in.dst] = fbits((double)s, in.w); break; }
                case 2: L[in.dst] = {(u64)dbits(a, in.w2) & (u64)maskw(in.w), nullptr}; break; case 3: L[in.dst] = {(u64)(i64)dbits(a, in.w2) & (u64)maskw(in.w), nullptr}; break; default: L[in.dst] = fbits(dbits(a, in.w2), in.w); }
                fr->pc++; break; }
            case I::Rmw: {
                Val p = V(in.a), v = V(in.b); Val old = load(st, p, in.w, in.w2), nv; unsigned w = in.w;
                switch (in.sub) { case llvm::AtomicRMWInst::Xchg: nv = v; break; case llvm::AtomicRMWInst::Add: nv = binary(st, Op::Add, old, v, w); break; case llvm::AtomicRMWInst::Sub: nv = binary(st, Op::Sub, old, v, w); break; case llvm::AtomicRMWInst::And: nv = binary(st, Op::And, old, v, w); break; case llvm::AtomicRMWInst::Or: nv = binary(st, Op::Or, old, v, w); break; case llvm::AtomicRMWInst::Xor: nv = binary(st, Op::Xor, old, v, w); break; default: engineError(st, "atomicrmw"); }
                st.locked++; store(st, p, nv, w, in.w2); st.locked--; L[in.dst] = old; fr->pc++; break; }
            case I::CmpXchg: {
                Val p = V(in.a), c = V(in.b), nv = V(in.c); Val old = load(st, p, in.w, in.w2); Val eq = binary(st, Op::Eq, old, c, in.w);
                st.locked++; store(st, p, boolSel(st, eq, nv, old, in.w), in.w, in.w2); st.locked--; L[in.dst] = old; L[in.dst + 1] = eq; fr->pc++; break; }
            case I::Bad: engineError(st, "unsupported instruction:" + F->calls[in.x]->name);
            }
            continue;
        reload:
            break;
        }
        if (pending.size() > 1 && S->idle > 0) shareWork();
    }
}

static int workerLoop() {
    while (!pending.empty()) {
        State* s = pending.back(); pending.pop_back();
        if (S->stop) { delete s; continue; }
        if (s->steps == 0) S->states++;
        int why = 0; u64 before = s->steps;
        try { run(*s); } catch (PathEnd& p) { why = p.why; }
        S->steps += s->steps - before; S->paths++;
        delete s;
        while (pending.size() > 1 && S->idle > 0 && shareWork()) {}
    }
    return 0;
}
// Hand the oldest half of the pending states to a new worker process.
static bool shareWork() {
    u64 i = S->idle; do { if (i == 0) return false; } while (!S->idle.compare_exchange_weak(i, i - 1));
    size_t half = pending.size() / 2; if (!half) half = 1;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { S->idle++; return false; }
    if (p == 0) {
        if (fork() != 0) _exit(0); // grandchild is reparented; the pipe tells the root when all are gone
        std::vector<State*> mine(pending.begin(), pending.begin() + half);
        pending = mine; // states of the parent are leaked here on purpose
        workerLoop(); S->idle++; _exit(0);
    }
    int stt; waitpid(p, &stt, 0);
    pending.erase(pending.begin(), pending.begin() + half);
    return true;
}

int main(int argc, char** argv) {
    std::string bc, entry = "sym_main", values; u64 rlimit = 50000000; u64 memMB = 6000;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out") outDir = next(); else if (a == "--workers") workers = std::stoi(next()); else if (a == "--steps") stepLimit = std::stoull(next());
        else if (a == "--rlimit") rlimit = std::stoull(next()); else if (a == "--entry") entry = next(); else if (a == "--values") { values = next(); concreteMode = true; }
        else if (a == "--max-violations") maxViol = std::stoull(next()); else if (a == "--samples") maxSamples = std::stoull(next()); else if (a == "--time") timeLimit = std::stod(next());
        else if (a == "--leaks") leakCheck = true; else if (a == "--mem") memMB = std::stoull(next()); else bc = a;
    }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)S, 0, sizeof(Shared));
    struct rlimit rl { 512u << 20, 512u << 20 }; setrlimit(RLIMIT_STACK, &rl);
    struct rlimit as { memMB << 20, memMB << 20 }; setrlimit(RLIMIT_AS, &as);
    if (!values.empty()) { FILE* f = fopen(values.c_str(), "r"); if (!f) G.die("no values file"); char ln[512]; while (fgets(ln, sizeof ln, f)) { if (ln[0] == '#') continue; char* e = strchr(ln, '='); if (!e) continue; *e = 0; fixedVals[ln] = strtoull(e + 1, nullptr, 10); } fclose(f); workers = 1; }
    mkdir(outDir.c_str(), 0777);
    auto t0 = std::chrono::steady_clock::now();
    G.load(bc.c_str());
    for (auto& g : G.gaddr) { std::string n = g.first->getName().str(); if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = g.second; if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSi = g.second; if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVmi = g.second; if (n == "_ZTVN10__cxxabiv119__pointer_type_infoE") vtPtr = g.second; }
    if (auto* ct = G.m->getNamedGlobal("llvm.global_ctors")) if (auto* arr = llvm::dyn_cast<llvm::ConstantArray>(ct->getInitializer())) {
        std::vector<std::pair<u64, Func*>> v;
        for (auto& o : arr->operands()) { auto* s = llvm::cast<llvm::ConstantStruct>(o); v.push_back({llvm::cast<llvm::ConstantInt>(s->getOperand(0))->getZExtValue(), G.fn(llvm::cast<llvm::Function>(s->getOperand(1)->stripPointerCasts()))}); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) startList.push_back(p.second);
    }
    if (!G.byName.count(entry) || G.byName[entry]->f->isDeclaration()) G.die("no entry " + entry);
    startList.push_back(G.byName[entry]);
    Z.init((unsigned)rlimit);
    if (timeLimit > 0) deadlineNs = nowNs() + (u64)(timeLimit * 1e9);
    S->idle = workers - 1; rootPid = getpid();
    int pfd[2]; if (pipe(pfd)) return 4;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { close(pfd[0]); pending.push_back(G.init); workerLoop(); S->idle++; _exit(0); }
    close(pfd[1]); char c; while (read(pfd[0], &c, 1) > 0) {}
    int stt; waitpid(p, &stt, 0); bool crashed = S->idle != workers;
    // functions of the code under test that were executed
    u64 nf = 0; std::string fns; std::set<std::string> names;
    for (auto& F : G.funcs) if (F->index < (1 << 16) && S->fnSeen[F->index]) { nf++; std::string d = llvm::demangle(F->name); if (d.find("openmethod") != std::string::npos) names.insert(d.size() > 140 ? d.substr(0, 140) + "..." : d); }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    printf("{\"paths\":%llu,\"completed\":%llu,\"assumed_out\":%llu,\"over_budget\":%llu,\"undecided\":%llu,\"retries\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"query_cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"violations\":%llu,\"errors\":%llu,\"max_inputs\":%llu,\"stopped\":%llu,\"crashed\":%d,\"wall_s\":%.2f,\"functions\":%llu,\"reach\":{",
        (unsigned long long)S->paths, (unsigned long long)S->completed, (unsigned long long)S->assumed_out, (unsigned long long)S->overBudget, (unsigned long long)S->undecided, (unsigned long long)S->retries, (unsigned long long)S->steps, (unsigned long long)S->forks, (unsigned long long)S->queries, (unsigned long long)S->queryHits, (unsigned long long)S->sat, (unsigned long long)S->unsat, S->solverNs / 1e9, (unsigned long long)S->asserts, (unsigned long long)S->assertsSym, (unsigned long long)S->violations, (unsigned long long)S->errors, (unsigned long long)S->maxVars, (unsigned long long)S->stop, (int)crashed, wall, (unsigned long long)nf);
    for (int i = 0; i < 64 && S->reachName[i][0]; i++) printf("%s\"%s\":%llu", i ? "," : "", S->reachName[i], (unsigned long long)S->reach[i]);
    printf("},\"openmethod_functions\":["); bool first = true; for (auto& n : names) { std::string q; for (char ch : n) { if (ch == '"' || ch == '\\') q += '\\'; q += ch; } printf("%s\"%s\"", first ? "" : ",", q.c_str()); first = false; }
    printf("]}\n");
    if (S->violations) return 1;
    if (S->errors || crashed || S->stop) return 2;
    return 0;
}
