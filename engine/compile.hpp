// LLVM IR -> compact register code.
#pragma once
#include "state.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <memory>

enum class I : u8 {
    Bin, Cmp, CmpN, Sel, ZExt, SExt, Trunc, Copy, Gep, AddK, Load, Store, Alloca, Br, CondBr, Switch, Call, Ret, Unreach,
    Landing, Resume, FBin, FCmp, FConv, Rmw, CmpXchg, FNeg, Bad
};
struct Insn { I op; u8 sub; u8 w; u8 w2; i32 dst, a, b, c; u32 x; };
struct Edge { u32 pc; std::vector<std::pair<i32, i32>> copies; std::vector<u8> widths; };
struct CallSite {
    Func* callee = nullptr; int builtin = 0; i32 target = 0; std::vector<i32> args; std::vector<std::pair<u32, u32>> byval; // (arg index, size)
    i32 dst = -1; u32 dstN = 0; u8 w = 64; bool invoke = false; u32 normal = 0, unwind = 0; std::string name; std::vector<u8> argW;
};
struct LandingInfo { bool cleanup; std::vector<std::pair<bool, u64>> clauses; /* (isCatch, typeinfo) */ };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct Func {
    llvm::Function* f; std::string name; u32 index; bool compiled = false; u32 nslots = 0; std::vector<Insn> code;
    std::vector<Edge> edges; std::vector<std::unique_ptr<CallSite>> calls; std::vector<std::vector<std::pair<i32, i64>>> geps;
    std::vector<LandingInfo> lps; std::vector<SwitchInfo> sws; std::vector<u8> retW; std::vector<u8> argW; int builtin = 0; std::vector<u32> lines; bool lib = false;
};

enum Builtin {
    B_NONE = 0, B_SYM_U64, B_SYM_ASSUME, B_SYM_ASSERT, B_SYM_CONC, B_SYM_REACH, B_SYM_LOG, B_SYM_DONE, B_SYM_EXPECT_ABORT, B_SYM_ENGINE, B_SYM_HEAP,
    B_SYM_FEASIBLE, B_SYM_VALID, B_SYM_BUDGET, B_SYM_FREEZE,
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_NOP, B_RET0, B_ARG0,
    B_ABORT, B_EXIT, B_ASSERTFAIL, B_TERMINATE, B_ALLOCEXC, B_FREEEXC, B_THROW, B_RETHROW, B_BEGINCATCH, B_ENDCATCH, B_TYPEIDFOR, B_GUARDACQ, B_GUARDREL,
    B_ISCONST, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_ABS, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO,
    B_USUBSAT, B_UADDSAT, B_FSHL, B_FSHR, B_OBJSIZE, B_TRAP, B_THROWLIB, B_FMULADD, B_CEIL, B_FLOOR
};

struct Program {
    llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> m; const llvm::DataLayout* dl;
    std::vector<std::unique_ptr<Func>> funcs; std::map<llvm::Function*, Func*> fmap; std::map<std::string, Func*> byName;
    std::vector<Val> K; std::map<std::pair<u64, u64>, i32> kmap;
    std::map<const llvm::GlobalVariable*, u64> gaddr; std::map<u64, std::string> gname; std::vector<u32> tls;
    std::map<std::string, u64> extAddr;
    State* init = nullptr;

    [[noreturn]] void die(const std::string& s) { fprintf(stderr, "symir: %s\n", s.c_str()); _exit(4); }
    i32 kidx(Val v) {
        auto key = std::make_pair(v.v, (u64)v.e); auto it = kmap.find(key); if (it != kmap.end()) return ~it->second;
        K.push_back(v); kmap[key] = K.size() - 1; return ~(i32)(K.size() - 1);
    }
    struct Elem { u64 off; llvm::Type* t; };
    void elems(llvm::Type* t, u64 off, std::vector<Elem>& out) {
        if (auto* s = llvm::dyn_cast<llvm::StructType>(t)) { auto* l = dl->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) elems(s->getElementType(i), off + l->getElementOffset(i), out); }
        else if (auto* a = llvm::dyn_cast<llvm::ArrayType>(t)) { u64 sz = dl->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) elems(a->getElementType(), off + i * sz, out); }
        else if (auto* v = llvm::dyn_cast<llvm::FixedVectorType>(t)) { u64 sz = dl->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) elems(v->getElementType(), off + i * sz, out); }
        else if (!t->isVoidTy()) out.push_back({off, t});
    }
    std::vector<Elem> elems(llvm::Type* t) { std::vector<Elem> r; elems(t, 0, r); return r; }
    unsigned width(llvm::Type* t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return 64;
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        if (t->isX86_FP80Ty()) return 128;
        std::string s; llvm::raw_string_ostream o(s); t->print(o); die("unsupported type " + s);
    }
    u64 globalAddr(const llvm::GlobalValue* g) {
        if (auto* f = llvm::dyn_cast<llvm::Function>(g)) return FBASE + 16 * fn(const_cast<llvm::Function*>(f))->index;
        if (auto* a = llvm::dyn_cast<llvm::GlobalAlias>(g)) { return constant(a->getAliasee()).v; }
        auto* v = llvm::cast<llvm::GlobalVariable>(g);
        auto it = gaddr.find(v); if (it == gaddr.end()) die("no address for " + g->getName().str());
        return it->second;
    }
    Func* fn(llvm::Function* f) {
        auto it = fmap.find(f); if (it != fmap.end()) return it->second;
        auto F = std::make_unique<Func>(); F->f = f; F->name = f->getName().str(); F->index = funcs.size();
        Func* r = F.get(); funcs.push_back(std::move(F)); fmap[f] = r; byName[r->name] = r; return r;
    }
    Val constant(const llvm::Constant* c) { std::vector<Val> v; constants(c, v); if (v.size() != 1) die("constant not scalar"); return v[0]; }
    void constants(const llvm::Constant* c, std::vector<Val>& out) {
        llvm::Type* t = c->getType();
        if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(c)) {
            unsigned w = ci->getBitWidth();
            if (w <= 64) out.push_back({ci->getZExtValue(), nullptr});
            else { u128 k = (u128)ci->getValue().getRawData()[0] | ((u128)ci->getValue().getRawData()[1] << 64); out.push_back({0, mkConst(k, w)}); }
            return;
        }
        if (auto* cf = llvm::dyn_cast<llvm::ConstantFP>(c)) { auto bits = cf->getValueAPF().bitcastToAPInt(); if (bits.getBitWidth() > 64) { out.push_back({0, mkConst(bits.getRawData()[0], 128)}); } else out.push_back({bits.getZExtValue(), nullptr}); return; }
        if (llvm::isa<llvm::ConstantPointerNull>(c)) { out.push_back({0, nullptr}); return; }
        if (llvm::isa<llvm::UndefValue>(c) || llvm::isa<llvm::ConstantAggregateZero>(c)) {
            for (auto& e : elems(t)) { unsigned w = width(e.t); out.push_back(w > 64 ? Val{0, mkConst(0, w)} : Val{0, nullptr}); } return;
        }
        if (auto* ca = llvm::dyn_cast<llvm::ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constants(ca->getOperand(i), out); return; }
        if (auto* cd = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constants(cd->getElementAsConstant(i), out); return; }
        if (auto* g = llvm::dyn_cast<llvm::GlobalValue>(c)) { out.push_back({globalAddr(g), nullptr}); return; }
        if (auto* ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case llvm::Instruction::GetElementPtr: {
                auto* g = llvm::cast<llvm::GEPOperator>(ce); llvm::APInt off(64, 0);
                if (!g->accumulateConstantOffset(*dl, off)) die("non-constant constant gep");
                out.push_back({constant(llvm::cast<llvm::Constant>(g->getPointerOperand())).v + (u64)off.getSExtValue(), nullptr}); return; }
            case llvm::Instruction::BitCast: case llvm::Instruction::IntToPtr: case llvm::Instruction::AddrSpaceCast: constants(ce->getOperand(0), out); return;
            case llvm::Instruction::PtrToInt: case llvm::Instruction::Trunc: { Val v = constant(ce->getOperand(0)); out.push_back({v.v & (u64)maskw(width(t)), nullptr}); return; }
            case llvm::Instruction::Sub: case llvm::Instruction::Add: case llvm::Instruction::And: {
                u64 a = constant(ce->getOperand(0)).v, b = constant(ce->getOperand(1)).v;
                u64 r = ce->getOpcode() == llvm::Instruction::Sub ? a - b : ce->getOpcode() == llvm::Instruction::Add ? a + b : (a & b);
                out.push_back({r & (u64)maskw(width(t)), nullptr}); return; }
            case llvm::Instruction::ICmp: {
                u64 a = constant(ce->getOperand(0)).v, b = constant(ce->getOperand(1)).v; bool r = false;
                switch (ce->getPredicate()) { case llvm::CmpInst::ICMP_EQ: r = a == b; break; case llvm::CmpInst::ICMP_NE: r = a != b; break; case llvm::CmpInst::ICMP_ULT: r = a < b; break; case llvm::CmpInst::ICMP_UGT: r = a > b; break; default: die("constexpr icmp"); }
                out.push_back({r, nullptr}); return; }
            default: { std::string s; llvm::raw_string_ostream o(s); c->print(o); die("constant expression " + s); }
            }
        }
        std::string s; llvm::raw_string_ostream o(s); c->print(o); die("constant " + s);
    }
    void initBytes(const llvm::Constant* c, u8* p) {
        if (llvm::isa<llvm::ConstantAggregateZero>(c) || llvm::isa<llvm::UndefValue>(c)) return;
        if (auto* cd = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) { auto r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
        auto es = elems(c->getType()); std::vector<Val> vs; constants(c, vs);
        if (es.size() != vs.size()) die("initializer size");
        for (size_t i = 0; i < es.size(); i++) {
            unsigned w = width(es[i].t), n = dl->getTypeStoreSize(es[i].t);
            if (vs[i].e) { u128 k = vs[i].e->k; memcpy(p + es[i].off, &k, n); } else memcpy(p + es[i].off, &vs[i].v, n > 8 ? 8 : n);
            (void)w;
        }
    }
    void load(const char* path);
    void compile(Func* F);
};
extern Program G;
int builtinId(const std::string& n);
