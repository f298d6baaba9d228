#include "compile.hpp"
using namespace llvm;

int builtinId(const std::string& n) {
    static std::map<std::string, int> m = {
        {"sym_u64", B_SYM_U64}, {"sym_assume", B_SYM_ASSUME}, {"sym_assert", B_SYM_ASSERT}, {"sym_concretize", B_SYM_CONC}, {"sym_reach", B_SYM_REACH},
        {"sym_log", B_SYM_LOG}, {"sym_done", B_SYM_DONE}, {"sym_expect_abort", B_SYM_EXPECT_ABORT}, {"sym_engine", B_SYM_ENGINE}, {"sym_heap_live", B_SYM_HEAP},
        {"sym_feasible", B_SYM_FEASIBLE}, {"sym_valid_ptr", B_SYM_VALID}, {"sym_budget", B_SYM_BUDGET}, {"sym_freeze", B_SYM_FREEZE},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELA}, {"_ZdaPvm", B_DELA},
        {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPvRKSt9nothrow_t", B_DEL}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvSt11align_val_t", B_DEL}, {"_ZdlPvmSt11align_val_t", B_DEL},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET},
        {"abort", B_ABORT}, {"rt_abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_TERMINATE},
        {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC}, {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_RETHROW},
        {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_NOP},
        {"__cxa_atexit", B_RET0}, {"__cxa_thread_atexit", B_RET0}, {"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP},
        {"pthread_mutex_lock", B_RET0}, {"pthread_mutex_unlock", B_RET0},
        {"__gxx_personality_v0", B_NOP}, {"ceil", B_CEIL}, {"floor", B_FLOOR},
    };
    auto it = m.find(n); if (it != m.end()) return it->second;
    if (n.rfind("_ZSt20__throw_", 0) == 0 || n.find("__throw_") != std::string::npos) return n.rfind("_ZSt", 0) == 0 ? B_THROWLIB : 0;
    return 0;
}
static int intrinsicId(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::prefetch: return B_NOP;
    case Intrinsic::stacksave: return B_RET0;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return B_ARG0;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memmove: return B_MEMMOVE; case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::umax: return B_UMAX; case Intrinsic::umin: return B_UMIN; case Intrinsic::smax: return B_SMAX; case Intrinsic::smin: return B_SMIN; case Intrinsic::abs: return B_ABS;
    case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::uadd_with_overflow: return B_UADDO; case Intrinsic::usub_with_overflow: return B_USUBO; case Intrinsic::umul_with_overflow: return B_UMULO;
    case Intrinsic::sadd_with_overflow: return B_SADDO; case Intrinsic::ssub_with_overflow: return B_SSUBO; case Intrinsic::smul_with_overflow: return B_SMULO;
    case Intrinsic::usub_sat: return B_USUBSAT; case Intrinsic::uadd_sat: return B_UADDSAT; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::is_constant: return B_ISCONST; case Intrinsic::trap: case Intrinsic::debugtrap: return B_TRAP;
    case Intrinsic::eh_typeid_for: return B_TYPEIDFOR; case Intrinsic::fmuladd: return B_FMULADD; case Intrinsic::ceil: return B_CEIL; case Intrinsic::floor: return B_FLOOR;
    default: return 0;
    }
}

void Program::load(const char* path) {
    SMDiagnostic err; m = parseIRFile(path, err, ctx);
    if (!m) { err.print("symir", errs()); _exit(4); }
    dl = &m->getDataLayout();
    init = new State();
    for (auto& f : *m) fn(&f);
    // addresses for all globals, then initializers
    for (auto& g : m->globals()) {
        u64 sz = dl->getTypeAllocSize(g.getValueType()); bool ext = g.isDeclaration();
        if (sz > MAXOBJ) die("global too large: " + g.getName().str());
        u64 a = init->alloc(ext ? std::max<u64>(sz, 64) : sz, ext ? KExt : g.isConstant() ? KConst : KGlobal, 0, nullptr);
        if (g.isThreadLocal()) tls.push_back((u32)objId(a));
        gaddr[&g] = a; gname[a] = g.getName().str();
    }
    // type_info objects of the C++ runtime: {vtable, name}
    for (auto& g : m->globals()) if (g.isDeclaration() && g.getName().starts_with("_ZTI")) {
        std::string n = g.getName().str().substr(4); u64 na = init->alloc(n.size() + 1, KConst, 0, nullptr); gname[na] = "_ZTS" + n;
        u8* d = init->find(objId(na))->data; for (size_t i = 0; i <= n.size(); i++) d[i] = i < n.size() ? (u8)n[i] : 0;
        u8* t = init->find(objId(gaddr[&g]))->data; memcpy(t + 8, &na, 8);
    }
    for (auto& g : m->globals()) if (g.hasInitializer()) { u64 id = objId(gaddr[&g]); initBytes(g.getInitializer(), init->find(id)->data); }
    for (auto& F : funcs) {
        Func* f = F.get();
        if (f->f->isIntrinsic()) f->builtin = intrinsicId(f->f->getIntrinsicID());
        else if (f->f->isDeclaration()) f->builtin = builtinId(f->name);
        else if (f->name.rfind("sym_", 0) == 0 && f->name != "sym_main") die("sym_ function defined in module: " + f->name);
        for (auto& a : f->f->args()) for (auto& e : elems(a.getType())) f->argW.push_back(e.t->isMetadataTy() ? 64 : width(e.t));
    }
}

void Program::compile(Func* F) {
    F->compiled = true; F->lib = F->f->getName().starts_with("_ZN5boost10openmethod") || F->f->getName().starts_with("_ZNK5boost10openmethod"); Function& f = *F->f; std::map<const Value*, i32> slot; u32 n = 0;
    for (auto& a : f.args()) { slot[&a] = n; n += elems(a.getType()).size(); }
    for (auto& bb : f) for (auto& in : bb) if (!in.getType()->isVoidTy()) { slot[&in] = n; n += elems(in.getType()).size(); }
    for (auto& e : elems(f.getReturnType())) F->retW.push_back(width(e.t));
    auto ops = [&](const Value* v) -> std::vector<i32> {
        std::vector<i32> r;
        if (auto* c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constants(c, vs); for (Val x : vs) r.push_back(kidx(x)); return r; }
        auto it = slot.find(v); if (it == slot.end()) { r.push_back(kidx({0, nullptr})); return r; }
        size_t k = elems(v->getType()).size(); for (size_t i = 0; i < k; i++) r.push_back(it->second + i); return r;
    };
    auto op1 = [&](const Value* v) { auto r = ops(v); if (r.size() != 1) die("scalar operand expected in " + F->name); return r[0]; };
    std::map<const BasicBlock*, u32> bbpc; std::vector<std::pair<u32, const BasicBlock*>> fixEdges;
    u32 curLine = 0;
    auto emit = [&](Insn i) { F->code.push_back(i); F->lines.push_back(curLine); };
    auto mk = [](I op, u8 sub, u8 w, u8 w2, i32 d, i32 a, i32 b = 0, i32 c = 0, u32 x = 0) { return Insn{op, sub, w, w2, d, a, b, c, x}; };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> u32 {
        Edge e; e.pc = 0;
        for (auto& phi : to->phis()) { auto src = ops(phi.getIncomingValueForBlock(from)); i32 d = slot[&phi]; auto es = elems(phi.getType()); for (size_t i = 0; i < src.size(); i++) if (src[i] != d + (i32)i) { e.copies.push_back({d + (i32)i, src[i]}); e.widths.push_back(width(es[i].t)); } }
        F->edges.push_back(e); fixEdges.push_back({(u32)F->edges.size() - 1, to}); return F->edges.size() - 1;
    };
    auto bad = [&](const Instruction& in) { std::string s; raw_string_ostream o(s); in.print(o); auto cs = std::make_unique<CallSite>(); cs->name = s; F->calls.push_back(std::move(cs)); emit(mk(I::Bad, 0, 0, 0, 0, 0, 0, 0, F->calls.size() - 1)); };
    for (auto& bb : f) {
        bbpc[&bb] = F->code.size();
        for (auto& in : bb) {
            if (auto& d = in.getDebugLoc()) curLine = d.getLine();
            i32 D = in.getType()->isVoidTy() ? -1 : slot[&in];
            if (isa<PHINode>(in)) continue;
            if (auto* b = dyn_cast<BinaryOperator>(&in)) {
                auto x = ops(b->getOperand(0)), y = ops(b->getOperand(1)); auto es = elems(in.getType());
                for (size_t i = 0; i < es.size(); i++) {
                    u8 w = width(es[i].t); Op o;
                    switch (b->getOpcode()) {
                    case Instruction::Add: o = Op::Add; break; case Instruction::Sub: o = Op::Sub; break; case Instruction::Mul: o = Op::Mul; break;
                    case Instruction::UDiv: o = Op::UDiv; break; case Instruction::SDiv: o = Op::SDiv; break; case Instruction::URem: o = Op::URem; break; case Instruction::SRem: o = Op::SRem; break;
                    case Instruction::And: o = Op::And; break; case Instruction::Or: o = Op::Or; break; case Instruction::Xor: o = Op::Xor; break;
                    case Instruction::Shl: o = Op::Shl; break; case Instruction::LShr: o = Op::LShr; break; case Instruction::AShr: o = Op::AShr; break;
                    default:
                        emit(mk(I::FBin, b->getOpcode() == Instruction::FAdd ? 0 : b->getOpcode() == Instruction::FSub ? 1 : b->getOpcode() == Instruction::FMul ? 2 : b->getOpcode() == Instruction::FDiv ? 3 : 4, w, 0, D + i, x[i], y[i]));
                        continue;
                    }
                    emit(mk(I::Bin, (u8)o, w, 0, D + i, x[i], y[i]));
                }
            } else if (auto* c = dyn_cast<ICmpInst>(&in)) {
                auto x = ops(c->getOperand(0)), y = ops(c->getOperand(1)); auto es = elems(c->getOperand(0)->getType());
                for (size_t i = 0; i < es.size(); i++) {
                    u8 w = width(es[i].t); Op o; bool sw = false, ng = false;
                    switch (c->getPredicate()) {
                    case CmpInst::ICMP_EQ: o = Op::Eq; break; case CmpInst::ICMP_NE: o = Op::Eq; ng = true; break;
                    case CmpInst::ICMP_ULT: o = Op::Ult; break; case CmpInst::ICMP_ULE: o = Op::Ule; break; case CmpInst::ICMP_UGT: o = Op::Ult; sw = true; break; case CmpInst::ICMP_UGE: o = Op::Ule; sw = true; break;
                    case CmpInst::ICMP_SLT: o = Op::Slt; break; case CmpInst::ICMP_SLE: o = Op::Sle; break; case CmpInst::ICMP_SGT: o = Op::Slt; sw = true; break; default: o = Op::Sle; sw = true; break;
                    }
                    emit(mk(ng ? I::CmpN : I::Cmp, (u8)o, w, 0, D + i, sw ? y[i] : x[i], sw ? x[i] : y[i]));
                }
            } else if (auto* s = dyn_cast<SelectInst>(&in)) {
                auto x = ops(s->getTrueValue()), y = ops(s->getFalseValue()); auto es = elems(in.getType()); auto cc = ops(s->getCondition());
                for (size_t i = 0; i < es.size(); i++) emit(mk(I::Sel, 0, width(es[i].t), 0, D + i, cc.size() > 1 ? cc[i] : cc[0], x[i], y[i]));
            } else if (auto* c = dyn_cast<CastInst>(&in)) {
                auto x = ops(c->getOperand(0)); auto es = elems(in.getType()), fs = elems(c->getOperand(0)->getType());
                if (es.size() != fs.size()) { bad(in); continue; }
                for (size_t i = 0; i < es.size(); i++) {
                    u8 w = width(es[i].t), fw = width(fs[i].t);
                    switch (c->getOpcode()) {
                    case Instruction::ZExt: emit(mk(I::ZExt, 0, w, fw, D + i, x[i])); break;
                    case Instruction::SExt: emit(mk(I::SExt, 0, w, fw, D + i, x[i])); break;
                    case Instruction::Trunc: emit(mk(I::Trunc, 0, w, fw, D + i, x[i])); break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
                        emit(mk(w == fw ? I::Copy : w > fw ? I::ZExt : I::Trunc, 0, w, fw, D + i, x[i])); break;
                    default: emit(mk(I::FConv, c->getOpcode() == Instruction::UIToFP ? 0 : c->getOpcode() == Instruction::SIToFP ? 1 : c->getOpcode() == Instruction::FPToUI ? 2 : c->getOpcode() == Instruction::FPToSI ? 3 : 4, w, fw, D + i, x[i]));
                    }
                }
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&in)) {
                if (g->getType()->isVectorTy()) { bad(in); continue; }
                i64 off = 0; std::vector<std::pair<i32, i64>> idx; std::vector<u8> iw;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* v = it.getOperand();
                    if (auto* st = it.getStructTypeOrNull()) { off += dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
                    u64 sz = dl->getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(v)) { off += ci->getSExtValue() * (i64)sz; continue; }
                    i32 o = op1(v); unsigned w = width(v->getType());
                    if (w < 64) { emit(mk(I::SExt, 0, 64, w, (i32)n, o)); o = n++; }
                    idx.push_back({o, (i64)sz});
                }
                i32 base = op1(g->getPointerOperand());
                if (idx.empty()) emit(mk(I::AddK, 0, 64, 0, D, base, kidx({(u64)off, nullptr})));
                else { idx.push_back({kidx({(u64)off, nullptr}), 1}); F->geps.push_back(idx); emit(mk(I::Gep, 0, 64, 0, D, base, 0, 0, F->geps.size() - 1)); }
            } else if (auto* l = dyn_cast<LoadInst>(&in)) {
                i32 p = op1(l->getPointerOperand());
                auto es = elems(in.getType());
                for (size_t i = 0; i < es.size(); i++) emit(mk(I::Load, 0, width(es[i].t), dl->getTypeStoreSize(es[i].t), D + i, p, 0, 0, es[i].off));
            } else if (auto* s = dyn_cast<StoreInst>(&in)) {
                i32 p = op1(s->getPointerOperand()); auto v = ops(s->getValueOperand()); auto es = elems(s->getValueOperand()->getType());
                for (size_t i = 0; i < es.size(); i++) emit(mk(I::Store, s->isAtomic(), width(es[i].t), dl->getTypeStoreSize(es[i].t), -1, p, v[i], 0, es[i].off));
            } else if (auto* a = dyn_cast<AllocaInst>(&in)) {
                emit(mk(I::Alloca, 0, 64, 0, D, op1(a->getArraySize()), 0, 0, (u32)dl->getTypeAllocSize(a->getAllocatedType())));
            } else if (auto* b = dyn_cast<BranchInst>(&in)) {
                if (b->isUnconditional()) emit(mk(I::Br, 0, 0, 0, 0, 0, 0, 0, edge(&bb, b->getSuccessor(0))));
                else { i32 c = op1(b->getCondition()); u32 t = edge(&bb, b->getSuccessor(0)), e = edge(&bb, b->getSuccessor(1)); emit(mk(I::CondBr, 0, 1, 0, 0, c, 0, (i32)e, t)); }
            } else if (auto* s = dyn_cast<SwitchInst>(&in)) {
                SwitchInfo si; si.def = edge(&bb, s->getDefaultDest());
                for (auto& c : s->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())});
                F->sws.push_back(si); emit(mk(I::Switch, 0, width(s->getCondition()->getType()), 0, 0, op1(s->getCondition()), 0, 0, F->sws.size() - 1));
            } else if (auto* cb = dyn_cast<CallBase>(&in)) {
                if (isa<DbgInfoIntrinsic>(in)) continue;
                if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && in.getType()->isVoidTy()) continue; bad(in); continue; }
                auto cs = std::make_unique<CallSite>(); cs->dst = D; cs->dstN = D < 0 ? 0 : elems(in.getType()).size();
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cv)) { Func* c = fn(cf); cs->name = c->name; if (cf->isDeclaration()) { cs->builtin = c->builtin ? c->builtin : -1; } else cs->callee = c; }
                else cs->target = op1(cb->getCalledOperand());
                if (cs->builtin == B_NOP) { if (cb->isTerminator()) {} else if (D < 0) continue; }
                unsigned ai = 0;
                for (auto& a : cb->args()) {
                    if (a->getType()->isMetadataTy()) { ai++; continue; }
                    if (cb->isByValArgument(ai)) cs->byval.push_back({(u32)cs->args.size(), (u32)dl->getTypeAllocSize(cb->getParamByValType(ai))});
                    for (i32 o : ops(a)) cs->args.push_back(o);
                    for (auto& e : elems(a->getType())) cs->argW.push_back(width(e.t));
                    ai++;
                }
                if (D >= 0) { auto es = elems(in.getType()); cs->w = es.empty() ? 64 : width(es[0].t); }
                if (auto* iv = dyn_cast<InvokeInst>(cb)) { cs->invoke = true; cs->normal = edge(&bb, iv->getNormalDest()); cs->unwind = edge(&bb, iv->getUnwindDest()); }
                F->calls.push_back(std::move(cs)); emit(mk(I::Call, 0, 0, 0, D, 0, 0, 0, F->calls.size() - 1));
            } else if (auto* r = dyn_cast<ReturnInst>(&in)) {
                std::vector<std::pair<i32, i64>> v; if (r->getReturnValue()) for (i32 o : ops(r->getReturnValue())) v.push_back({o, 0});
                F->geps.push_back(v); emit(mk(I::Ret, 0, 0, 0, 0, 0, 0, 0, F->geps.size() - 1));
            } else if (isa<UnreachableInst>(in)) emit(mk(I::Unreach, 0, 0, 0, 0, 0));
            else if (auto* e = dyn_cast<ExtractValueInst>(&in)) {
                auto src = ops(e->getAggregateOperand()); Type* t = e->getAggregateOperand()->getType(); size_t off = 0;
                for (unsigned ix : e->indices()) { for (unsigned k = 0; k < ix; k++) { Type* st = isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType(); off += elems(st).size(); } t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType(); }
                size_t k = elems(t).size(); for (size_t i = 0; i < k; i++) emit(mk(I::Copy, 0, 64, 64, D + i, src[off + i]));
            } else if (auto* e = dyn_cast<InsertValueInst>(&in)) {
                auto src = ops(e->getAggregateOperand()), val = ops(e->getInsertedValueOperand()); Type* t = in.getType(); size_t off = 0;
                for (unsigned ix : e->indices()) { for (unsigned k = 0; k < ix; k++) { Type* st = isa<StructType>(t) ? t->getStructElementType(k) : t->getArrayElementType(); off += elems(st).size(); } t = isa<StructType>(t) ? t->getStructElementType(ix) : t->getArrayElementType(); }
                for (size_t i = 0; i < src.size(); i++) emit(mk(I::Copy, 0, 64, 64, D + i, i >= off && i < off + val.size() ? val[i - off] : src[i]));
            } else if (auto* e = dyn_cast<ExtractElementInst>(&in)) {
                auto src = ops(e->getVectorOperand()); auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand()); if (!ci) { bad(in); continue; }
                emit(mk(I::Copy, 0, 64, 64, D, src[ci->getZExtValue()]));
            } else if (auto* e = dyn_cast<InsertElementInst>(&in)) {
                auto src = ops(e->getOperand(0)), val = ops(e->getOperand(1)); auto* ci = dyn_cast<ConstantInt>(e->getOperand(2)); if (!ci) { bad(in); continue; }
                for (size_t i = 0; i < src.size(); i++) emit(mk(I::Copy, 0, 64, 64, D + i, i == ci->getZExtValue() ? val[0] : src[i]));
            } else if (auto* e = dyn_cast<ShuffleVectorInst>(&in)) {
                auto x = ops(e->getOperand(0)), y = ops(e->getOperand(1)); auto mask = e->getShuffleMask();
                for (size_t i = 0; i < mask.size(); i++) emit(mk(I::Copy, 0, 64, 64, D + i, mask[i] < 0 ? kidx({0, nullptr}) : (size_t)mask[i] < x.size() ? x[mask[i]] : y[mask[i] - x.size()]));
            } else if (auto* lp = dyn_cast<LandingPadInst>(&in)) {
                LandingInfo li; li.cleanup = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); i++) { if (lp->isCatch(i)) li.clauses.push_back({true, constant(lp->getClause(i)).v}); else li.clauses.push_back({false, 0}); }
                F->lps.push_back(li); emit(mk(I::Landing, 0, 0, 0, D, 0, 0, 0, F->lps.size() - 1));
            } else if (auto* r = dyn_cast<ResumeInst>(&in)) { auto v = ops(r->getValue()); emit(mk(I::Resume, 0, 0, 0, 0, v[0])); }
            else if (auto* fc = dyn_cast<FCmpInst>(&in)) { emit(mk(I::FCmp, fc->getPredicate(), width(fc->getOperand(0)->getType()), 0, D, op1(fc->getOperand(0)), op1(fc->getOperand(1)))); }
            else if (auto* fz = dyn_cast<FreezeInst>(&in)) { auto v = ops(fz->getOperand(0)); for (size_t i = 0; i < v.size(); i++) emit(mk(I::Copy, 0, 64, 64, D + i, v[i])); }
            else if (auto* rm = dyn_cast<AtomicRMWInst>(&in)) {
                emit(mk(I::Rmw, (u8)rm->getOperation(), width(in.getType()), dl->getTypeStoreSize(in.getType()), D, op1(rm->getPointerOperand()), op1(rm->getValOperand())));
            } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)) {
                emit(mk(I::CmpXchg, 0, width(cx->getNewValOperand()->getType()), dl->getTypeStoreSize(cx->getNewValOperand()->getType()), D, op1(cx->getPointerOperand()), op1(cx->getCompareOperand()), op1(cx->getNewValOperand())));
            } else if (isa<FenceInst>(in)) {}
            else if (in.getOpcode() == Instruction::FNeg) emit(mk(I::FNeg, 0, width(in.getType()), 0, D, op1(in.getOperand(0))));
            else bad(in);
        }
    }
    for (auto& fe : fixEdges) F->edges[fe.first].pc = bbpc[fe.second];
    F->nslots = n;
}
