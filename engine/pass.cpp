// Instrumentation pass of the solver-based checker: rewrites every function of
// a module so that, next to each concrete value, a symbolic expression (null
// when concrete) is computed by the runtime in rt.cpp.
#include "llvm/ADT/SmallVector.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {
enum Kind { KNone, KInt, KDbl, KStruct };

struct Instr {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *PtrTy, *I64, *I32, *I8, *I1, *DblTy, *VoidTy;
    Constant *Null;
    GlobalVariable *GArgs, *GTag, *GRet, *GFlags;
    std::vector<std::string> FnNames;
    int NFn = 0;

    explicit Instr(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
        PtrTy = PointerType::get(C, 0);
        I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I8 = Type::getInt8Ty(C);
        I1 = Type::getInt1Ty(C); DblTy = Type::getDoubleTy(C); VoidTy = Type::getVoidTy(C);
        Null = ConstantPointerNull::get(cast<PointerType>(PtrTy));
        GArgs = ext("__s_args", ArrayType::get(PtrTy, 64));
        GTag = ext("__s_tag", PtrTy);
        GRet = ext("__s_ret", ArrayType::get(PtrTy, 16));
        GFlags = ext("__s_fnflags", ArrayType::get(I8, 65536));
    }
    GlobalVariable *ext(const char *n, Type *t) {
        if (auto *g = M.getNamedGlobal(n)) return g;
        return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
    }
    FunctionCallee fn(const char *n, Type *r, ArrayRef<Type *> a) {
        auto f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
        return f;
    }
    static bool isScalarInt(Type *t) { auto *i = dyn_cast<IntegerType>(t); return i && i->getBitWidth() <= 64; }
    Kind kind(Type *t) {
        if (isScalarInt(t)) return KInt;
        if (t->isDoubleTy()) return KDbl;
        if (auto *s = dyn_cast<StructType>(t)) {
            if (s->getNumElements() <= 8) {
                for (auto *e : s->elements()) { Kind k = kind(e); if (k == KStruct) return KNone; }
                for (auto *e : s->elements()) { Kind k = kind(e); if (k == KInt || k == KDbl) return KStruct; }
            }
        }
        return KNone;
    }
    Type *shadowTy(Type *t) {
        Kind k = kind(t);
        if (k == KInt || k == KDbl) return PtrTy;
        if (k == KStruct) {
            SmallVector<Type *, 8> e(cast<StructType>(t)->getNumElements(), PtrTy);
            return StructType::get(C, e);
        }
        return nullptr;
    }
    bool isRuntimeName(StringRef n) { return n.starts_with("__s_"); }

    void run() {
        std::vector<Function *> fs;
        for (auto &F : M) if (!F.isDeclaration() && !F.isVarArg() && !isRuntimeName(F.getName())) fs.push_back(&F);
        for (auto *F : fs) instrument(*F);
        // names table
        std::vector<Constant *> names;
        for (auto &n : FnNames) {
            auto *s = ConstantDataArray::getString(C, n);
            auto *g = new GlobalVariable(M, s->getType(), true, GlobalValue::PrivateLinkage, s);
            names.push_back(g);
        }
        auto *at = ArrayType::get(PtrTy, names.size());
        new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, names), "__s_fnnames");
        new GlobalVariable(M, I32, true, GlobalValue::ExternalLinkage, ConstantInt::get(I32, names.size()), "__s_nfn");
    }

    // ---- per function
    DenseMap<Value *, Value *> S;
    std::vector<std::pair<PHINode *, PHINode *>> phis;

    Value *nullOf(Type *t) { return Constant::getNullValue(shadowTy(t)); }
    Value *sh(Value *v) {
        Type *st = shadowTy(v->getType());
        if (!st) return nullptr;
        auto it = S.find(v);
        if (it != S.end()) return it->second;
        return Constant::getNullValue(st);
    }
    bool isNull(Value *s) { return !s || (isa<Constant>(s) && cast<Constant>(s)->isNullValue()); }
    Value *toI64(IRBuilder<> &B, Value *v) {
        if (v->getType()->isIntegerTy(64)) return v;
        return B.CreateSExt(v, I64);
    }
    Value *i8of(IRBuilder<> &B, Value *v) { return B.CreateZExt(v, I8); }
    Value *c32(int x) { return ConstantInt::get(I32, x); }
    unsigned W(Type *t) { return cast<IntegerType>(t)->getBitWidth(); }

    void pin(IRBuilder<> &B, Value *v) {
        Value *s = sh(v);
        if (isNull(s)) return;
        Kind k = kind(v->getType());
        if (k == KInt) B.CreateCall(fn("__s_pin_i", VoidTy, {PtrTy, I64}), {s, toI64(B, v)});
        else if (k == KDbl) B.CreateCall(fn("__s_pin_d", VoidTy, {PtrTy, DblTy}), {s, v});
        else if (k == KStruct) {
            auto *st = cast<StructType>(v->getType());
            for (unsigned i = 0; i < st->getNumElements(); i++) {
                Kind ek = kind(st->getElementType(i));
                if (ek == KInt) B.CreateCall(fn("__s_pin_i", VoidTy, {PtrTy, I64}), {B.CreateExtractValue(s, i), toI64(B, B.CreateExtractValue(v, i))});
                if (ek == KDbl) B.CreateCall(fn("__s_pin_d", VoidTy, {PtrTy, DblTy}), {B.CreateExtractValue(s, i), B.CreateExtractValue(v, i)});
            }
        }
    }

    int fun1(StringRef n) {
        static const std::map<std::string, int> m = {{"floor", 1}, {"ceil", 2}, {"fabs", 3}, {"sqrt", 4}, {"trunc", 5}, {"round", 6}, {"rint", 7}, {"nearbyint", 8}, {"exp", 9}, {"log", 10}, {"log2", 11}, {"log10", 12}, {"sin", 13}, {"cos", 14}, {"exp2", 15}, {"log1p", 16}, {"expm1", 17}, {"cbrt", 18}, {"tanh", 19}};
        auto it = m.find(n.str());
        return it == m.end() ? 0 : it->second;
    }
    int fun2(StringRef n) {
        static const std::map<std::string, int> m = {{"pow", 1}, {"fmod", 2}, {"fmin", 3}, {"fmax", 4}, {"hypot", 5}, {"atan2", 6}, {"copysign", 7}};
        auto it = m.find(n.str());
        return it == m.end() ? 0 : it->second;
    }

    void instrument(Function &F) {
        S.clear(); phis.clear();
        {
            std::vector<InvokeInst *> invs;
            for (auto &I : instructions(F)) if (auto *Inv = dyn_cast<InvokeInst>(&I)) invs.push_back(Inv);
            for (auto *Inv : invs) if (!Inv->getNormalDest()->getSinglePredecessor()) SplitEdge(Inv->getParent(), Inv->getNormalDest());
        }
        int id = NFn++;
        FnNames.push_back(F.getName().str());
        std::vector<Instruction *> insts;
        for (auto &I : instructions(F)) insts.push_back(&I);
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            // keep allocas first
            BasicBlock::iterator ip = F.getEntryBlock().getFirstInsertionPt();
            while (isa<AllocaInst>(&*ip)) ++ip;
            B.SetInsertPoint(&*ip);
            if (id < 65536) B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstInBoundsGEP2_32(GFlags->getValueType(), GFlags, 0, id));
            bool any = false;
            for (auto &A : F.args()) { if ((kind(A.getType()) == KInt || kind(A.getType()) == KDbl || A.hasByValAttr()) && A.getArgNo() < 64) any = true; }
            if (any) {
                Value *arr = B.CreateCall(fn("__s_enter", PtrTy, {PtrTy}), {&F});
                for (auto &A : F.args()) {
                    if (A.getArgNo() >= 64) break;
                    Kind k = kind(A.getType());
                    Value *slot = B.CreateConstInBoundsGEP1_32(PtrTy, arr, A.getArgNo());
                    if (k == KInt || k == KDbl) {
                        Value *l = B.CreateLoad(PtrTy, slot);
                        S[&A] = l;
                    } else if (A.hasByValAttr()) {
                        Value *l = B.CreateLoad(PtrTy, slot);
                        B.CreateCall(fn("__s_byval", VoidTy, {PtrTy, PtrTy, I64}), {&A, l, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
                    }
                }
            }
        }
        // create shadow phis first
        for (auto *I : insts)
            if (auto *P = dyn_cast<PHINode>(I)) {
                Type *st = shadowTy(P->getType());
                if (!st) continue;
                IRBuilder<> B(P);
                PHINode *sp = B.CreatePHI(st, P->getNumIncomingValues());
                S[P] = sp;
                phis.push_back({P, sp});
            }
        // visit in RPO-ish order: use dominance-safe order = reverse post order
        std::set<Instruction *> todo(insts.begin(), insts.end());
        ReversePostOrder(F, insts);
        for (auto &pr : phis) {
            PHINode *P = pr.first, *sp = pr.second;
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++) sp->addIncoming(sh(P->getIncomingValue(i)), P->getIncomingBlock(i));
        }
        // simplify all-null phis
        bool changed = true;
        while (changed) {
            changed = false;
            for (auto &pr : phis) {
                if (!pr.second) continue;
                bool allnull = true;
                for (Value *v : pr.second->incoming_values()) if (v != pr.second && !isNull(v)) { allnull = false; break; }
                if (allnull) { pr.second->replaceAllUsesWith(Constant::getNullValue(pr.second->getType())); pr.second->eraseFromParent(); pr.second = nullptr; changed = true; }
            }
        }
    }
    void ReversePostOrder(Function &F, std::vector<Instruction *> &orig) {
        std::set<Instruction *> isOrig(orig.begin(), orig.end());
        std::vector<BasicBlock *> order;
        std::set<BasicBlock *> seen;
        // iterative DFS
        std::vector<std::pair<BasicBlock *, succ_iterator>> st;
        BasicBlock *e = &F.getEntryBlock();
        seen.insert(e);
        st.push_back({e, succ_begin(e)});
        std::vector<BasicBlock *> post;
        while (!st.empty()) {
            auto &top = st.back();
            if (top.second != succ_end(top.first)) {
                BasicBlock *n = *top.second; ++top.second;
                if (seen.insert(n).second) st.push_back({n, succ_begin(n)});
            } else { post.push_back(top.first); st.pop_back(); }
        }
        std::vector<std::vector<Instruction *>> lists;
        for (auto it = post.rbegin(); it != post.rend(); ++it) {
            std::vector<Instruction *> l;
            for (auto &I : **it) if (isOrig.count(&I)) l.push_back(&I);
            lists.push_back(l);
        }
        for (auto &l : lists) for (auto *I : l) visit(*I);
    }

    void visit(Instruction &I) {
        if (isa<PHINode>(I)) return;
        IRBuilder<> B(&I);
        auto after = [&]() { B.SetInsertPoint(I.getNextNode()); };
        if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            Type *t = BO->getType();
            if (isScalarInt(t)) {
                Value *sa = sh(a), *sb = sh(b);
                if (isNull(sa) && isNull(sb)) return;
                S[&I] = B.CreateCall(fn("__s_bin", PtrTy, {I32, PtrTy, PtrTy, I64, I64, I32}), {c32(BO->getOpcode()), sa, sb, toI64(B, a), toI64(B, b), c32(W(t))});
            } else if (t->isDoubleTy()) {
                Value *sa = sh(a), *sb = sh(b);
                if (isNull(sa) && isNull(sb)) return;
                S[&I] = B.CreateCall(fn("__s_fbin", PtrTy, {I32, PtrTy, PtrTy, DblTy, DblTy}), {c32(BO->getOpcode()), sa, sb, a, b});
            } else { pin(B, a); pin(B, b); }
            return;
        }
        if (auto *U = dyn_cast<UnaryOperator>(&I)) {
            Value *a = U->getOperand(0);
            if (a->getType()->isDoubleTy() && !isNull(sh(a))) S[&I] = B.CreateCall(fn("__s_fneg", PtrTy, {PtrTy, DblTy}), {sh(a), a});
            else pin(B, a);
            return;
        }
        if (auto *IC = dyn_cast<ICmpInst>(&I)) {
            Value *a = IC->getOperand(0), *b = IC->getOperand(1);
            if (!isScalarInt(a->getType())) { pin(B, a); pin(B, b); return; }
            Value *sa = sh(a), *sb = sh(b);
            if (isNull(sa) && isNull(sb)) return;
            S[&I] = B.CreateCall(fn("__s_icmp", PtrTy, {I32, PtrTy, PtrTy, I64, I64, I32}), {c32(IC->getPredicate()), sa, sb, toI64(B, a), toI64(B, b), c32(W(a->getType()))});
            return;
        }
        if (auto *FC = dyn_cast<FCmpInst>(&I)) {
            Value *a = FC->getOperand(0), *b = FC->getOperand(1);
            if (!a->getType()->isDoubleTy()) { pin(B, a); pin(B, b); return; }
            Value *sa = sh(a), *sb = sh(b);
            if (isNull(sa) && isNull(sb)) return;
            S[&I] = B.CreateCall(fn("__s_fcmp", PtrTy, {I32, PtrTy, PtrTy, DblTy, DblTy}), {c32(FC->getPredicate()), sa, sb, a, b});
            return;
        }
        if (auto *SI = dyn_cast<SelectInst>(&I)) {
            Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
            if (!c->getType()->isIntegerTy(1)) return;
            Value *sc = sh(c);
            Kind k = kind(I.getType());
            if (k == KInt) {
                Value *sa = sh(a), *sb = sh(b);
                if (isNull(sc) && isNull(sa) && isNull(sb)) return;
                S[&I] = B.CreateCall(fn("__s_sel_i", PtrTy, {PtrTy, I8, PtrTy, PtrTy, I64, I64, I32}), {sc, i8of(B, c), sa, sb, toI64(B, a), toI64(B, b), c32(W(I.getType()))});
            } else if (k == KDbl) {
                Value *sa = sh(a), *sb = sh(b);
                if (isNull(sc) && isNull(sa) && isNull(sb)) return;
                S[&I] = B.CreateCall(fn("__s_sel_d", PtrTy, {PtrTy, I8, PtrTy, PtrTy, DblTy, DblTy}), {sc, i8of(B, c), sa, sb, a, b});
            } else {
                if (!isNull(sc)) B.CreateCall(fn("__s_branch", VoidTy, {PtrTy, I8}), {sc, i8of(B, c)});
                if (k == KStruct) S[&I] = B.CreateSelect(c, sh(a), sh(b));
            }
            return;
        }
        if (auto *CI = dyn_cast<CastInst>(&I)) {
            Value *a = CI->getOperand(0);
            Type *ft = a->getType(), *tt = CI->getType();
            Value *sa = sh(a);
            if (isNull(sa)) return;
            switch (CI->getOpcode()) {
                case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
                    if (isScalarInt(ft) && isScalarInt(tt)) S[&I] = B.CreateCall(fn("__s_cast", PtrTy, {I32, PtrTy, I64, I32, I32}), {c32(CI->getOpcode()), sa, toI64(B, a), c32(W(ft)), c32(W(tt))});
                    else pin(B, a);
                    return;
                case Instruction::SIToFP: case Instruction::UIToFP:
                    if (tt->isDoubleTy() && isScalarInt(ft)) S[&I] = B.CreateCall(fn("__s_itof", PtrTy, {I32, PtrTy, I64, I32}), {c32(CI->getOpcode() == Instruction::SIToFP), sa, toI64(B, a), c32(W(ft))});
                    else pin(B, a);
                    return;
                case Instruction::FPToSI: case Instruction::FPToUI:
                    if (ft->isDoubleTy() && isScalarInt(tt)) S[&I] = B.CreateCall(fn("__s_ftoi", PtrTy, {I32, PtrTy, DblTy, I32}), {c32(CI->getOpcode() == Instruction::FPToSI), sa, a, c32(W(tt))});
                    else pin(B, a);
                    return;
                case Instruction::BitCast:
                    if (shadowTy(tt) == PtrTy) S[&I] = sa; else pin(B, a);
                    return;
                default: pin(B, a); return;
            }
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            for (auto &op : G->indices()) pin(B, op.get());
            return;
        }
        if (auto *L = dyn_cast<LoadInst>(&I)) {
            Type *t = L->getType();
            Kind k = kind(t);
            if (k == KInt || k == KDbl) {
                after();
                Value *bits = k == KInt ? toI64(B, L) : B.CreateBitCast(L, I64);
                S[&I] = B.CreateCall(fn("__s_load", PtrTy, {PtrTy, I32, I32, I64, I32}), {L->getPointerOperand(), c32(DL.getTypeStoreSize(t)), c32(k == KDbl), bits, c32(k == KInt ? W(t) : 64)});
            } else if (!t->isPointerTy()) {
                B.CreateCall(fn("__s_pinmem", VoidTy, {PtrTy, I64}), {L->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(t))});
            }
            return;
        }
        if (auto *St = dyn_cast<StoreInst>(&I)) {
            Value *v = St->getValueOperand();
            Kind k = kind(v->getType());
            if (k == KInt || k == KDbl) {
                B.CreateCall(fn("__s_store", VoidTy, {PtrTy, I32, PtrTy}), {St->getPointerOperand(), c32(DL.getTypeStoreSize(v->getType())), sh(v)});
            } else {
                pin(B, v);
                B.CreateCall(fn("__s_store", VoidTy, {PtrTy, I32, PtrTy}), {St->getPointerOperand(), c32(DL.getTypeStoreSize(v->getType())), Null});
            }
            return;
        }
        if (auto *A = dyn_cast<AtomicRMWInst>(&I)) {
            pin(B, A->getValOperand());
            B.CreateCall(fn("__s_pinmem", VoidTy, {PtrTy, I64}), {A->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(A->getType()))});
            return;
        }
        if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) {
            pin(B, X->getCompareOperand()); pin(B, X->getNewValOperand());
            B.CreateCall(fn("__s_pinmem", VoidTy, {PtrTy, I64}), {X->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(X->getCompareOperand()->getType()))});
            return;
        }
        if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
            Value *a = E->getAggregateOperand();
            if (kind(a->getType()) == KStruct && E->getNumIndices() == 1 && shadowTy(I.getType()) == PtrTy) {
                Value *sa = sh(a);
                if (!isNull(sa)) S[&I] = B.CreateExtractValue(sa, E->getIndices());
            }
            return;
        }
        if (auto *E = dyn_cast<InsertValueInst>(&I)) {
            Value *a = E->getAggregateOperand(), *v = E->getInsertedValueOperand();
            if (kind(a->getType()) == KStruct && E->getNumIndices() == 1) {
                Value *sv = sh(v);
                if (!sv) sv = Null;
                if (isNull(sh(a)) && isNull(sv)) return;
                S[&I] = B.CreateInsertValue(sh(a), sv, E->getIndices());
            } else pin(B, v);
            return;
        }
        if (auto *Fz = dyn_cast<FreezeInst>(&I)) {
            Value *s = sh(Fz->getOperand(0));
            if (s && !isNull(s)) S[&I] = s;
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I)) {
            Value *v = R->getReturnValue();
            if (!v) return;
            if (auto *CI = dyn_cast_or_null<CallInst>(R->getPrevNode())) if (CI->isMustTailCall()) return;
            Kind k = kind(v->getType());
            if (k == KInt || k == KDbl) B.CreateStore(sh(v), GRet);
            else if (k == KStruct) {
                auto *st = cast<StructType>(v->getType());
                for (unsigned i = 0; i < st->getNumElements(); i++) B.CreateStore(B.CreateExtractValue(sh(v), i), B.CreateConstInBoundsGEP1_32(PtrTy, GRet, i));
            }
            return;
        }
        if (auto *Br = dyn_cast<BranchInst>(&I)) {
            if (Br->isConditional()) {
                Value *s = sh(Br->getCondition());
                if (!isNull(s)) B.CreateCall(fn("__s_branch", VoidTy, {PtrTy, I8}), {s, i8of(B, Br->getCondition())});
            }
            return;
        }
        if (auto *Sw = dyn_cast<SwitchInst>(&I)) { pin(B, Sw->getCondition()); return; }
        if (auto *CB = dyn_cast<CallBase>(&I)) { visitCall(*CB); return; }
        if (isa<AllocaInst>(I)) {
            pin(B, cast<AllocaInst>(I).getArraySize());
            return;
        }
        // anything else: concretise operands
        if (!isa<UnreachableInst>(I) && !isa<ResumeInst>(I) && !isa<LandingPadInst>(I))
            for (auto &op : I.operands()) if (shadowTy(op->getType())) pin(B, op.get());
    }

    void setRet(CallBase &CB, Value *s) { S[&CB] = s; }
    // insertion point right after the call on the normal path
    Instruction *afterCall(CallBase &CB) {
        if (auto *Inv = dyn_cast<InvokeInst>(&CB)) {
            BasicBlock *nd = Inv->getNormalDest();
            return &*nd->getFirstInsertionPt();
        }
        return CB.getNextNode();
    }
    void visitCall(CallBase &CB) {
        IRBuilder<> B(&CB);
        if (CB.isInlineAsm()) { for (auto &a : CB.args()) pin(B, a.get()); return; }
        Function *Cal = CB.getCalledFunction();
        if (!Cal) Cal = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
        if (Cal && Cal->isIntrinsic()) { visitIntrinsic(CB, Cal); return; }
        StringRef n = Cal ? Cal->getName() : StringRef();
        if (Cal && Cal->isDeclaration() && n.starts_with("vf_")) {
            // harness API: pass shadows of scalar args and take one back
            passArgs(B, CB, Cal);
            takeRet(CB);
            return;
        }
        if (Cal && n.starts_with("__s_")) return;
        if (Cal && (Cal->isDeclaration() || Cal->isVarArg())) {
            if (int f = fun1(n)) {
                if (CB.arg_size() == 1 && CB.getType()->isDoubleTy()) {
                    Value *a = CB.getArgOperand(0);
                    if (!isNull(sh(a))) S[&CB] = B.CreateCall(fn("__s_fun1", PtrTy, {I32, PtrTy, DblTy}), {c32(f), sh(a), a});
                    return;
                }
            }
            if (int f = fun2(n)) {
                if (CB.arg_size() == 2 && CB.getType()->isDoubleTy()) {
                    Value *a = CB.getArgOperand(0), *b = CB.getArgOperand(1);
                    if (!isNull(sh(a)) || !isNull(sh(b))) S[&CB] = B.CreateCall(fn("__s_fun2", PtrTy, {I32, PtrTy, PtrTy, DblTy, DblTy}), {c32(f), sh(a), sh(b), a, b});
                    return;
                }
            }
            if (n == "abs" || n == "labs") {
                Value *a = CB.getArgOperand(0);
                if (!isNull(sh(a))) S[&CB] = B.CreateCall(fn("__s_iabs", PtrTy, {PtrTy, I64, I32}), {sh(a), toI64(B, a), c32(W(a->getType()))});
                return;
            }
            if (n == "sprintf" || n == "snprintf" || n == "printf" || n == "fprintf") {   // text output: pinned unless the harness declared text opaque
                for (auto &a : CB.args()) {
                    Value *s = sh(a.get()); if (isNull(s)) continue;
                    Kind k = kind(a->getType());
                    if (k == KInt) B.CreateCall(fn("__s_tpin_i", VoidTy, {PtrTy, I64}), {s, toI64(B, a.get())});
                    else if (k == KDbl) B.CreateCall(fn("__s_tpin_d", VoidTy, {PtrTy, DblTy}), {s, a.get()});
                    else pin(B, a.get());
                }
                return;
            }
            for (auto &a : CB.args()) pin(B, a.get());
            if (n == "memcpy" || n == "memmove" || n == "__tsan_memcpy" || n == "__tsan_memmove") { B.CreateCall(fn("__s_memcpy", VoidTy, {PtrTy, PtrTy, I64}), {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2)}); return; }
            if (n == "memset" || n == "__tsan_memset") { B.CreateCall(fn("__s_clear", VoidTy, {PtrTy, I64}), {CB.getArgOperand(0), CB.getArgOperand(2)}); return; }
            if (n == "memcmp" || n == "bcmp" || n == "strncmp") { for (int i = 0; i < 2; i++) B.CreateCall(fn("__s_pinmem", VoidTy, {PtrTy, I64}), {CB.getArgOperand(i), CB.getArgOperand(2)}); return; }
            // C strings handed to the C library: their bytes up to the terminator are pinned
            if (n == "strlen" || n == "strcmp" || n == "strchr" || n == "strrchr" || n == "strstr" || n == "strcpy" || n == "strcat" || n == "strdup" || n == "atoi" || n == "atol" || n == "atoll" || n == "strcasecmp" || n == "puts" || n == "fputs" || n == "fopen" || n == "strtof" || n == "strtold" || n == "strtod" || n == "atof" || n == "__strtod_l" || n == "strtod_l")
                for (unsigned i = 0; i < CB.arg_size() && i < 2; i++)
                    if (CB.getArgOperand(i)->getType()->isPointerTy() && !(i == 1 && (n.starts_with("strto") || n == "__strtod_l" || n == "fputs")) && !(i == 0 && (n == "strcpy")))
                        B.CreateCall(fn("__s_pinstr", VoidTy, {PtrTy}), {CB.getArgOperand(i)});
            if (n == "memchr") B.CreateCall(fn("__s_pinmem", VoidTy, {PtrTy, I64}), {CB.getArgOperand(0), CB.getArgOperand(2)});
            if (n.starts_with("_ZSt16__ostream_insert") && CB.arg_size() == 3) B.CreateCall(fn("__s_pinmem", VoidTy, {PtrTy, I64}), {CB.getArgOperand(1), CB.getArgOperand(2)});
            // program heap: a deterministic arena, so addresses are a function of the path
            if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "free") {
                bool al = n.starts_with("_Zn") || n == "malloc";
                FunctionType *ft = Cal->getFunctionType();
                Function *w = cast<Function>(M.getOrInsertFunction(al ? "__s_malloc" : ft->getNumParams() == 2 ? "__s_free2" : "__s_free", ft).getCallee());
                CB.setCalledFunction(w);
                if (al) { CB.removeRetAttr(Attribute::NoAlias); B.SetInsertPoint(afterCall(CB)); B.CreateCall(fn("__s_clear", VoidTy, {PtrTy, I64}), {&CB, CB.getArgOperand(0)}); }
                return;
            }
            if (n == "malloc" || n == "_Znwm" || n == "_Znam") { B.SetInsertPoint(afterCall(CB)); B.CreateCall(fn("__s_clear", VoidTy, {PtrTy, I64}), {&CB, CB.getArgOperand(0)}); return; }
            if (n == "calloc") { B.SetInsertPoint(afterCall(CB)); B.CreateCall(fn("__s_clear", VoidTy, {PtrTy, I64}), {&CB, B.CreateMul(CB.getArgOperand(0), CB.getArgOperand(1))}); return; }
            if (n == "strtod" || n == "atof" || n == "__strtod_l" || n == "strtod_l") {
                { Function *w = cast<Function>(M.getOrInsertFunction(n == "atof" ? "__s_atof" : n == "strtod" ? "__s_strtod2" : "__s_strtod3", Cal->getFunctionType()).getCallee()); CB.setCalledFunction(w); takeRetRaw(CB); }
                return;
            }
            return;
        }
        passArgs(B, CB, CB.getCalledOperand());
        if (!CB.isMustTailCall()) takeRet(CB);
    }
    void passArgs(IRBuilder<> &B, CallBase &CB, Value *callee) {
        bool any = false;
        for (unsigned i = 0; i < CB.arg_size() && i < 64; i++) {
            Value *a = CB.getArgOperand(i);
            Kind k = kind(a->getType());
            Value *slot = B.CreateConstInBoundsGEP1_32(PtrTy, GArgs, i);
            if (k == KInt || k == KDbl) { B.CreateStore(sh(a), slot); any = true; }
            else if (CB.isByValArgument(i)) { B.CreateStore(a, slot); any = true; }
            else if (k == KStruct) pin(B, a);
        }
        if (any) B.CreateStore(callee, GTag);
        B.CreateStore(Null, GRet);
        if (kind(CB.getType()) == KStruct)
            for (unsigned i = 1; i < cast<StructType>(CB.getType())->getNumElements(); i++) B.CreateStore(Null, B.CreateConstInBoundsGEP1_32(PtrTy, GRet, i));
    }
    void takeRetRaw(CallBase &CB) {
        IRBuilder<> B(afterCall(CB));
        S[&CB] = B.CreateLoad(PtrTy, GRet);
    }
    void takeRet(CallBase &CB) {
        Kind k = kind(CB.getType());
        if (k == KNone) return;
        IRBuilder<> B(afterCall(CB));
        if (k == KInt || k == KDbl) {
            Value *l = B.CreateLoad(PtrTy, GRet);
            S[&CB] = l;
        } else {
            auto *st = cast<StructType>(CB.getType());
            Value *agg = PoisonValue::get(shadowTy(st));
            for (unsigned i = 0; i < st->getNumElements(); i++) {
                Kind ek = kind(st->getElementType(i));
                Value *l = (ek == KInt || ek == KDbl) ? (Value *)B.CreateLoad(PtrTy, B.CreateConstInBoundsGEP1_32(PtrTy, GRet, i)) : Null;
                agg = B.CreateInsertValue(agg, l, i);
            }
            S[&CB] = agg;
        }
    }
    void visitIntrinsic(CallBase &CB, Function *Cal) {
        IRBuilder<> B(&CB);
        auto id = Cal->getIntrinsicID();
        auto arg = [&](int i) { return CB.getArgOperand(i); };
        auto f1 = [&](int f) { Value *a = arg(0); if (!a->getType()->isDoubleTy()) { pin(B, a); return; } if (!isNull(sh(a))) S[&CB] = B.CreateCall(fn("__s_fun1", PtrTy, {I32, PtrTy, DblTy}), {c32(f), sh(a), a}); };
        auto f2 = [&](int f) { Value *a = arg(0), *b = arg(1); if (!a->getType()->isDoubleTy()) { pin(B, a); pin(B, b); return; } if (!isNull(sh(a)) || !isNull(sh(b))) S[&CB] = B.CreateCall(fn("__s_fun2", PtrTy, {I32, PtrTy, PtrTy, DblTy, DblTy}), {c32(f), sh(a), sh(b), a, b}); };
        auto minmax = [&](CmpInst::Predicate p) {
            Value *a = arg(0), *b = arg(1);
            if (!isScalarInt(a->getType())) return;
            if (isNull(sh(a)) && isNull(sh(b))) return;
            S[&CB] = B.CreateCall(fn("__s_minmax", PtrTy, {I32, PtrTy, PtrTy, I64, I64, I32}), {c32(p), sh(a), sh(b), toI64(B, a), toI64(B, b), c32(W(a->getType()))});
        };
        switch (id) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
                pin(B, arg(2));
                B.CreateCall(fn("__s_memcpy", VoidTy, {PtrTy, PtrTy, I64}), {arg(0), arg(1), B.CreateZExtOrTrunc(arg(2), I64)});
                return;
            case Intrinsic::memset:
                pin(B, arg(2)); pin(B, arg(1));
                B.CreateCall(fn("__s_clear", VoidTy, {PtrTy, I64}), {arg(0), B.CreateZExtOrTrunc(arg(2), I64)});
                return;
            case Intrinsic::lifetime_start: {
                auto *c = dyn_cast<ConstantInt>(arg(0));
                if (c && c->getSExtValue() > 0) B.CreateCall(fn("__s_clear", VoidTy, {PtrTy, I64}), {arg(1), arg(0)});
                return;
            }
            case Intrinsic::fabs: f1(3); return;
            case Intrinsic::floor: f1(1); return;
            case Intrinsic::ceil: f1(2); return;
            case Intrinsic::sqrt: f1(4); return;
            case Intrinsic::trunc: f1(5); return;
            case Intrinsic::round: f1(6); return;
            case Intrinsic::rint: f1(7); return;
            case Intrinsic::nearbyint: f1(8); return;
            case Intrinsic::exp: f1(9); return;
            case Intrinsic::log: f1(10); return;
            case Intrinsic::log2: f1(11); return;
            case Intrinsic::log10: f1(12); return;
            case Intrinsic::sin: f1(13); return;
            case Intrinsic::cos: f1(14); return;
            case Intrinsic::exp2: f1(15); return;
            case Intrinsic::pow: f2(1); return;
            case Intrinsic::minnum: f2(3); return;
            case Intrinsic::maxnum: f2(4); return;
            case Intrinsic::copysign: f2(7); return;
            case Intrinsic::smin: minmax(CmpInst::ICMP_SLT); return;
            case Intrinsic::smax: minmax(CmpInst::ICMP_SGT); return;
            case Intrinsic::umin: minmax(CmpInst::ICMP_ULT); return;
            case Intrinsic::umax: minmax(CmpInst::ICMP_UGT); return;
            case Intrinsic::abs: {
                Value *a = arg(0);
                if (isScalarInt(a->getType()) && !isNull(sh(a))) S[&CB] = B.CreateCall(fn("__s_iabs", PtrTy, {PtrTy, I64, I32}), {sh(a), toI64(B, a), c32(W(a->getType()))});
                return;
            }
            case Intrinsic::expect: case Intrinsic::ssa_copy: {
                Value *s = sh(arg(0));
                if (s && !isNull(s)) S[&CB] = s;
                return;
            }
            case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: return;
            default:
                for (auto &a : CB.args()) if (shadowTy(a->getType())) pin(B, a.get());
                return;
        }
    }
};

struct SymPass : PassInfoMixin<SymPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        // integer parsing: through the harness's own model of strtol if it has one (alltext.h), otherwise with pinned text
        for (const char *nm : {"strtol", "__isoc23_strtol", "strtoll", "__isoc23_strtoll", "strtoul", "__isoc23_strtoul", "strtoull", "__isoc23_strtoull"})
            if (Function *f = M.getFunction(nm); f && f->isDeclaration()) {
                bool u = StringRef(nm).contains("toul") || StringRef(nm).contains("toull");
                Function *w = u ? nullptr : M.getFunction("vfm_strtol");
                if (!w || w->isDeclaration()) w = cast<Function>(M.getOrInsertFunction(u ? "__s_strtoul" : "__s_strtol", f->getFunctionType()).getCallee());
                f->replaceAllUsesWith(w);
            }
        if (Function *f = M.getFunction("strtod"); f && f->isDeclaration()) {   // address taken (std::stod)
            Function *w = cast<Function>(M.getOrInsertFunction("__s_strtod2", f->getFunctionType()).getCallee());
            f->replaceUsesWithIf(w, [](Use &u) { auto *c = dyn_cast<CallBase>(u.getUser()); return !c || &c->getCalledOperandUse() != &u; });
        }
        Instr(M).run();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "symrt", "1", [](PassBuilder &PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
                    MPM.addPass(createModuleToFunctionPassAdaptor(LowerSwitchPass()));
                    MPM.addPass(SymPass());
                });
            }};
}
