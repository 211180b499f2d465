// VsPass: compile-time instrumentation that makes a C++ translation unit execute symbolically.
//
// Every scalar SSA value gets a shadow (an Expr* of the runtime, null = concrete); loads, stores, calls, branches
// and arithmetic are mirrored by calls into the runtime (engine/rt.cpp), which builds bit-precise terms, records the
// path condition and asks the SMT solver about branches and assertions.  The native code still runs, so every
// solver-predicted path is validated against the real execution.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/MemoryBuffer.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

#include "vsops.h"

namespace {

const char *envOr(const char *n, const char *d) { const char *v = getenv(n); return v ? v : d; }

// Library functions that have a model (engine/models.cpp, compiled with instrumentation, or engine/rt.cpp).
std::set<std::string> loadModels() {
    std::set<std::string> s;
    std::string path = envOr("VS_MODELS", "");
    if (path.empty()) return s;
    auto mb = MemoryBuffer::getFile(path);
    if (!mb) return s;
    SmallVector<StringRef, 64> lines;
    (*mb)->getBuffer().split(lines, '\n');
    for (auto l : lines) { l = l.trim(); if (!l.empty() && l[0] != '#') s.insert(l.str()); }
    return s;
}

bool isModelName(StringRef n) { return n.starts_with("__vs") || n.starts_with("vs_"); }

// ---------------------------------------------------------------------------------------------------------------
// Early pass: redirect modelled library functions, keep hooked conversions out of line.
// ---------------------------------------------------------------------------------------------------------------
struct VsEarly : PassInfoMixin<VsEarly> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        static std::set<std::string> models = loadModels();
        bool inModels = M.getSourceFileName().find("vs_models") != std::string::npos;
        std::vector<Function *> redirect;
        for (Function &F : M) {
            std::string n = F.getName().str();
            if (isModelName(n)) continue;
            if (models.count(n) && !inModels) redirect.push_back(&F);
            // number <-> text conversions with an out parameter: hook on return
            if (!F.isDeclaration() && n.find("19try_lexical_convertI") != std::string::npos) {
                F.addFnAttr(Attribute::NoInline);
                F.removeFnAttr(Attribute::AlwaysInline);
                F.addFnAttr("vs-numhook");
            }
        }
        for (Function *F : redirect) {
            std::string nn = "__vsm_" + F->getName().str();
            FunctionCallee c = M.getOrInsertFunction(nn, F->getFunctionType());
            F->replaceAllUsesWith(c.getCallee());
            if (!F->isDeclaration()) { F->deleteBody(); F->setComdat(nullptr); }
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

// ---------------------------------------------------------------------------------------------------------------
// Late pass: shadow instrumentation
// ---------------------------------------------------------------------------------------------------------------
using Shadow = SmallVector<Value *, 2>;

struct Instr {
    Module &M;
    const DataLayout &DL;
    LLVMContext &C;
    Type *i64, *i32, *i1, *i8, *ptr, *voidTy;
    Constant *nullE;
    GlobalVariable *gArgv, *gBv, *gCallee, *gRetv, *gRetfn;
    Function *F = nullptr;
    DenseMap<Value *, Shadow> sh;
    std::vector<std::pair<PHINode *, std::vector<PHINode *>>> phis;

    FunctionCallee fBin, fCmp, fCast, fIte, fLoad, fStore, fBranch, fSwitch, fUn, fMemcpy, fMemset, fConc, fArgs,
        fByval, fUncons, fGep, fClear, fOvf, fNumHook, fTern;

    static const int MAXARG = 64, MAXRET = 16;

    Instr(Module &M) : M(M), DL(M.getDataLayout()), C(M.getContext()) {
        i64 = Type::getInt64Ty(C); i32 = Type::getInt32Ty(C); i1 = Type::getInt1Ty(C); i8 = Type::getInt8Ty(C);
        ptr = PointerType::getUnqual(C); voidTy = Type::getVoidTy(C);
        nullE = ConstantPointerNull::get(cast<PointerType>(ptr));
        auto gv = [&](const char *n, Type *t) {
            return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
        };
        gArgv = gv("__vs_argv", ArrayType::get(ptr, MAXARG));
        gBv = gv("__vs_bv", ArrayType::get(ptr, MAXARG));
        gCallee = gv("__vs_callee", ptr);
        gRetv = gv("__vs_retv", ArrayType::get(ptr, MAXRET));
        gRetfn = gv("__vs_retfn", ptr);
        fBin = M.getOrInsertFunction("__vs_bin", ptr, i32, i32, ptr, i64, ptr, i64, i64);
        fCmp = M.getOrInsertFunction("__vs_cmp", ptr, i32, i32, ptr, i64, ptr, i64, i64);
        fCast = M.getOrInsertFunction("__vs_cast", ptr, i32, i32, i32, ptr, i64, i64);
        fUn = M.getOrInsertFunction("__vs_un", ptr, i32, i32, ptr, i64, i64);
        fIte = M.getOrInsertFunction("__vs_ite", ptr, i32, ptr, i64, ptr, i64, ptr, i64);
        fLoad = M.getOrInsertFunction("__vs_load", ptr, ptr, ptr, i32, i64);
        fStore = M.getOrInsertFunction("__vs_store", voidTy, ptr, ptr, i32, ptr, i64);
        fBranch = M.getOrInsertFunction("__vs_branch", voidTy, ptr, i64, i64);
        fSwitch = M.getOrInsertFunction("__vs_switch", voidTy, ptr, i32, i64, i64, ptr, i64);
        fMemcpy = M.getOrInsertFunction("__vs_memcpy", voidTy, ptr, ptr, i64, ptr, ptr, ptr);
        fMemset = M.getOrInsertFunction("__vs_memset", voidTy, ptr, i64, i64, ptr, ptr, ptr);
        fConc = M.getOrInsertFunction("__vs_concretize", voidTy, ptr, i64, ptr);
        fArgs = M.getOrInsertFunction("__vs_args", ptr, ptr);
        fByval = M.getOrInsertFunction("__vs_byval", voidTy, ptr, i32, ptr, i64);
        fUncons = M.getOrInsertFunction("__vs_unconsumed", voidTy, ptr, i32, ptr);
        fGep = M.getOrInsertFunction("__vs_gep", ptr, ptr, i64, ptr, i64, i64);
        fClear = M.getOrInsertFunction("__vs_clear", voidTy, ptr, i64);
        fOvf = M.getOrInsertFunction("__vs_ovf", ptr, i32, i32, ptr, i64, ptr, i64, i64);
        fNumHook = M.getOrInsertFunction("__vs_numhook", voidTy, ptr, i32);
        fTern = M.getOrInsertFunction("__vs_tern", ptr, i32, i32, ptr, i64, ptr, i64, ptr, i64, i64);
    }

    static bool leafOk(Type *t) {
        if (auto it = dyn_cast<IntegerType>(t)) return it->getBitWidth() <= 64;
        return t->isPointerTy() || t->isDoubleTy() || t->isFloatTy();
    }
    // number of scalar leaves of a type
    unsigned leaves(Type *t) {
        if (auto st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto e : st->elements()) n += leaves(e); return n; }
        if (auto at = dyn_cast<ArrayType>(t)) return at->getNumElements() * leaves(at->getElementType());
        if (auto vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
        if (t->isVoidTy()) return 0;
        return 1;
    }
    Type *leafType(Type *t, unsigned i) {
        if (auto st = dyn_cast<StructType>(t)) {
            for (auto e : st->elements()) { unsigned n = leaves(e); if (i < n) return leafType(e, i); i -= n; }
        }
        if (auto at = dyn_cast<ArrayType>(t)) return leafType(at->getElementType(), i % leaves(at->getElementType()));
        if (auto vt = dyn_cast<FixedVectorType>(t)) return vt->getElementType();
        return t;
    }
    uint64_t leafOffset(Type *t, unsigned i) {
        if (auto st = dyn_cast<StructType>(t)) {
            auto sl = DL.getStructLayout(st);
            for (unsigned k = 0; k < st->getNumElements(); k++) {
                unsigned n = leaves(st->getElementType(k));
                if (i < n) return sl->getElementOffset(k) + leafOffset(st->getElementType(k), i);
                i -= n;
            }
        }
        if (auto at = dyn_cast<ArrayType>(t)) {
            unsigned n = leaves(at->getElementType());
            return (i / n) * DL.getTypeAllocSize(at->getElementType()) + leafOffset(at->getElementType(), i % n);
        }
        if (auto vt = dyn_cast<FixedVectorType>(t)) return i * DL.getTypeAllocSize(vt->getElementType());
        return 0;
    }
    unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
        unsigned off = 0;
        for (unsigned k : idx) {
            if (auto st = dyn_cast<StructType>(t)) {
                for (unsigned j = 0; j < k; j++) off += leaves(st->getElementType(j));
                t = st->getElementType(k);
            } else {
                auto at = cast<ArrayType>(t);
                off += k * leaves(at->getElementType());
                t = at->getElementType();
            }
        }
        return off;
    }
    unsigned bits(Type *t) {
        if (t->isPointerTy()) return 64;
        return t->getPrimitiveSizeInBits();
    }
    // the value as i64
    Value *toI64(IRBuilder<> &B, Value *v) {
        Type *t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, i64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, i64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, i32), i64);
        if (auto it = dyn_cast<IntegerType>(t)) {
            if (it->getBitWidth() == 64) return v;
            if (it->getBitWidth() < 64) return B.CreateZExt(v, i64);
        }
        return ConstantInt::get(i64, 0);
    }
    Value *leafVal(IRBuilder<> &B, Value *v, unsigned i) {
        Type *t = v->getType();
        if (leaves(t) == 1 && !t->isAggregateType() && !t->isVectorTy()) return v;
        if (t->isVectorTy()) return B.CreateExtractElement(v, (uint64_t)i);
        // aggregate: find path
        SmallVector<unsigned, 4> path;
        unsigned k = i;
        while (t->isAggregateType()) {
            if (auto st = dyn_cast<StructType>(t)) {
                for (unsigned j = 0; j < st->getNumElements(); j++) {
                    unsigned n = leaves(st->getElementType(j));
                    if (k < n) { path.push_back(j); t = st->getElementType(j); break; }
                    k -= n;
                }
            } else {
                auto at = cast<ArrayType>(t);
                unsigned n = leaves(at->getElementType());
                path.push_back(k / n); k %= n; t = at->getElementType();
            }
        }
        Value *r = B.CreateExtractValue(v, path);
        if (t->isVectorTy()) r = B.CreateExtractElement(r, (uint64_t)k);
        return r;
    }
    bool isNull(Value *s) { return s == nullE; }
    bool allNull(const Shadow &s) { for (auto v : s) if (!isNull(v)) return false; return true; }

    Shadow get(Value *v) {
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        return Shadow(leaves(v->getType()), nullE);
    }
    Value *get1(Value *v) { auto s = get(v); return s.size() == 1 ? s[0] : nullE; }
    void set(Value *v, Shadow s) { sh[v] = std::move(s); }
    void set1(Value *v, Value *s) { sh[v] = Shadow{s}; }
    Value *ci32(unsigned v) { return ConstantInt::get(i32, v); }
    Value *ci64(uint64_t v) { return ConstantInt::get(i64, v); }
    Value *siteName(IRBuilder<> &B, StringRef s) { return B.CreateGlobalStringPtr(s, ".vs.name", 0, &M); }

    Instruction *after(Instruction *I) {
        Instruction *n = I->getNextNode();
        while (n && isa<PHINode>(n)) n = n->getNextNode();
        return n;
    }

    int binOp(unsigned op) {
        switch (op) {
        case Instruction::Add: return VS_ADD; case Instruction::Sub: return VS_SUB; case Instruction::Mul: return VS_MUL;
        case Instruction::UDiv: return VS_UDIV; case Instruction::SDiv: return VS_SDIV;
        case Instruction::URem: return VS_UREM; case Instruction::SRem: return VS_SREM;
        case Instruction::Shl: return VS_SHL; case Instruction::LShr: return VS_LSHR; case Instruction::AShr: return VS_ASHR;
        case Instruction::And: return VS_AND; case Instruction::Or: return VS_OR; case Instruction::Xor: return VS_XOR;
        case Instruction::FAdd: return VS_FADD; case Instruction::FSub: return VS_FSUB; case Instruction::FMul: return VS_FMUL;
        case Instruction::FDiv: return VS_FDIV; case Instruction::FRem: return VS_FREM;
        }
        return -1;
    }

    uint64_t siteCounter = 0;
    uint64_t moduleHash = 0;
    Value *site() { return ci64((moduleHash << 24) ^ (++siteCounter)); }

    void conc(IRBuilder<> &B, Value *v, StringRef why) {
        auto s = get(v);
        for (unsigned i = 0; i < s.size(); i++)
            if (!isNull(s[i]) && leafOk(leafType(v->getType(), i)))
                B.CreateCall(fConc, {s[i], toI64(B, leafVal(B, v, i)), siteName(B, why)});
    }

    void instrumentFunction(Function &Fn) {
        F = &Fn; sh.clear(); phis.clear();
        std::vector<Instruction *> work;
        // split invoke normal edges so that post-call code has a place
        std::vector<InvokeInst *> invokes;
        for (auto &BB : Fn) if (auto *inv = dyn_cast<InvokeInst>(BB.getTerminator())) invokes.push_back(inv);
        for (auto *inv : invokes) {
            BasicBlock *nd = inv->getNormalDest();
            if (!nd->getSinglePredecessor()) SplitEdge(inv->getParent(), nd);
            else if (isa<PHINode>(nd->front())) FoldSingleEntryPHINodes(nd);
        }
        ReversePostOrderTraversal<Function *> rpot(&Fn);
        std::vector<BasicBlock *> order(rpot.begin(), rpot.end());
        for (auto *BB : order) for (auto &I : *BB) work.push_back(&I);
        // shadow phis
        for (auto *I : work)
            if (auto *p = dyn_cast<PHINode>(I)) {
                unsigned n = leaves(p->getType());
                Shadow s; std::vector<PHINode *> ps;
                for (unsigned i = 0; i < n; i++) {
                    if (!leafOk(leafType(p->getType(), i))) { s.push_back(nullE); ps.push_back(nullptr); continue; }
                    auto *sp = PHINode::Create(ptr, p->getNumIncomingValues(), "vs", p);
                    s.push_back(sp); ps.push_back(sp);
                }
                set(p, s);
                phis.push_back({p, ps});
            }
        // arguments
        {
            BasicBlock &E = Fn.getEntryBlock();
            Instruction *ip = &*E.getFirstInsertionPt();
            while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
            IRBuilder<> B(ip);
            unsigned n = 0; bool any = false;
            for (auto &A : Fn.args()) { any |= leaves(A.getType()) > 0; }
            if (any) {
                Value *arr = B.CreateCall(fArgs, {&Fn});
                for (auto &A : Fn.args()) {
                    Shadow s;
                    if (A.hasByValAttr()) {
                        uint64_t sz = DL.getTypeAllocSize(A.getParamByValType());
                        if (n < MAXARG) B.CreateCall(fByval, {arr, ci32(n), &A, ci64(sz)});
                        n++;
                        s.push_back(nullE);
                    } else
                        for (unsigned i = 0; i < leaves(A.getType()); i++, n++) {
                            if (n >= MAXARG || !leafOk(leafType(A.getType(), i)) || A.hasStructRetAttr()) { s.push_back(nullE); continue; }
                            s.push_back(B.CreateLoad(ptr, B.CreateConstInBoundsGEP1_32(ptr, arr, n)));
                        }
                    set(&A, s);
                }
            }
        }
        for (auto *I : work) visit(I);
        // fill phis
        for (auto &pp : phis) {
            PHINode *p = pp.first;
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
                Shadow in = get(p->getIncomingValue(k));
                for (unsigned i = 0; i < pp.second.size(); i++)
                    if (pp.second[i]) pp.second[i]->addIncoming(in[i], p->getIncomingBlock(k));
            }
        }
        // simplify trivially null phis
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto &pp : phis)
                for (auto &sp : pp.second) {
                    if (!sp) continue;
                    Value *same = nullptr; bool ok = true;
                    for (Value *v : sp->incoming_values()) {
                        if (v == sp || v == same) continue;
                        if (same) { ok = false; break; }
                        same = v;
                    }
                    if (ok && same == nullE) {
                        sp->replaceAllUsesWith(nullE); sp->eraseFromParent(); sp = nullptr; ch = true;
                    }
                }
        }
    }

    void visit(Instruction *I) {
        if (isa<PHINode>(I) || isa<AllocaInst>(I) || isa<DbgInfoIntrinsic>(I)) return;
        if (auto *b = dyn_cast<BinaryOperator>(I)) return visitBin(b);
        if (auto *u = dyn_cast<UnaryOperator>(I)) return visitFNeg(u);
        if (auto *c = dyn_cast<CmpInst>(I)) return visitCmp(c);
        if (auto *c = dyn_cast<CastInst>(I)) return visitCast(c);
        if (auto *s = dyn_cast<SelectInst>(I)) return visitSelect(s);
        if (auto *l = dyn_cast<LoadInst>(I)) return visitLoad(l);
        if (auto *s = dyn_cast<StoreInst>(I)) return visitStore(s);
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) return visitGep(g);
        if (auto *b = dyn_cast<BranchInst>(I)) {
            if (b->isConditional()) {
                Value *c = get1(b->getCondition());
                if (!isNull(c)) { IRBuilder<> B(b); B.CreateCall(fBranch, {c, toI64(B, b->getCondition()), site()}); }
            }
            return;
        }
        if (auto *s = dyn_cast<SwitchInst>(I)) return visitSwitch(s);
        if (auto *r = dyn_cast<ReturnInst>(I)) return visitRet(r);
        if (auto *e = dyn_cast<ExtractValueInst>(I)) {
            Shadow a = get(e->getAggregateOperand());
            unsigned o = leafIndex(e->getAggregateOperand()->getType(), e->getIndices()), n = leaves(e->getType());
            set(e, Shadow(a.begin() + o, a.begin() + o + n));
            return;
        }
        if (auto *e = dyn_cast<InsertValueInst>(I)) {
            Shadow a = get(e->getAggregateOperand()), v = get(e->getInsertedValueOperand());
            unsigned o = leafIndex(e->getAggregateOperand()->getType(), e->getIndices());
            for (unsigned i = 0; i < v.size(); i++) a[o + i] = v[i];
            set(e, a);
            return;
        }
        if (auto *e = dyn_cast<ExtractElementInst>(I)) {
            Shadow a = get(e->getVectorOperand());
            if (auto *ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { set1(e, a[ci->getZExtValue()]); return; }
            IRBuilder<> B(I); conc(B, e->getVectorOperand(), "extractelement"); return;
        }
        if (auto *e = dyn_cast<InsertElementInst>(I)) {
            Shadow a = get(e->getOperand(0));
            if (auto *ci = dyn_cast<ConstantInt>(e->getOperand(2))) { a[ci->getZExtValue()] = get1(e->getOperand(1)); set(e, a); return; }
            IRBuilder<> B(I); conc(B, e->getOperand(0), "insertelement"); conc(B, e->getOperand(1), "insertelement"); return;
        }
        if (auto *e = dyn_cast<ShuffleVectorInst>(I)) {
            Shadow a = get(e->getOperand(0)), b = get(e->getOperand(1)), r;
            unsigned n = a.size();
            for (int m : e->getShuffleMask()) r.push_back(m < 0 ? nullE : (unsigned)m < n ? a[m] : b[m - n]);
            set(e, r);
            return;
        }
        if (isa<FreezeInst>(I)) { set(I, get(I->getOperand(0))); return; }
        if (auto *cb = dyn_cast<CallBase>(I)) return visitCall(cb);
        if (auto *a = dyn_cast<AtomicRMWInst>(I)) {
            IRBuilder<> B(I); conc(B, a->getValOperand(), "atomicrmw");
            B.CreateCall(fClear, {a->getPointerOperand(), ci64(DL.getTypeStoreSize(a->getValOperand()->getType()))}); return;
        }
        if (auto *a = dyn_cast<AtomicCmpXchgInst>(I)) {
            IRBuilder<> B(I); conc(B, a->getCompareOperand(), "cmpxchg"); conc(B, a->getNewValOperand(), "cmpxchg");
            B.CreateCall(fClear, {a->getPointerOperand(), ci64(DL.getTypeStoreSize(a->getNewValOperand()->getType()))}); return;
        }
        if (isa<FenceInst>(I) || isa<UnreachableInst>(I) || isa<LandingPadInst>(I) || isa<ResumeInst>(I)) return;
        IRBuilder<> B(I);
        for (Value *op : I->operands()) if (!isa<BasicBlock>(op)) conc(B, op, I->getOpcodeName());
    }

    void visitBin(BinaryOperator *b) {
        Shadow x = get(b->getOperand(0)), y = get(b->getOperand(1));
        if (allNull(x) && allNull(y)) { return; }
        int op = binOp(b->getOpcode());
        IRBuilder<> B(after(b));
        Shadow r;
        for (unsigned i = 0; i < x.size(); i++) {
            Type *t = leafType(b->getType(), i);
            if ((isNull(x[i]) && isNull(y[i])) || !leafOk(t)) { r.push_back(nullE); continue; }
            r.push_back(B.CreateCall(fBin, {ci32(op), ci32(bits(t)), x[i], toI64(B, leafVal(B, b->getOperand(0), i)), y[i],
                                           toI64(B, leafVal(B, b->getOperand(1), i)), toI64(B, leafVal(B, b, i))}));
        }
        set(b, r);
    }
    void visitFNeg(UnaryOperator *u) {
        Shadow x = get(u->getOperand(0));
        if (allNull(x)) return;
        IRBuilder<> B(after(u));
        Shadow r;
        for (unsigned i = 0; i < x.size(); i++) {
            Type *t = leafType(u->getType(), i);
            if (isNull(x[i]) || !leafOk(t)) { r.push_back(nullE); continue; }
            r.push_back(B.CreateCall(fUn, {ci32(VS_FNEG), ci32(bits(t)), x[i], toI64(B, leafVal(B, u->getOperand(0), i)), toI64(B, leafVal(B, u, i))}));
        }
        set(u, r);
    }
    void visitCmp(CmpInst *c) {
        Shadow x = get(c->getOperand(0)), y = get(c->getOperand(1));
        if (allNull(x) && allNull(y)) return;
        IRBuilder<> B(after(c));
        Shadow r;
        for (unsigned i = 0; i < x.size(); i++) {
            Type *t = leafType(c->getOperand(0)->getType(), i);
            if ((isNull(x[i]) && isNull(y[i])) || !leafOk(t)) { r.push_back(nullE); continue; }
            r.push_back(B.CreateCall(fCmp, {ci32(c->getPredicate()), ci32(bits(t)), x[i], toI64(B, leafVal(B, c->getOperand(0), i)), y[i],
                                           toI64(B, leafVal(B, c->getOperand(1), i)), toI64(B, leafVal(B, c, i))}));
        }
        set(c, r);
    }
    void visitCast(CastInst *c) {
        Shadow x = get(c->getOperand(0));
        if (allNull(x)) return;
        Type *st = c->getSrcTy(), *dt = c->getDestTy();
        if (leaves(st) != leaves(dt)) { IRBuilder<> B(c); conc(B, c->getOperand(0), "vector bitcast"); return; }
        int op;
        switch (c->getOpcode()) {
        case Instruction::ZExt: op = VS_ZEXT; break;
        case Instruction::SExt: op = VS_SEXT; break;
        case Instruction::Trunc: op = VS_TRUNC; break;
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: op = VS_BITCAST; break;
        case Instruction::FPToSI: op = VS_FPTOSI; break;
        case Instruction::FPToUI: op = VS_FPTOUI; break;
        case Instruction::SIToFP: op = VS_SITOFP; break;
        case Instruction::UIToFP: op = VS_UITOFP; break;
        case Instruction::FPExt: op = VS_FPEXT; break;
        case Instruction::FPTrunc: op = VS_FPTRUNC; break;
        default: op = -1;
        }
        IRBuilder<> B(after(c));
        Shadow r;
        for (unsigned i = 0; i < x.size(); i++) {
            Type *ts = leafType(st, i), *td = leafType(dt, i);
            if (isNull(x[i])) { r.push_back(nullE); continue; }
            if (!leafOk(ts) || !leafOk(td) || op < 0) { conc(B, c->getOperand(0), "wide cast"); r.push_back(nullE); continue; }
            if (op == VS_BITCAST && bits(ts) == bits(td)) { r.push_back(x[i]); continue; }
            int o = op;
            if (o == VS_BITCAST) o = bits(ts) > bits(td) ? VS_TRUNC : VS_ZEXT;
            r.push_back(B.CreateCall(fCast, {ci32(o), ci32(bits(ts)), ci32(bits(td)), x[i], toI64(B, leafVal(B, c->getOperand(0), i)), toI64(B, leafVal(B, c, i))}));
        }
        set(c, r);
    }
    void visitSelect(SelectInst *s) {
        Shadow c = get(s->getCondition()), x = get(s->getTrueValue()), y = get(s->getFalseValue());
        if (allNull(c) && allNull(x) && allNull(y)) return;
        if (s->getType()->isPointerTy()) { // pointers: decide the condition, addresses stay concrete
            if (!isNull(c[0])) { IRBuilder<> B0(s); B0.CreateCall(fBranch, {c[0], toI64(B0, s->getCondition()), site()}); }
            if (!isNull(x[0]) || !isNull(y[0])) { IRBuilder<> B1(after(s)); set1(s, B1.CreateSelect(s->getCondition(), x[0], y[0])); }
            return;
        }
        IRBuilder<> B(after(s));
        Shadow r;
        for (unsigned i = 0; i < x.size(); i++) {
            Type *t = leafType(s->getType(), i);
            Value *cv = s->getCondition(), *cs;
            if (cv->getType()->isVectorTy()) { cv = B.CreateExtractElement(cv, (uint64_t)i); cs = c[i]; } else cs = c[0];
            if (!leafOk(t) || (isNull(cs) && isNull(x[i]) && isNull(y[i]))) { r.push_back(nullE); continue; }
            r.push_back(B.CreateCall(fIte, {ci32(bits(t)), cs, toI64(B, cv), x[i], toI64(B, leafVal(B, s->getTrueValue(), i)), y[i],
                                           toI64(B, leafVal(B, s->getFalseValue(), i))}));
        }
        set(s, r);
    }
    void visitLoad(LoadInst *l) {
        Type *t = l->getType();
        Value *ae = get1(l->getPointerOperand());
        IRBuilder<> B(after(l));
        if (auto *g = dyn_cast<GlobalVariable>(l->getPointerOperand()->stripPointerCasts())) if (g->isConstant() && isNull(ae)) return;
        Shadow r;
        unsigned n = leaves(t);
        for (unsigned i = 0; i < n; i++) {
            Type *lt = leafType(t, i);
            if (!leafOk(lt)) { if (!isNull(ae)) conc(B, l->getPointerOperand(), "wide load"); r.push_back(nullE); continue; }
            Value *a = l->getPointerOperand();
            if (uint64_t off = leafOffset(t, i)) a = B.CreateConstGEP1_64(i8, a, off);
            r.push_back(B.CreateCall(fLoad, {a, n == 1 ? ae : nullE, ci32(bits(lt)), toI64(B, leafVal(B, l, i))}));
        }
        if (n != 1 && !isNull(ae)) { IRBuilder<> B2(l); conc(B2, l->getPointerOperand(), "aggregate load address"); }
        set(l, r);
    }
    void visitStore(StoreInst *s) {
        Type *t = s->getValueOperand()->getType();
        Value *ae = get1(s->getPointerOperand());
        Shadow v = get(s->getValueOperand());
        IRBuilder<> B(s);
        unsigned n = leaves(t);
        if (!isNull(ae)) conc(B, s->getPointerOperand(), "store address");
        for (unsigned i = 0; i < n; i++) {
            Type *lt = leafType(t, i);
            Value *a = s->getPointerOperand();
            if (uint64_t off = leafOffset(t, i)) a = B.CreateConstGEP1_64(i8, a, off);
            if (!leafOk(lt)) { B.CreateCall(fClear, {a, ci64(DL.getTypeStoreSize(lt))}); continue; }
            B.CreateCall(fStore, {a, nullE, ci32(bits(lt)), v[i], toI64(B, leafVal(B, s->getValueOperand(), i))});
        }
    }
    void visitGep(GetElementPtrInst *g) {
        if (g->getType()->isVectorTy()) return;
        Value *base = get1(g->getPointerOperand());
        bool any = !isNull(base);
        for (auto it = g->idx_begin(); it != g->idx_end(); ++it) any |= !isNull(get1(*it));
        if (!any) return;
        IRBuilder<> B(after(g));
        Value *e = base, *cv = B.CreatePtrToInt(g->getPointerOperand(), i64);
        for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) {
            Value *idx = gti.getOperand();
            if (StructType *st = gti.getStructTypeOrNull()) {
                uint64_t off = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                if (!off) continue;
                e = B.CreateCall(fGep, {e, cv, nullE, ci64(1), ci64(off)});
                cv = B.CreateAdd(cv, ci64(off));
            } else {
                uint64_t sz = DL.getTypeAllocSize(gti.getIndexedType());
                Value *is = get1(idx), *iv;
                if (idx->getType() == i64) iv = idx;
                else {
                    iv = B.CreateSExt(idx, i64);
                    if (!isNull(is)) is = B.CreateCall(fCast, {ci32(VS_SEXT), ci32(bits(idx->getType())), ci32(64), is, toI64(B, idx), iv});
                }
                e = B.CreateCall(fGep, {e, cv, is, iv, ci64(sz)});
                cv = B.CreateAdd(cv, B.CreateMul(iv, ci64(sz)));
            }
        }
        set1(g, e);
    }
    void visitSwitch(SwitchInst *s) {
        Value *c = get1(s->getCondition());
        if (isNull(c) || s->getCondition()->getType()->getIntegerBitWidth() > 64) return;
        IRBuilder<> B(s);
        std::vector<uint64_t> vals;
        for (auto &cs : s->cases()) vals.push_back(cs.getCaseValue()->getZExtValue());
        Constant *arr = ConstantDataArray::get(C, vals);
        auto *gv = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, ".vs.sw");
        B.CreateCall(fSwitch, {c, ci32(bits(s->getCondition()->getType())), toI64(B, s->getCondition()), ci64(vals.size()), gv, site()});
    }
    void visitRet(ReturnInst *r) {
        if (auto *ci = dyn_cast_or_null<CallInst>(r->getPrevNode())) if (ci->isMustTailCall()) return;
        if (auto *p = r->getParent()->getTerminatingMustTailCall()) { (void)p; return; }
        IRBuilder<> B(r);
        if (F->hasFnAttribute("vs-numhook") && F->arg_size() >= 2) {
            // bool try_lexical_convert(const Source&, Target&): map placeholder numbers back to their symbolic value
            std::string n = F->getName().str();
            size_t p = n.find("19try_lexical_convertI");
            char t = n[p + strlen("19try_lexical_convertI")];
            int code = t;
            B.CreateCall(fNumHook, {F->getArg(1), ci32(code)});
        }
        if (!r->getReturnValue()) return;
        Shadow v = get(r->getReturnValue());
        unsigned n = v.size();
        if (n > MAXRET) return;
        if (allNull(v)) return; // retfn stays unset by us: caller cleared it
        for (unsigned i = 0; i < n; i++)
            B.CreateStore(v[i], B.CreateConstInBoundsGEP1_32(ptr, gRetv, i));
        B.CreateStore(F, gRetfn);
    }
    Value *argSlot(IRBuilder<> &B, unsigned i) { return B.CreateConstInBoundsGEP1_32(ptr, gArgv, i); }

    void visitCall(CallBase *cb) {
        if (cb->isInlineAsm()) { IRBuilder<> B(cb); for (auto &a : cb->args()) conc(B, a, "asm"); return; }
        Function *callee = cb->getCalledFunction();
        if (callee && callee->isIntrinsic()) return visitIntrinsic(cast<CallInst>(cb), callee);
        IRBuilder<> B(cb);
        if (callee && callee->getName().starts_with("__vs_")) return; // our own runtime
        bool must = isa<CallInst>(cb) && cast<CallInst>(cb)->isMustTailCall();
        Value *cv = cb->getCalledOperand();
        if (!isNull(get1(cv))) conc(B, cv, "indirect call");
        unsigned n = 0;
        for (unsigned k = 0; k < cb->arg_size(); k++) {
            Value *a = cb->getArgOperand(k);
            if (cb->isByValArgument(k)) {
                if (n < MAXARG) {
                    B.CreateStore(nullE, argSlot(B, n));
                    B.CreateStore(a, B.CreateConstInBoundsGEP1_32(ptr, gBv, n));
                }
                n++;
                continue;
            }
            if (a->getType()->isMetadataTy()) return;
            Shadow s = get(a);
            for (unsigned i = 0; i < s.size(); i++, n++)
                if (n < MAXARG) B.CreateStore(s[i], argSlot(B, n));
                else if (!isNull(s[i])) conc(B, a, "too many args");
        }
        B.CreateStore(cv, gCallee);
        B.CreateStore(nullE, gRetfn);
        if (must) return;
        Instruction *ip;
        if (auto *inv = dyn_cast<InvokeInst>(cb)) ip = &*inv->getNormalDest()->getFirstInsertionPt();
        else if (cb->isTerminator()) return;
        else ip = after(cb);
        if (!ip || cb->doesNotReturn()) return;
        IRBuilder<> B2(ip);
        unsigned nargs = std::min<unsigned>(n, MAXARG);
        if (nargs) {
            std::string nm = callee ? callee->getName().str() : std::string("<indirect>");
            // still set: the callee was not instrumented
            if (!callee || callee->isDeclaration() || callee->hasFnAttribute("vs-skip") || true)
                B2.CreateCall(fUncons, {cv, ci32(nargs), siteName(B2, nm)});
        }
        Type *rt = cb->getType();
        unsigned rn = leaves(rt);
        if (rn == 0 || rn > MAXRET) return;
        Value *ok = B2.CreateICmpEQ(B2.CreateLoad(ptr, gRetfn), cv);
        Shadow r;
        for (unsigned i = 0; i < rn; i++) {
            if (!leafOk(leafType(rt, i))) { r.push_back(nullE); continue; }
            Value *e = B2.CreateLoad(ptr, B2.CreateConstInBoundsGEP1_32(ptr, gRetv, i));
            r.push_back(B2.CreateSelect(ok, e, nullE));
        }
        set(cb, r);
    }

    void visitIntrinsic(CallInst *ci, Function *f) {
        IRBuilder<> B(after(ci));
        auto a = [&](unsigned i) { return ci->getArgOperand(i); };
        auto un = [&](int op) {
            Shadow x = get(a(0));
            if (allNull(x) || x.size() != 1) return;
            set1(ci, B.CreateCall(fUn, {ci32(op), ci32(bits(a(0)->getType())), x[0], toI64(B, a(0)), toI64(B, ci)}));
        };
        auto bin = [&](int op) {
            Value *x = get1(a(0)), *y = get1(a(1));
            if (isNull(x) && isNull(y)) return;
            set1(ci, B.CreateCall(fBin, {ci32(op), ci32(bits(a(0)->getType())), x, toI64(B, a(0)), y, toI64(B, a(1)), toI64(B, ci)}));
        };
        auto tern = [&](int op) {
            Value *x = get1(a(0)), *y = get1(a(1)), *z = get1(a(2));
            if (isNull(x) && isNull(y) && isNull(z)) return;
            set1(ci, B.CreateCall(fTern, {ci32(op), ci32(bits(a(0)->getType())), x, toI64(B, a(0)), y, toI64(B, a(1)), z, toI64(B, a(2)), toI64(B, ci)}));
        };
        auto ovf = [&](int op, int oop) {
            Value *x = get1(a(0)), *y = get1(a(1));
            if (isNull(x) && isNull(y)) return;
            Value *r = leafVal(B, ci, 0), *o = leafVal(B, ci, 1);
            Shadow s;
            s.push_back(B.CreateCall(fBin, {ci32(op), ci32(bits(a(0)->getType())), x, toI64(B, a(0)), y, toI64(B, a(1)), toI64(B, r)}));
            s.push_back(B.CreateCall(fOvf, {ci32(oop), ci32(bits(a(0)->getType())), x, toI64(B, a(0)), y, toI64(B, a(1)), toI64(B, o)}));
            set(ci, s);
        };
        switch (f->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            IRBuilder<> B0(ci);
            B0.CreateCall(fMemcpy, {a(0), a(1), B0.CreateZExtOrTrunc(a(2), i64), get1(a(0)), get1(a(1)), get1(a(2))});
            return;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            IRBuilder<> B0(ci);
            B0.CreateCall(fMemset, {a(0), toI64(B0, a(1)), B0.CreateZExtOrTrunc(a(2), i64), get1(a(0)), get1(a(1)), get1(a(2))});
            return;
        }
        case Intrinsic::fabs: return un(VS_FABS);
        case Intrinsic::sqrt: return un(VS_FSQRT);
        case Intrinsic::floor: return un(VS_FFLOOR);
        case Intrinsic::ceil: return un(VS_FCEIL);
        case Intrinsic::trunc: return un(VS_FTRUNC);
        case Intrinsic::round: return un(VS_FROUND);
        case Intrinsic::rint: case Intrinsic::nearbyint: return un(VS_FRINT);
        case Intrinsic::sin: return un(VS_FSIN);
        case Intrinsic::cos: return un(VS_FCOS);
        case Intrinsic::bswap: return un(VS_BSWAP);
        case Intrinsic::ctpop: return un(VS_CTPOP);
        case Intrinsic::ctlz: return un(VS_CTLZ);
        case Intrinsic::cttz: return un(VS_CTTZ);
        case Intrinsic::abs: return un(VS_ABS);
        case Intrinsic::pow: return bin(VS_FPOW);
        case Intrinsic::minnum: return bin(VS_FMIN);
        case Intrinsic::maxnum: return bin(VS_FMAX);
        case Intrinsic::copysign: return bin(VS_FCOPYSIGN);
        case Intrinsic::smax: return bin(VS_SMAX);
        case Intrinsic::smin: return bin(VS_SMIN);
        case Intrinsic::umax: return bin(VS_UMAX);
        case Intrinsic::umin: return bin(VS_UMIN);
        case Intrinsic::usub_sat: return bin(VS_USUBSAT);
        case Intrinsic::uadd_sat: return bin(VS_UADDSAT);
        case Intrinsic::fmuladd: case Intrinsic::fma: return tern(f->getIntrinsicID() == Intrinsic::fma ? VS_FMA : VS_FMULADD);
        case Intrinsic::fshl: return tern(VS_FSHL);
        case Intrinsic::fshr: return tern(VS_FSHR);
        case Intrinsic::umul_with_overflow: return ovf(VS_MUL, VS_OVF_UMUL);
        case Intrinsic::smul_with_overflow: return ovf(VS_MUL, VS_OVF_SMUL);
        case Intrinsic::uadd_with_overflow: return ovf(VS_ADD, VS_OVF_UADD);
        case Intrinsic::sadd_with_overflow: return ovf(VS_ADD, VS_OVF_SADD);
        case Intrinsic::usub_with_overflow: return ovf(VS_SUB, VS_OVF_USUB);
        case Intrinsic::ssub_with_overflow: return ovf(VS_SUB, VS_OVF_SSUB);
        case Intrinsic::expect: set(ci, get(a(0))); return;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(ci, get(a(0))); return;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::invariant_start:
        case Intrinsic::invariant_end: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::threadlocal_address:
        case Intrinsic::prefetch: case Intrinsic::is_constant:
            return;
        default: {
            IRBuilder<> B0(ci);
            for (auto &x : ci->args()) if (!x->getType()->isMetadataTy()) conc(B0, x, f->getName());
        }
        }
    }
};

struct VsLate : PassInfoMixin<VsLate> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &MAM) {
        if (getenv("VS_NOINSTR")) { // replay build: only the text <-> number stubs
            FunctionCallee hook = M.getOrInsertFunction("__vs_numhook", Type::getVoidTy(M.getContext()), PointerType::getUnqual(M.getContext()), Type::getInt32Ty(M.getContext()));
            for (Function &F : M) if (!F.isDeclaration() && F.hasFnAttribute("vs-numhook") && F.arg_size() >= 2) {
                std::string n = F.getName().str(); char t = n[n.find("19try_lexical_convertI") + strlen("19try_lexical_convertI")];
                if (t != 'd') continue;
                std::vector<ReturnInst *> rs; for (auto &BB : F) if (auto *r = dyn_cast<ReturnInst>(BB.getTerminator())) rs.push_back(r);
                for (auto *r : rs) { IRBuilder<> B(r); B.CreateCall(hook, {F.getArg(1), B.getInt32(t)}); }
            }
            return PreservedAnalyses::none();
        }
        Instr in(M);
        in.moduleHash = std::hash<std::string>()(M.getSourceFileName()) & 0xffffffffffull;
        std::vector<Function *> fs;
        for (Function &F : M) {
            if (F.isDeclaration() || F.hasAvailableExternallyLinkage()) continue;
            if (F.getName().starts_with("__vs_")) continue;
            if (F.hasFnAttribute(Attribute::Naked)) continue;
            fs.push_back(&F);
        }
        FunctionAnalysisManager &FAM = MAM.getResult<FunctionAnalysisManagerModuleProxy>(M).getManager();
        for (Function *F : fs) {
            ScalarizerPassOptions o; o.ScalarizeLoadStore = true;
            ScalarizerPass sp(o); sp.run(*F, FAM);
        }
        for (Function *F : fs) { removeUnreachableBlocks(*F); in.instrumentFunction(*F); }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
    static bool removeUnreachableBlocks(Function &F) { return EliminateUnreachableBlocks(F); }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "VsPass", "1", [](PassBuilder &PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(VsEarly()); });
                PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(VsLate()); });
            }};
}
