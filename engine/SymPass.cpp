// LLVM 18 pass plugin: instruments every function of a module so that a shadow
// expression id (i32, 0 = concrete) accompanies every scalar value.  The ids are
// interpreted by engine/rt.cpp, which builds the path condition and decides every
// symbolic branch and assertion with an SMT solver.
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"

using namespace llvm;

namespace {

// external functions whose symbolic arguments may be dropped: they only format,
// log or count and their result never flows back into the code under test
bool isDropFn(StringRef n) {
    static const char *pre[] = {"_ZNSo",      "_ZStls",          "_ZNSt7__cxx1119basic_ostringstream",
                                "_ZNSt13basic_ostream", "clingo_statistics_value_set", "_ZSt16__ostream_insert"};
    for (auto *p : pre)
        if (n.starts_with(p)) return true;
    return false;
}
const char *libModels[] = {"memcmp", "bcmp", "strcmp", "strncmp", "strlen", "tolower", "toupper", "isdigit", "memchr", "strchr", "strtod", "abs", "strtol", "strtoull", "strtoul", "trunc", "floor", "ceil", "fabs"};

// functions the program may call, with pointers to symbolic data being harmless
bool isPtrOkFn(StringRef n) {
    static const char *pre[] = {"_ZdlPv", "_ZdaPv", "free", "__cxa_", "_ZSt", "_ZNSt", "_ZNKSt", "_Unwind", "__clang", "clingo_statistics", "__assert_fail", "_ZSt20__throw"};
    for (auto *p : pre)
        if (n.starts_with(p)) return true;
    return false;
}

struct Instr {
    Module &M;
    LLVMContext &C;
    const DataLayout &DL;
    Type *I1, *I8, *I32, *I64, *VoidTy;
    PointerType *Ptr;
    FunctionCallee fLoad, fStore, fBin, fCmp, fCast, fFNeg, fBranch, fConc, fSelB, fClear, fCopy, fSet, fExtArg, fExtPtr,
        fMinMax, fOvf, fNoShadow, fIndirect, fFptosi, fFreeze;
    GlobalVariable *gArgs, *gCallee, *gRet, *gRetFrom, *gByval;
    static constexpr unsigned NARGS = 64;

    Instr(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        VoidTy = Type::getVoidTy(C);
        Ptr = PointerType::getUnqual(C);
        auto f = [&](const char *n, Type *r, std::vector<Type *> a) {
            return M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        };
        fLoad = f("__sym_load", I32, {Ptr, I32, I32, I64});     // ptr,size,isfp,value
        fStore = f("__sym_store", VoidTy, {Ptr, I32, I32});     // ptr,size,id
        fBin = f("__sym_bin", I32, {I32, I32, I32, I32, I64, I64, I64}); // op,width,sa,sb,va,vb,res
        fCmp = f("__sym_cmp", I32, {I32, I32, I32, I32, I64, I64, I32});
        fCast = f("__sym_cast", I32, {I32, I32, I32, I32, I64, I64}); // op,wfrom,wto,s,val,res
        fFNeg = f("__sym_fneg", I32, {I32, I64});
        fBranch = f("__sym_branch", VoidTy, {I32, I32});
        fConc = f("__sym_conc", VoidTy, {I32, I64});
        fSelB = f("__sym_selb", I32, {I32, I32, I32, I32, I32, I32}); // sc,vc,st,vt,sf,vf
        fClear = f("__sym_clear", VoidTy, {Ptr, I64});
        fCopy = f("__sym_copy", VoidTy, {Ptr, Ptr, I64});
        fSet = f("__sym_memset", VoidTy, {Ptr, I32, I64});
        fExtArg = f("__sym_extarg", VoidTy, {I32, I64, Ptr});
        fExtPtr = f("__sym_extptr", VoidTy, {Ptr, Ptr});
        fMinMax = f("__sym_minmax", I32, {I32, I32, I32, I32, I64, I64, I64});
        fOvf = f("__sym_ovf", I32, {I32, I32, I32, I32, I64, I64, Ptr});
        fNoShadow = f("__sym_noshadow", VoidTy, {Ptr, I64});
        fIndirect = f("__sym_indirect", VoidTy, {Ptr, I32, I64, I32});
        auto g = [&](const char *n, Type *t) {
            return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
        };
        gArgs = g("__sym_args", ArrayType::get(I32, NARGS));
        gCallee = g("__sym_callee", Ptr);
        gRet = g("__sym_ret", ArrayType::get(I32, 16));
        gRetFrom = g("__sym_ret_from", Ptr);
        gByval = g("__sym_byval", ArrayType::get(Ptr, 16));
    }

    static bool scalarTracked(Type *t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 64;
        return t->isDoubleTy() || t->isFloatTy();
    }
    static unsigned leaves(Type *t) {
        if (auto *s = dyn_cast<StructType>(t)) {
            unsigned n = 0;
            for (auto *e : s->elements()) n += leaves(e);
            return n;
        }
        if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
        if (t->isVoidTy()) return 0;
        return 1;
    }
    static void leafTypes(Type *t, SmallVectorImpl<Type *> &out) {
        if (auto *s = dyn_cast<StructType>(t)) {
            for (auto *e : s->elements()) leafTypes(e, out);
            return;
        }
        if (auto *a = dyn_cast<ArrayType>(t)) {
            for (uint64_t i = 0; i < a->getNumElements(); ++i) leafTypes(a->getElementType(), out);
            return;
        }
        if (!t->isVoidTy()) out.push_back(t);
    }
    void leafOffsets(Type *t, uint64_t base, SmallVectorImpl<std::pair<Type *, uint64_t>> &out) {
        if (auto *s = dyn_cast<StructType>(t)) {
            auto *sl = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i)
                leafOffsets(s->getElementType(i), base + sl->getElementOffset(i), out);
            return;
        }
        if (auto *a = dyn_cast<ArrayType>(t)) {
            for (uint64_t i = 0; i < a->getNumElements(); ++i)
                leafOffsets(a->getElementType(), base + i * DL.getTypeAllocSize(a->getElementType()), out);
            return;
        }
        out.push_back({t, base});
    }
    static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
        unsigned n = 0;
        for (unsigned i : idx) {
            if (auto *s = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; ++k) n += leaves(s->getElementType(k));
                t = s->getElementType(i);
            } else {
                auto *a = cast<ArrayType>(t);
                n += i * leaves(a->getElementType());
                t = a->getElementType();
            }
        }
        return n;
    }

    using Sh = SmallVector<Value *, 2>;
    DenseMap<Value *, Sh> shadow;
    std::vector<std::pair<PHINode *, std::vector<PHINode *>>> phis;

    Value *zero() { return ConstantInt::get(I32, 0); }
    Value *c32(uint64_t v) { return ConstantInt::get(I32, v); }
    Value *c64(uint64_t v) { return ConstantInt::get(I64, v); }
    static bool isZero(Value *v) {
        auto *c = dyn_cast<ConstantInt>(v);
        return c && c->isZero();
    }
    Sh get(Value *v) {
        auto it = shadow.find(v);
        if (it != shadow.end()) return it->second;
        return Sh(leaves(v->getType()), zero());
    }
    Value *get1(Value *v) {
        auto s = get(v);
        return s.empty() ? zero() : s[0];
    }
    void set(Value *v, Value *s) { shadow[v] = Sh{s}; }

    // the concrete value as i64 (fp: bits)
    Value *asI64(IRBuilder<> &B, Value *v) {
        Type *t = v->getType();
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return B.CreateZExtOrTrunc(v, I64);
        return c64(0);
    }
    unsigned bits(Type *t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        return 64;
    }
    Value *str(IRBuilder<> &B, StringRef s) {
        static std::map<std::string, Constant *> cache;
        auto &c = cache[s.str()];
        if (!c) c = B.CreateGlobalStringPtr(s, "__symstr", 0, &M);
        return c;
    }
    Value *slot(IRBuilder<> &B, GlobalVariable *g, unsigned i) {
        return B.CreateConstInBoundsGEP2_32(g->getValueType(), g, 0, i);
    }

    void conc(IRBuilder<> &B, Value *v) {
        Value *s = get1(v);
        if (!isZero(s)) B.CreateCall(fConc, {s, asI64(B, v)});
    }

    void run(Function &F) {
        shadow.clear();
        phis.clear();
        // split critical/shared normal edges of invokes so results can be read there
        std::vector<InvokeInst *> invs;
        for (auto &BB : F)
            if (auto *I = dyn_cast<InvokeInst>(BB.getTerminator())) invs.push_back(I);
        for (auto *I : invs) {
            BasicBlock *nd = I->getNormalDest();
            if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front())) {
                auto *nb = SplitEdge(I->getParent(), nd);
                (void)nb;
            }
        }
        std::vector<Instruction *> work;
        ReversePostOrderTraversal<Function *> RPO(&F);
        for (auto *BB : RPO)
            for (auto &I : *BB) work.push_back(&I);

        // prologue
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            unsigned k = 0;
            bool any = F.arg_size() > 0;
            if (any) {
                Value *ok = nullptr;
                auto *cal = B.CreateLoad(Ptr, gCallee);
                ok = B.CreateICmpEQ(cal, &F);
                unsigned bv = 0;
                for (auto &A : F.args()) {
                    unsigned n = leaves(A.getType());
                    Sh s;
                    SmallVector<Type *, 4> lt;
                    leafTypes(A.getType(), lt);
                    for (unsigned i = 0; i < n; ++i, ++k) {
                        if (!scalarTracked(lt[i]) || k >= NARGS) {
                            s.push_back(zero());
                            continue;
                        }
                        s.push_back(B.CreateSelect(ok, B.CreateLoad(I32, slot(B, gArgs, k)), zero()));
                    }
                    shadow[&A] = s;
                    if (A.hasByValAttr() && bv < 16) {
                        auto *src = B.CreateLoad(Ptr, slot(B, gByval, bv++));
                        auto *p = B.CreateSelect(ok, src, ConstantPointerNull::get(Ptr));
                        B.CreateCall(fCopy, {&A, p, c64(DL.getTypeAllocSize(A.getParamByValType()))});
                    }
                }
                B.CreateStore(ConstantPointerNull::get(Ptr), gCallee);
            }
        }
        for (auto *I : work) visit(*I);
        for (auto &[p, sv] : phis) {
            for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
                auto s = get(p->getIncomingValue(i));
                for (unsigned j = 0; j < sv.size(); ++j) sv[j]->addIncoming(s[j], p->getIncomingBlock(i));
            }
        }
    }

    void visit(Instruction &I) {
        if (auto *P = dyn_cast<PHINode>(&I)) {
            SmallVector<Type *, 4> lt;
            leafTypes(P->getType(), lt);
            if (P->getType()->isPointerTy()) return;
            std::vector<PHINode *> sv;
            Sh s;
            for (unsigned i = 0; i < lt.size(); ++i) {
                auto *n = PHINode::Create(I32, P->getNumIncomingValues(), "", P);
                sv.push_back(n);
                s.push_back(n);
            }
            shadow[P] = s;
            phis.push_back({P, sv});
            return;
        }
        IRBuilder<> B(&I);
        Instruction *nxt = I.isTerminator() ? nullptr : I.getNextNode();
        auto after = [&]() { B.SetInsertPoint(nxt); };
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
            after();
            uint64_t sz = DL.getTypeAllocSize(A->getAllocatedType());
            Value *n = c64(sz);
            if (A->isArrayAllocation()) {
                conc(B, A->getArraySize());
                n = B.CreateMul(n, B.CreateZExtOrTrunc(A->getArraySize(), I64));
            }
            while (isa<AllocaInst>(B.GetInsertPoint())) B.SetInsertPoint(&*std::next(B.GetInsertPoint()));
            B.CreateCall(fClear, {A, n});
            return;
        }
        if (auto *L = dyn_cast<LoadInst>(&I)) {
            after();
            Type *t = L->getType();
            if (t->isPointerTy()) {
                auto *s = B.CreateCall(fLoad, {L->getPointerOperand(), c32(8), c32(0), asI64(B, L)});
                B.CreateCall(fConc, {s, asI64(B, L)});
                return;
            }
            if (scalarTracked(t)) {
                set(L, B.CreateCall(fLoad, {L->getPointerOperand(), c32((bits(t) + 7) / 8), c32(t->isIntegerTy() ? (t->isIntegerTy(1) ? 2 : 0) : 1),
                                            asI64(B, L)}));
                return;
            }
            if (t->isStructTy() || t->isArrayTy()) {
                SmallVector<std::pair<Type *, uint64_t>, 4> lo;
                leafOffsets(t, 0, lo);
                Sh s;
                unsigned idx = 0;
                for (auto &[lt, off] : lo) {
                    (void)idx;
                    if (scalarTracked(lt)) {
                        Value *p = B.CreateConstInBoundsGEP1_64(I8, L->getPointerOperand(), off);
                        Value *v = B.CreateLoad(lt, p);
                        s.push_back(B.CreateCall(fLoad, {p, c32((bits(lt) + 7) / 8), c32(lt->isIntegerTy() ? 0 : 1), asI64(B, v)}));
                    } else
                        s.push_back(zero());
                }
                shadow[L] = s;
                return;
            }
            B.CreateCall(fNoShadow, {L->getPointerOperand(), c64(DL.getTypeStoreSize(t))});
            return;
        }
        if (auto *S = dyn_cast<StoreInst>(&I)) {
            Type *t = S->getValueOperand()->getType();
            if (t->isStructTy() || t->isArrayTy()) {
                SmallVector<std::pair<Type *, uint64_t>, 4> lo;
                leafOffsets(t, 0, lo);
                auto s = get(S->getValueOperand());
                unsigned i = 0;
                for (auto &[lt, off] : lo) {
                    Value *p = B.CreateConstInBoundsGEP1_64(I8, S->getPointerOperand(), off);
                    B.CreateCall(fStore, {p, c32(DL.getTypeStoreSize(lt)), s[i++]});
                }
                return;
            }
            Value *s = scalarTracked(t) ? get1(S->getValueOperand()) : zero();
            B.CreateCall(fStore, {S->getPointerOperand(), c32(DL.getTypeStoreSize(t)), s});
            return;
        }
        if (auto *O = dyn_cast<BinaryOperator>(&I)) {
            Value *a = get1(O->getOperand(0)), *b = get1(O->getOperand(1));
            if (!scalarTracked(O->getType()) || (isZero(a) && isZero(b))) return;
            after();
            unsigned fl = 0;
            if (isa<OverflowingBinaryOperator>(O) && O->hasNoSignedWrap()) fl = 0x100;
            if (auto *D = dyn_cast<PossiblyDisjointInst>(O))
                if (D->isDisjoint()) fl |= 0x200;
            set(O, B.CreateCall(fBin, {c32(O->getOpcode() | fl), c32(bits(O->getType())), a, b, asI64(B, O->getOperand(0)),
                                       asI64(B, O->getOperand(1)), asI64(B, O)}));
            return;
        }
        if (auto *U = dyn_cast<UnaryOperator>(&I)) {
            Value *a = get1(U->getOperand(0));
            if (!scalarTracked(U->getType()) || isZero(a)) return;
            after();
            set(U, B.CreateCall(fFNeg, {a, asI64(B, U)}));
            return;
        }
        if (auto *P = dyn_cast<CmpInst>(&I)) {
            if (!scalarTracked(P->getOperand(0)->getType())) return;
            Value *a = get1(P->getOperand(0)), *b = get1(P->getOperand(1));
            if (isZero(a) && isZero(b)) return;
            after();
            set(P, B.CreateCall(fCmp, {c32(P->getPredicate()), c32(bits(P->getOperand(0)->getType())), a, b,
                                       asI64(B, P->getOperand(0)), asI64(B, P->getOperand(1)), B.CreateZExt(P, I32)}));
            return;
        }
        if (auto *K = dyn_cast<CastInst>(&I)) {
            Value *a = get1(K->getOperand(0));
            if (isZero(a)) return;
            if (K->getOpcode() == Instruction::IntToPtr) {
                conc(B, K->getOperand(0));
                return;
            }
            if (!scalarTracked(K->getType())) return;
            after();
            set(K, B.CreateCall(fCast, {c32(K->getOpcode()), c32(bits(K->getOperand(0)->getType())), c32(bits(K->getType())), a,
                                        asI64(B, K->getOperand(0)), asI64(B, K)}));
            return;
        }
        if (auto *S = dyn_cast<SelectInst>(&I)) {
            Value *c = get1(S->getCondition());
            if (S->getCondition()->getType()->isVectorTy()) return;
            auto st = get(S->getTrueValue()), sf = get(S->getFalseValue());
            if (S->getType()->isIntegerTy(1)) {
                if (isZero(c) && isZero(st[0]) && isZero(sf[0])) return;
                after();
                set(S, B.CreateCall(fSelB, {c, B.CreateZExt(S->getCondition(), I32), st[0], B.CreateZExt(S->getTrueValue(), I32),
                                            sf[0], B.CreateZExt(S->getFalseValue(), I32)}));
                return;
            }
            if (!isZero(c)) B.CreateCall(fBranch, {c, B.CreateZExt(S->getCondition(), I32)});
            after();
            Sh s;
            for (unsigned i = 0; i < st.size(); ++i)
                s.push_back(isZero(st[i]) && isZero(sf[i]) ? zero() : B.CreateSelect(S->getCondition(), st[i], sf[i]));
            shadow[S] = s;
            return;
        }
        if (auto *R = dyn_cast<BranchInst>(&I)) {
            if (R->isConditional()) {
                Value *c = get1(R->getCondition());
                if (!isZero(c)) B.CreateCall(fBranch, {c, B.CreateZExt(R->getCondition(), I32)});
            }
            return;
        }
        if (isa<SwitchInst>(&I)) {
            conc(B, cast<SwitchInst>(I).getCondition());
            return;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            for (auto &op : G->indices()) conc(B, op);
            return;
        }
        if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
            auto s = get(E->getAggregateOperand());
            unsigned o = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
            unsigned n = leaves(E->getType());
            shadow[E] = Sh(s.begin() + o, s.begin() + o + n);
            return;
        }
        if (auto *E = dyn_cast<InsertValueInst>(&I)) {
            auto s = get(E->getAggregateOperand());
            auto v = get(E->getInsertedValueOperand());
            unsigned o = leafIndex(E->getType(), E->getIndices());
            for (unsigned i = 0; i < v.size(); ++i) s[o + i] = v[i];
            shadow[E] = s;
            return;
        }
        if (isa<FreezeInst>(&I)) {
            shadow[&I] = get(I.getOperand(0));
            return;
        }
        if (auto *R = dyn_cast<ReturnInst>(&I)) {
            if (R->getReturnValue()) {
                auto s = get(R->getReturnValue());
                for (unsigned i = 0; i < s.size() && i < 16; ++i) B.CreateStore(s[i], slot(B, gRet, i));
                B.CreateStore(R->getFunction(), gRetFrom);
            }
            return;
        }
        if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) {
            B.CreateCall(fNoShadow, {I.getOperand(0), c64(8)});
            return;
        }
        if (auto *CB = dyn_cast<CallBase>(&I)) {
            call(*CB);
            return;
        }
    }

    void call(CallBase &I) {
        IRBuilder<> B(&I);
        if (I.isInlineAsm()) return;
        auto afterPt = [&]() {
            if (auto *Inv = dyn_cast<InvokeInst>(&I))
                B.SetInsertPoint(&*Inv->getNormalDest()->getFirstInsertionPt());
            else
                B.SetInsertPoint(I.getNextNode());
        };
        Function *F = I.getCalledFunction();
        if (F && F->isIntrinsic()) {
            switch (F->getIntrinsicID()) {
                case Intrinsic::memcpy:
                case Intrinsic::memcpy_inline:
                case Intrinsic::memmove:
                    conc(B, I.getArgOperand(2));
                    B.CreateCall(fCopy, {I.getArgOperand(0), I.getArgOperand(1), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
                    return;
                case Intrinsic::memset:
                    conc(B, I.getArgOperand(2));
                    B.CreateCall(fSet, {I.getArgOperand(0), get1(I.getArgOperand(1)), B.CreateZExtOrTrunc(I.getArgOperand(2), I64)});
                    return;
                case Intrinsic::lifetime_start: {
                    auto *n = cast<ConstantInt>(I.getArgOperand(0));
                    if (n->getSExtValue() > 0) B.CreateCall(fClear, {I.getArgOperand(1), n});
                    return;
                }
                case Intrinsic::expect:
                    shadow[&I] = get(I.getArgOperand(0));
                    return;
                case Intrinsic::smax:
                case Intrinsic::smin:
                case Intrinsic::umax:
                case Intrinsic::umin:
                case Intrinsic::abs: {
                    Value *a = get1(I.getArgOperand(0));
                    bool isabs = F->getIntrinsicID() == Intrinsic::abs;
                    Value *b = isabs ? zero() : get1(I.getArgOperand(1));
                    if (!scalarTracked(I.getType()) || (isZero(a) && isZero(b))) return;
                    unsigned k = 0;
                    switch (F->getIntrinsicID()) {
                        case Intrinsic::smax: k = 0; break;
                        case Intrinsic::smin: k = 1; break;
                        case Intrinsic::umax: k = 2; break;
                        case Intrinsic::umin: k = 3; break;
                        default: k = 4;
                    }
                    afterPt();
                    set(&I, B.CreateCall(fMinMax, {c32(k), c32(bits(I.getType())), a, b, asI64(B, I.getArgOperand(0)),
                                                   isabs ? c64(0) : asI64(B, I.getArgOperand(1)), asI64(B, &I)}));
                    return;
                }
                case Intrinsic::is_fpclass: {
                    // symbolic numbers are finite
                    auto *m = cast<ConstantInt>(I.getArgOperand(1));
                    unsigned finite = m->getZExtValue() & 0x1f8;
                    if (finite != 0 && finite != 0x1f8) conc(B, I.getArgOperand(0));
                    return;
                }
                case Intrinsic::sadd_with_overflow:
                case Intrinsic::uadd_with_overflow:
                case Intrinsic::ssub_with_overflow:
                case Intrinsic::usub_with_overflow:
                case Intrinsic::smul_with_overflow:
                case Intrinsic::umul_with_overflow: {
                    Value *a = get1(I.getArgOperand(0)), *b = get1(I.getArgOperand(1));
                    if (isZero(a) && isZero(b)) return;
                    unsigned k = 0;
                    switch (F->getIntrinsicID()) {
                        case Intrinsic::sadd_with_overflow: k = 0; break;
                        case Intrinsic::uadd_with_overflow: k = 1; break;
                        case Intrinsic::ssub_with_overflow: k = 2; break;
                        case Intrinsic::usub_with_overflow: k = 3; break;
                        case Intrinsic::smul_with_overflow: k = 4; break;
                        default: k = 5;
                    }
                    IRBuilder<> EB(&*I.getFunction()->getEntryBlock().getFirstInsertionPt());
                    auto *tmp = EB.CreateAlloca(I32);
                    afterPt();
                    auto *r = B.CreateCall(fOvf, {c32(k), c32(bits(I.getArgOperand(0)->getType())), a, b, asI64(B, I.getArgOperand(0)),
                                                  asI64(B, I.getArgOperand(1)), tmp});
                    shadow[&I] = Sh{r, B.CreateLoad(I32, tmp)};
                    return;
                }
                default: {
                    // other intrinsics: operands are concretised
                    if (F->doesNotAccessMemory() || true)
                        for (auto &A : I.args())
                            if (scalarTracked(A->getType())) conc(B, A.get());
                    return;
                }
            }
        }
        bool isSymApi = F && F->getName().starts_with("sym_");
        bool external = F && F->isDeclaration() && !isSymApi;
        if (external) {
            StringRef n = F->getName();
            if (n.starts_with("__sym_")) return;
            if (!isDropFn(n))
                for (auto &A : I.args()) {
                    if (scalarTracked(A->getType())) {
                        Value *s = get1(A.get());
                        if (!isZero(s)) B.CreateCall(fExtArg, {s, asI64(B, A.get()), str(B, n)});
                    } else if (A->getType()->isPointerTy() && !isPtrOkFn(n) && !isa<Constant>(A.get()))
                        B.CreateCall(fExtPtr, {A.get(), str(B, n)});
                }
            if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
                afterPt();
                B.CreateCall(fClear, {&I, I.getArgOperand(0)});
            } else if (n == "calloc") {
                afterPt();
                B.CreateCall(fClear, {&I, B.CreateMul(I.getArgOperand(0), I.getArgOperand(1))});
            } else if (n == "__cxa_allocate_exception") {
                afterPt();
                B.CreateCall(fClear, {&I, I.getArgOperand(0)});
            }
            return;
        }
        // possibly instrumented callee
        Value *callee = I.getCalledOperand();
        unsigned k = 0, bv = 0;
        for (unsigned ai = 0; ai < I.arg_size(); ++ai) {
            Value *A = I.getArgOperand(ai);
            auto s = get(A);
            SmallVector<Type *, 4> lt;
            leafTypes(A->getType(), lt);
            for (unsigned i = 0; i < s.size(); ++i, ++k) {
                if (k >= NARGS) break;
                if (!scalarTracked(lt[i])) continue;
                B.CreateStore(s[i], slot(B, gArgs, k));
                if (!F && !isZero(s[i]) && s.size() == 1)
                    B.CreateCall(fIndirect, {callee, s[i], asI64(B, A), c32(0)});
            }
            if (I.isByValArgument(ai) && bv < 16) B.CreateStore(A, slot(B, gByval, bv++));
        }
        B.CreateStore(callee, gCallee);
        unsigned n = leaves(I.getType());
        if (n && !I.getType()->isPointerTy() && n <= 16) {
            B.CreateStore(ConstantPointerNull::get(Ptr), gRetFrom);
            afterPt();
            auto *ok = B.CreateICmpEQ(B.CreateLoad(Ptr, gRetFrom), callee);
            Sh s;
            SmallVector<Type *, 4> lt;
            leafTypes(I.getType(), lt);
            for (unsigned i = 0; i < n; ++i)
                s.push_back(scalarTracked(lt[i]) ? B.CreateSelect(ok, B.CreateLoad(I32, slot(B, gRet, i)), zero()) : zero());
            shadow[&I] = s;
        }
    }
};

// Sign tests of bitwise combinations are split into combinations of sign
// tests (the compiler joins the latter, which linear reasoning cannot express).
Value *signTest(IRBuilder<> &B, Value *X) {
    if (auto *O = dyn_cast<BinaryOperator>(X)) {
        auto op = O->getOpcode();
        if (op == Instruction::Xor || op == Instruction::And || op == Instruction::Or)
            if (!isa<Constant>(O->getOperand(0)) && !isa<Constant>(O->getOperand(1))) {
                auto *a = signTest(B, O->getOperand(0)), *b = signTest(B, O->getOperand(1));
                return B.CreateBinOp(op, a, b);
            }
    }
    return B.CreateICmpSLT(X, Constant::getNullValue(X->getType()));
}
bool bitwise(Value *X) {
    auto *O = dyn_cast<BinaryOperator>(X);
    if (!O || !X->getType()->isIntegerTy() || X->getType()->isIntegerTy(1)) return false;
    auto op = O->getOpcode();
    return (op == Instruction::Xor || op == Instruction::And || op == Instruction::Or) && !isa<Constant>(O->getOperand(0)) &&
           !isa<Constant>(O->getOperand(1));
}
void splitSigns(Function &F) {
    SmallVector<Instruction *, 8> work, dead;
    for (auto &BB : F)
        for (auto &I : BB)
            if (isa<ICmpInst>(I) || I.getOpcode() == Instruction::LShr || I.getOpcode() == Instruction::AShr) work.push_back(&I);
    for (auto *I : work) {
        auto *X = I->getOperand(0);
        auto *k = dyn_cast<ConstantInt>(I->getOperand(1));
        if (!k || !bitwise(X)) continue;
        IRBuilder<> B(I);
        Value *r = nullptr;
        if (auto *c = dyn_cast<ICmpInst>(I)) {
            if (c->getPredicate() == ICmpInst::ICMP_SLT && k->isZero()) r = signTest(B, X);
            if (c->getPredicate() == ICmpInst::ICMP_SGT && k->isMinusOne()) r = B.CreateNot(signTest(B, X));
        } else if (k->getValue() == I->getType()->getIntegerBitWidth() - 1) {
            r = signTest(B, X);
            r = I->getOpcode() == Instruction::LShr ? B.CreateZExt(r, I->getType()) : B.CreateSExt(r, I->getType());
        }
        if (!r) continue;
        I->replaceAllUsesWith(r);
        dead.push_back(I);
        if (auto *x = dyn_cast<Instruction>(X)) dead.push_back(x);
    }
    for (bool more = true; more;) {
        more = false;
        for (auto *&I : dead)
            if (I && I->use_empty()) {
                Instruction *x[2] = {nullptr, nullptr};
                for (int i = 0; i < 2; ++i)
                    if (auto *o = dyn_cast<Instruction>(I->getOperand(i)); o && bitwise(o) && !is_contained(dead, o)) x[i] = o;
                auto *d = I;
                for (auto *&J : dead)
                    if (J == d) J = nullptr;
                d->eraseFromParent();
                for (auto *y : x)
                    if (y && !is_contained(dead, y)) dead.push_back(y);
                more = true;
                break;
            }
    }
}

// A conversion from floating point to integer must not be executed if the source
// does not, because values outside the target range are reported.  So it is
// hidden in a call from the optimizations (that might speculate it).
struct PinConversions : PassInfoMixin<PinConversions> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        std::vector<CastInst *> cs;
        for (auto &F : M)
            for (auto &BB : F)
                for (auto &I : BB)
                    if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I))
                        if (I.getType()->isIntegerTy()) cs.push_back(cast<CastInst>(&I));
        for (auto *c : cs) {
            auto *from = c->getOperand(0)->getType(), *to = c->getType();
            std::string n = "__sym_pin_" + std::to_string(c->getOpcode()) + "_" + std::to_string(from->getPrimitiveSizeInBits()) + "_" +
                            std::to_string(to->getIntegerBitWidth());
            auto f = M.getOrInsertFunction(n, FunctionType::get(to, {from}, false));
            if (auto *F = dyn_cast<Function>(f.getCallee())) {
                F->setDoesNotAccessMemory();
                F->setDoesNotThrow();
                F->addFnAttr(Attribute::WillReturn);
            }
            auto *r = CallInst::Create(f, {c->getOperand(0)}, "", c);
            c->replaceAllUsesWith(r);
            c->eraseFromParent();
        }
        return cs.empty() ? PreservedAnalyses::all() : PreservedAnalyses::none();
    }
    static void undo(Module &M) {
        std::vector<Function *> fs;
        for (auto &F : M)
            if (F.getName().starts_with("__sym_pin_")) fs.push_back(&F);
        for (auto *F : fs) {
            auto op = F->getName().substr(10).split('_').first;
            unsigned o = 0;
            op.getAsInteger(10, o);
            std::vector<CallBase *> cs;
            for (auto *u : F->users()) cs.push_back(cast<CallBase>(u));
            for (auto *c : cs) {
                if (auto *I = dyn_cast<InvokeInst>(c)) {
                    BranchInst::Create(I->getNormalDest(), I);
                    I->getUnwindDest()->removePredecessor(I->getParent());
                }
                auto *r = CastInst::Create((Instruction::CastOps)o, c->getArgOperand(0), c->getType(), "", c);
                c->replaceAllUsesWith(r);
                c->eraseFromParent();
            }
            F->eraseFromParent();
        }
    }
    static bool isRequired() { return true; }
};

struct SymPass : PassInfoMixin<SymPass> {
    PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
        PinConversions::undo(M);
        // library models: redirect calls of listed libc functions to instrumented versions
        for (auto *n : libModels) {
            Function *m = M.getFunction(std::string("symlib_") + n);
            Function *f = M.getFunction(n);
            if (m && f && f->isDeclaration()) f->replaceAllUsesWith(m);
            Function *g = M.getFunction(std::string("llvm.") + n + ".f64");
            if (m && g) g->replaceAllUsesWith(m);
        }
        // aliases are resolved to their targets so that callee identity checks work
        std::vector<GlobalAlias *> al;
        for (auto &A : M.aliases()) al.push_back(&A);
        for (auto *A : al) A->replaceAllUsesWith(A->getAliasee());
        Instr T(M);
        std::vector<Function *> fs;
        for (auto &F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__sym_")) fs.push_back(&F);
        auto *seen = cast<GlobalVariable>(M.getOrInsertGlobal("__sym_seen", PointerType::getUnqual(M.getContext())));
        unsigned fi = 0;
        for (auto *F : fs) {
            if (F->hasFnAttribute(Attribute::Naked)) continue;
            splitSigns(*F);
            T.run(*F);
            if (F->hasAvailableExternallyLinkage()) continue;
            IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
            auto *p = B.CreateLoad(T.Ptr, seen);
            B.CreateStore(ConstantInt::get(T.I8, 1), B.CreateConstInBoundsGEP1_64(T.I8, p, fi++));
        }
        // instrumentation writes memory, so inferred memory attributes no longer hold
        for (auto &F : M) {
            if (F.isIntrinsic()) continue;
            F.removeFnAttr(Attribute::Memory);
            for (auto a : {Attribute::NoSync, Attribute::WillReturn, Attribute::NoFree, Attribute::NoRecurse, Attribute::Speculatable}) F.removeFnAttr(a);
            for (unsigned i = 0; i < F.arg_size(); ++i)
                for (auto a : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoCapture}) F.removeParamAttr(i, a);
            for (auto &BB : F)
                for (auto &I : BB)
                    if (auto *CB = dyn_cast<CallBase>(&I)) {
                        if (CB->getCalledFunction() && CB->getCalledFunction()->isIntrinsic()) continue;
                        CB->removeFnAttr(Attribute::Memory);
                        for (auto a : {Attribute::NoSync, Attribute::WillReturn, Attribute::NoFree}) CB->removeFnAttr(a);
                        for (unsigned i = 0; i < CB->arg_size(); ++i)
                            for (auto a : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoCapture}) CB->removeParamAttr(i, a);
                    }
        }
        // table of instrumented functions (for indirect calls and the evidence)
        auto &C = M.getContext();
        auto *Ptr = PointerType::getUnqual(C);
        std::vector<Constant *> tab;
        for (auto *F : fs)
            if (!F->hasFnAttribute(Attribute::Naked) && !F->hasAvailableExternallyLinkage()) tab.push_back(F);
        auto *at = ArrayType::get(Ptr, tab.size());
        new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, tab), "__sym_fn_table");
        new GlobalVariable(M, Type::getInt64Ty(C), true, GlobalValue::ExternalLinkage,
                           ConstantInt::get(Type::getInt64Ty(C), tab.size()), "__sym_fn_count");
        std::vector<Constant *> nm;
        for (auto *F : tab) {
            auto *d = ConstantDataArray::getString(C, F->getName());
            nm.push_back(new GlobalVariable(M, d->getType(), true, GlobalValue::PrivateLinkage, d));
        }
        new GlobalVariable(M, at, true, GlobalValue::ExternalLinkage, ConstantArray::get(at, nm), "__sym_fn_name");
        // The runtime and the solver library must never end up in instrumented
        // functions, so that shared template instantiations become private.
        for (auto *F : fs) {
            if (F->getName() == "sym_main" || F->getName() == "sym_variants" || F->hasAvailableExternallyLinkage() || F->hasLocalLinkage()) continue;
            F->setComdat(nullptr);
            F->setLinkage(GlobalValue::InternalLinkage);
        }
        // globals that have to be restored between paths
        std::vector<Constant *> gl, gs;
        for (auto &G : M.globals()) {
            if (G.isConstant() || G.isDeclaration() || G.isThreadLocal() || G.hasAvailableExternallyLinkage() ||
                G.hasAppendingLinkage() || G.getName().starts_with("llvm.") || G.getName().starts_with("__sym"))
                continue;
            gl.push_back(&G);
            gs.push_back(ConstantInt::get(Type::getInt64Ty(C), M.getDataLayout().getTypeAllocSize(G.getValueType())));
        }
        auto *gt = ArrayType::get(Ptr, gl.size());
        auto *gst = ArrayType::get(Type::getInt64Ty(C), gs.size());
        new GlobalVariable(M, gt, true, GlobalValue::ExternalLinkage, ConstantArray::get(gt, gl), "__sym_gl_table");
        new GlobalVariable(M, gst, true, GlobalValue::ExternalLinkage, ConstantArray::get(gst, gs), "__sym_gl_size");
        new GlobalVariable(M, Type::getInt64Ty(C), true, GlobalValue::ExternalLinkage,
                           ConstantInt::get(Type::getInt64Ty(C), gl.size()), "__sym_gl_count");
        if (auto *p = getenv("SYM_FN_LIST")) {
            std::error_code ec;
            raw_fd_ostream os(p, ec);
            for (auto *F : fs) os << F->getName() << "\n";
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(PinConversions()); });
                PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager &MPM, ArrayRef<PassBuilder::PipelineElement>) {
                    if (n == "sympass") {
                        MPM.addPass(SymPass());
                        return true;
                    }
                    return false;
                });
            }};
}
