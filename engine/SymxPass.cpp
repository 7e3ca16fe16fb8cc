// SymxPass: LLVM 18 plugin that instruments every function of a translation unit so that it runs
// natively on concrete values while carrying, next to every scalar SSA value and every memory byte,
// a shadow: a pointer to a symbolic expression (null = concrete).  See DESIGN.md, "engine".
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Scalar/LowerExpectIntrinsic.h"
#include <map>
#include <set>
#include <string>
using namespace llvm;

namespace {

static const std::set<std::string>& wrapSet()
{
    // externals that have a model in the runtime (__sxw_<name>); they receive argument shadows.
    static const std::set<std::string> s = {
        "memcmp", "bcmp", "strlen", "memchr", "strcmp", "strncmp", "strchr", "strrchr", "strstr", "strcasecmp", "strncasecmp",
        "malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm",
        "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZdlPvRKSt9nothrow_t",
        "_ZnwmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
        "memcpy", "memmove", "memset", "strcpy", "strcat", "strncpy",
        "isspace", "isdigit", "isalpha", "isalnum", "isxdigit", "isprint", "isupper", "islower", "ispunct", "iscntrl", "toupper", "tolower", "isgraph", "isblank",
        "strtol", "strtoll", "strtoul", "strtoull", "__isoc23_strtol", "__isoc23_strtoll", "__isoc23_strtoul", "__isoc23_strtoull", "atoi", "atol", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf",
        "_ZSt11_Hash_bytesPKvmm", "abs", "labs",
        "_ZSt10from_charsPKcS0_RdSt12chars_format", "_ZSt10from_charsPKcS0_RfSt12chars_format",
        "time", "rand", "random", "srand", "clock",
        "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv",
        "fabs", "fabsf",
    };
    return s;
}

struct Symx
{
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    Type *I8, *I32, *I64, *Ptr;
    GlobalVariable *Args, *Ret;       // shadow parameter / return slots
    GlobalVariable *Tag, *RetTag;     // owner tags
    GlobalVariable *PageMap;          // page filter
    Constant* Null;

    explicit Symx(Module& m) : M(m), C(m.getContext()), DL(m.getDataLayout())
    {
        I8 = Type::getInt8Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); Ptr = PointerType::get(C, 0);
        Null = ConstantPointerNull::get(cast<PointerType>(Ptr));
        Args = ext("__sx_args", ArrayType::get(Ptr, 64));
        Ret = ext("__sx_ret", ArrayType::get(Ptr, 16));
        Tag = ext("__sx_tag", Ptr);
        RetTag = ext("__sx_rettag", Ptr);
        PageMap = ext("__sx_pagemap", ArrayType::get(I8, 1 << 20));
    }
    GlobalVariable* ext(StringRef n, Type* t)
    {
        if (auto* g = M.getNamedGlobal(n)) return g;
        auto* g = new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        g->setDSOLocal(true);
        return g;
    }
    FunctionCallee fn(StringRef n, Type* r, ArrayRef<Type*> a)
    {
        auto f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        if (auto* ff = dyn_cast<Function>(f.getCallee())) { ff->setDSOLocal(true); ff->setDoesNotThrow(); }
        return f;
    }
    static bool isScalar(Type* t)
    {
        if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return true;
        if (auto* i = dyn_cast<IntegerType>(t)) return i->getBitWidth() <= 64;
        return false;
    }
    unsigned width(Type* t)
    {
        if (t->isPointerTy()) return 64;
        return t->getPrimitiveSizeInBits().getFixedValue();
    }
    void leaves(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out)
    {
        if (auto* s = dyn_cast<StructType>(t)) {
            const StructLayout* sl = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), out);
        } else if (auto* a = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL.getTypeAllocSize(a->getElementType());
            for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, out);
        } else if (!t->isVoidTy()) out.push_back({ t, off });
    }
    std::vector<std::pair<Type*, uint64_t>> leaves(Type* t) { std::vector<std::pair<Type*, uint64_t>> v; leaves(t, 0, v); return v; }
    unsigned leafIndex(Type* t, ArrayRef<unsigned> idx)
    {
        unsigned r = 0;
        for (unsigned i : idx) {
            if (auto* s = dyn_cast<StructType>(t)) {
                for (unsigned k = 0; k < i; k++) r += leaves(s->getElementType(k)).size();
                t = s->getElementType(i);
            } else {
                auto* a = cast<ArrayType>(t);
                r += i * leaves(a->getElementType()).size();
                t = a->getElementType();
            }
        }
        return r;
    }

    // ---- per function state
    Function* F = nullptr;
    GlobalVariable* Cov = nullptr; std::vector<Constant*> CovNames;
    std::map<Value*, std::vector<Value*>> S;
    std::vector<Value*> sh(Value* v)
    {
        auto it = S.find(v);
        if (it != S.end()) return it->second;
        return std::vector<Value*>(leaves(v->getType()).size(), Null);
    }
    Value* sh1(Value* v)
    {
        auto it = S.find(v);
        if (it != S.end() && it->second.size() == 1) return it->second[0];
        return Null;
    }
    bool isNull(Value* s) { return s == Null; }

    Value* toI64(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, I64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, I64);
        return B.CreateZExtOrTrunc(v, I64);
    }
    Value* orAll(IRBuilder<>& B, ArrayRef<Value*> ss)
    {
        Value* r = nullptr;
        for (auto* s : ss) {
            if (isNull(s)) continue;
            Value* i = B.CreatePtrToInt(s, I64);
            r = r ? B.CreateOr(r, i) : i;
        }
        return r;
    }
    // Emits, at `before`, "if (cond) { body }", yielding a phi (value from body, Null otherwise).
    template <typename Fn>
    std::vector<Value*> slow(Instruction* before, Value* cond, unsigned nres, Fn body)
    {
        MDNode* unlikely = MDBuilder(C).createBranchWeights(1, 1000);
        Instruction* term = SplitBlockAndInsertIfThen(cond, before, false, unlikely);
        BasicBlock* thenB = term->getParent();
        BasicBlock* pred = thenB->getSinglePredecessor();
        IRBuilder<> B(term);
        std::vector<Value*> vals = body(B);
        BasicBlock* end = term->getParent();
        std::vector<Value*> out;
        if (nres) {
            IRBuilder<> P(&*before->getParent()->begin());
            for (unsigned i = 0; i < nres; i++) {
                if (isNull(vals[i])) { out.push_back(Null); continue; }
                PHINode* p = P.CreatePHI(Ptr, 2);
                p->addIncoming(vals[i], end);
                p->addIncoming(Null, pred);
                out.push_back(p);
            }
        }
        return out;
    }
    Value* ifAny(Instruction* before, ArrayRef<Value*> ss, function_ref<Value*(IRBuilder<>&)> body)
    {
        IRBuilder<> B(before);
        Value* o = orAll(B, ss);
        if (!o) return Null;
        Value* c = B.CreateICmpNE(o, ConstantInt::get(I64, 0));
        auto r = slow(before, c, 1, [&](IRBuilder<>& b) { return std::vector<Value*>{ body(b) }; });
        return r[0];
    }
    void ifAnyVoid(Instruction* before, ArrayRef<Value*> ss, function_ref<void(IRBuilder<>&)> body)
    {
        IRBuilder<> B(before);
        Value* o = orAll(B, ss);
        if (!o) return;
        Value* c = B.CreateICmpNE(o, ConstantInt::get(I64, 0));
        slow(before, c, 0, [&](IRBuilder<>& b) { body(b); return std::vector<Value*>{}; });
    }
    ConstantInt* c32(uint32_t v) { return ConstantInt::get(cast<IntegerType>(I32), v); }
    ConstantInt* c64(uint64_t v) { return ConstantInt::get(cast<IntegerType>(I64), v); }
    Value* loc()
    {
        // function name, for diagnostics
        static std::map<Function*, Value*> names;
        auto it = names.find(F);
        if (it != names.end()) return it->second;
        auto* s = ConstantDataArray::getString(C, F->getName());
        auto* g = new GlobalVariable(M, s->getType(), true, GlobalValue::PrivateLinkage, s, "__sx_fn");
        names[F] = g;
        return g;
    }

    void concretize(Instruction* before, Value* v)
    {
        // every symbolic leaf of v is pinned to its concrete value (a complete enumeration decision)
        auto ls = leaves(v->getType());
        auto ss = sh(v);
        for (unsigned i = 0; i < ls.size(); i++) {
            if (isNull(ss[i])) continue;
            ifAnyVoid(before, { ss[i] }, [&](IRBuilder<>& B) {
                B.CreateCall(fn("__sx_concretize", Type::getVoidTy(C), { Ptr, Ptr }), { ss[i], loc() });
            });
        }
    }

    Value* pageByte(IRBuilder<>& B, Value* addr64)
    {
        Value* pg = B.CreateAnd(B.CreateLShr(addr64, 12), c64((1 << 20) - 1));
        Value* p = B.CreateInBoundsGEP(PageMap->getValueType(), PageMap, { c64(0), pg });
        return B.CreateLoad(I8, p);
    }

    void doLoad(Instruction* I, Value* ptr, Type* ty)
    {
        auto ls = leaves(ty);
        std::vector<Value*> out(ls.size(), Null);
        uint64_t total = DL.getTypeStoreSize(ty);
        Value* sp = sh1(ptr);
        if (ls.size() == 1) {
            IRBuilder<> B(I);
            Value* a = B.CreatePtrToInt(ptr, I64);
            Value* pb = pageByte(B, a);
            Value* cond = B.CreateICmpNE(pb, ConstantInt::get(I8, 0));
            if (!isNull(sp)) cond = B.CreateOr(cond, B.CreateICmpNE(sp, Null));
            bool sc = isScalar(ls[0].first);
            auto r = slow(I, cond, 1, [&](IRBuilder<>& b) -> std::vector<Value*> {
                if (sc) {
                    Value* v = b.CreateCall(fn("__sx_load", Ptr, { I64, I32, I32, Ptr, Ptr }),
                        { a, c32(total), c32(width(ls[0].first)), sp, loc() });
                    return { v };
                }
                b.CreateCall(fn("__sx_load_opaque", Type::getVoidTy(C), { I64, I32, Ptr, Ptr }), { a, c32(total), sp, loc() });
                return { Null };
            });
            out[0] = r[0];
        } else {
            for (unsigned i = 0; i < ls.size(); i++) {
                if (!isScalar(ls[i].first)) continue;
                IRBuilder<> B(I);
                Value* a = B.CreateAdd(B.CreatePtrToInt(ptr, I64), c64(ls[i].second));
                if (i == 0 && !isNull(sp)) concretize(I, ptr);
                IRBuilder<> B2(I);
                out[i] = B2.CreateCall(fn("__sx_load", Ptr, { I64, I32, I32, Ptr, Ptr }),
                    { a, c32(DL.getTypeStoreSize(ls[i].first)), c32(width(ls[i].first)), Null, loc() });
            }
        }
        bool any = false;
        for (auto* o : out) any |= !isNull(o);
        if (any) S[I] = out;
    }
    void doStore(Instruction* I, Value* ptr, Value* val)
    {
        Type* ty = val->getType();
        auto ls = leaves(ty);
        auto ss = sh(val);
        Value* sp = sh1(ptr);
        if (ls.size() == 1) {
            uint64_t sz = DL.getTypeStoreSize(ty);
            IRBuilder<> B(I);
            Value* a = B.CreatePtrToInt(ptr, I64);
            Value* cond = B.CreateICmpNE(pageByte(B, a), ConstantInt::get(I8, 0));
            Value* o = orAll(B, { sp, ss[0] });
            if (o) cond = B.CreateOr(cond, B.CreateICmpNE(o, c64(0)));
            slow(I, cond, 0, [&](IRBuilder<>& b) {
                b.CreateCall(fn("__sx_store", Type::getVoidTy(C), { I64, I32, Ptr, Ptr, Ptr }), { a, c32(sz), ss[0], sp, loc() });
                return std::vector<Value*>{};
            });
        } else {
            if (!isNull(sp)) concretize(I, ptr);
            for (unsigned i = 0; i < ls.size(); i++) {
                IRBuilder<> B(I);
                Value* a = B.CreateAdd(B.CreatePtrToInt(ptr, I64), c64(ls[i].second));
                B.CreateCall(fn("__sx_store", Type::getVoidTy(C), { I64, I32, Ptr, Ptr, Ptr }),
                    { a, c32(DL.getTypeStoreSize(ls[i].first)), ss[i], Null, loc() });
            }
        }
    }

    // library boundaries a harness may define itself (then they are instrumented code in the executable)
    static bool modelable(StringRef n)
    {
        for (const char* p : { "EVP_", "MD5", "SHA", "AES_", "RAND_", "inflate", "deflate", "crc32", "RC4" }) if (n.starts_with(p)) return true;
        return false;
    }
    bool isPdfmmName(StringRef n)
    {
        if (!n.starts_with("_Z")) return false;
        return n.contains("2mm") || n.contains("4utls") || n.contains("FX") || n.contains("fxcodec") || n.contains("cmn") || n.contains("fmt") ||
            n.starts_with("_ZNSt7__cxx1112basic_string") || n.starts_with("_ZNKSt7__cxx1112basic_string") || n.starts_with("_ZNSt7__cxx1115basic_stringbuf") ||
            n.starts_with("_ZNSi") || n.starts_with("_ZNSo") || n.starts_with("_ZNSt15basic_streambuf") || n.starts_with("_ZNKSt15basic_streambuf") || n.starts_with("_ZNSt7__cxx1118basic_stringstream") || n.starts_with("_ZNSt7__cxx1119basic_") || n.starts_with("_ZNSd");
    }

    void instrumentCall(CallBase* CB)
    {
        if (CB->isInlineAsm()) {
            for (auto& a : CB->args()) concretize(CB, a);
            return;
        }
        Value* callee = CB->getCalledOperand();
        Function* cf = dyn_cast<Function>(callee->stripPointerCasts());
        bool wrapped = false;
        if (cf && cf->isDeclaration() && wrapSet().count(cf->getName().str())) {
            auto w = M.getOrInsertFunction(("__sxw_" + cf->getName()).str(), CB->getFunctionType());
            CB->setCalledOperand(w.getCallee());
            // builtin-attribute based folding must not see through the model
            AttrBuilder ab(C);
            callee = w.getCallee();
            cf = dyn_cast<Function>(callee);
            if (cf) cf->setDSOLocal(true);
            wrapped = true;
        }
        bool runtime = cf && cf->getName().starts_with("__sx_");
        if (!isNull(sh1(callee))) concretize(CB, callee);
        // gather argument shadows (flattened)
        std::vector<Value*> as;
        bool any = false;
        bool varargs = CB->getFunctionType()->isVarArg();
        unsigned fixed = CB->getFunctionType()->getNumParams();
        for (unsigned i = 0; i < CB->arg_size(); i++) {
            Value* a = CB->getArgOperand(i);
            if (CB->isByValArgument(i)) { as.push_back(a); any = true; continue; }
            if (a->getType()->isMetadataTy()) continue;
            auto ss = sh(a);
            if (varargs && i >= fixed && !runtime) { concretize(CB, a); if (wrapped) as.push_back(ConstantPointerNull::get(PointerType::getUnqual(C))); continue; }
            for (auto* s : ss) { as.push_back(s); any |= !isNull(s); }
        }
        if (wrapped || runtime) any = true;
        if (as.size() > 60) { for (auto& a : CB->args()) if (!a->getType()->isMetadataTy()) concretize(CB, a); any = false; }
        bool external = cf && cf->isDeclaration() && !wrapped && !runtime && !isPdfmmName(cf->getName());
        bool maybeExternal = !cf || (cf->isDeclaration() && !wrapped && !runtime);
        if (external || (maybeExternal && any)) {
            // tell the runtime about pointer arguments and symbolic scalars that leave instrumented code
            std::vector<Value*> scal, ptrs;
            for (unsigned i = 0; i < CB->arg_size(); i++) {
                Value* a = CB->getArgOperand(i);
                if (a->getType()->isMetadataTy()) continue;
                if (a->getType()->isPointerTy() && !isa<Constant>(a) && external) ptrs.push_back(a);
                if (CB->isByValArgument(i)) continue;
                for (auto* s : sh(a)) if (!isNull(s)) scal.push_back(s);
            }
            StringRef nm = cf ? cf->getName() : "";
            bool quiet = nm.starts_with("__cxa_") || nm.starts_with("__gxx") || nm == "_Unwind_Resume" || nm.starts_with("_ZSt9terminate") || nm.starts_with("_ZSt29_Rb_tree_insert") || nm.starts_with("_ZSt18_Rb_tree") || nm.starts_with("_ZSt28_Rb_tree") || nm.starts_with("_ZNSt8__detail15_List_node_base") ;
            IRBuilder<> B(CB);
            if (!scal.empty()) {
                ifAnyVoid(CB, scal, [&](IRBuilder<>& b) {
                    for (auto* s : scal)
                        b.CreateCall(fn("__sx_ext_scalar", Type::getVoidTy(C), { Ptr, Ptr, Ptr }), { callee, s, loc() });
                });
            }
            if (!quiet) for (auto* p : ptrs) {
                IRBuilder<> b(CB);
                Value* a = b.CreatePtrToInt(p, I64);
                Value* cond = b.CreateICmpNE(pageByte(b, a), ConstantInt::get(I8, 0));
                slow(CB, cond, 0, [&](IRBuilder<>& bb) {
                    Value* nmv = callee;
                    bb.CreateCall(fn("__sx_ext_ptr", Type::getVoidTy(C), { Ptr, I64, Ptr }), { nmv, a, loc() });
                    return std::vector<Value*>{};
                });
            }
        }
        if (any) {
            IRBuilder<> B(CB);
            for (unsigned i = 0; i < as.size(); i++)
                B.CreateStore(as[i], B.CreateConstInBoundsGEP2_64(Args->getValueType(), Args, 0, i));
            B.CreateStore(callee, Tag);
        }
        // results
        Type* rt = CB->getType();
        if (rt->isVoidTy()) return;
        auto ls = leaves(rt);
        bool anyScalar = false;
        for (auto& l : ls) anyScalar |= isScalar(l.first);
        if (!anyScalar || ls.size() > 16) return;
        if (cf && cf->isDeclaration() && !wrapped && !runtime && external && !modelable(cf->getName())) return; // externals return concrete values
        if (CB->isMustTailCall()) return;
        Instruction* at = nullptr;
        if (auto* II = dyn_cast<InvokeInst>(CB)) {
            BasicBlock* nd = II->getNormalDest();
            at = &*nd->getFirstInsertionPt();
        } else at = CB->getNextNode();
        IRBuilder<> B(at);
        Value* tag = B.CreateLoad(Ptr, RetTag);
        Value* mine = B.CreateICmpEQ(tag, callee);
        std::vector<Value*> out;
        for (unsigned i = 0; i < ls.size(); i++) {
            if (!isScalar(ls[i].first)) { out.push_back(Null); continue; }
            Value* v = B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_64(Ret->getValueType(), Ret, 0, i));
            out.push_back(B.CreateSelect(mine, v, Null));
        }
        B.CreateStore(Null, RetTag);
        S[CB] = out;
    }

    void instrumentIntrinsic(IntrinsicInst* II)
    {
        Type* V = Type::getVoidTy(C);
        switch (II->getIntrinsicID()) {
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: {
            for (unsigned i = 0; i < 3; i++) concretize(II, II->getArgOperand(i));
            IRBuilder<> B(II);
            Value* n = B.CreateZExtOrTrunc(II->getArgOperand(2), I64);
            B.CreateCall(fn("__sx_memcpy", V, { Ptr, Ptr, I64, Ptr }), { II->getArgOperand(0), II->getArgOperand(1), n, loc() });
            break;
        }
        case Intrinsic::memset:
        case Intrinsic::memset_inline: {
            concretize(II, II->getArgOperand(0)); concretize(II, II->getArgOperand(2));
            IRBuilder<> B(II);
            Value* n = B.CreateZExtOrTrunc(II->getArgOperand(2), I64);
            B.CreateCall(fn("__sx_memset", V, { Ptr, Ptr, I64, Ptr }), { II->getArgOperand(0), sh1(II->getArgOperand(1)), n, loc() });
            break;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
        case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            Value *a = II->getArgOperand(0), *b = II->getArgOperand(1);
            if (!isScalar(a->getType())) { concretize(II, a); concretize(II, b); break; }
            unsigned k = 0, op = 0;
            switch (II->getIntrinsicID()) {
            case Intrinsic::uadd_with_overflow: k = 0; op = Instruction::Add; break;
            case Intrinsic::sadd_with_overflow: k = 1; op = Instruction::Add; break;
            case Intrinsic::usub_with_overflow: k = 2; op = Instruction::Sub; break;
            case Intrinsic::ssub_with_overflow: k = 3; op = Instruction::Sub; break;
            case Intrinsic::umul_with_overflow: k = 4; op = Instruction::Mul; break;
            default: k = 5; op = Instruction::Mul; break;
            }
            IRBuilder<> B(II);
            Value* o = orAll(B, { sh1(a), sh1(b) });
            if (!o) break;
            auto r = slow(II, B.CreateICmpNE(o, c64(0)), 2, [&](IRBuilder<>& bb) -> std::vector<Value*> {
                Value* ca = toI64(bb, a); Value* cb = toI64(bb, b);
                unsigned w = width(a->getType());
                Value* x = bb.CreateCall(fn("__sx_bin", Ptr, { I32, I32, Ptr, Ptr, I64, I64 }), { c32(op), c32(w), sh1(a), sh1(b), ca, cb });
                Value* y = bb.CreateCall(fn("__sx_ovf", Ptr, { I32, I32, Ptr, Ptr, I64, I64 }), { c32(k), c32(w), sh1(a), sh1(b), ca, cb });
                return { x, y };
            });
            S[II] = r;
            break;
        }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
        case Intrinsic::abs: case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
        case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat:
        case Intrinsic::bitreverse:
        case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round:
        case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::sqrt: case Intrinsic::fmuladd: case Intrinsic::copysign: {
            if (!isScalar(II->getType())) { for (auto& a : II->args()) concretize(II, a); break; }
            unsigned k = II->getIntrinsicID();
            unsigned code = 0;
            switch (k) {
            case Intrinsic::umin: code = 0; break; case Intrinsic::umax: code = 1; break; case Intrinsic::smin: code = 2; break; case Intrinsic::smax: code = 3; break;
            case Intrinsic::abs: code = 4; break; case Intrinsic::bswap: code = 5; break; case Intrinsic::ctpop: code = 6; break; case Intrinsic::ctlz: code = 7; break; case Intrinsic::cttz: code = 8; break;
            case Intrinsic::fshl: code = 9; break; case Intrinsic::fshr: code = 10; break; case Intrinsic::uadd_sat: code = 11; break; case Intrinsic::usub_sat: code = 12; break;
            case Intrinsic::sadd_sat: code = 13; break; case Intrinsic::ssub_sat: code = 14; break; case Intrinsic::bitreverse: code = 15; break;
            case Intrinsic::fabs: code = 16; break; case Intrinsic::floor: code = 17; break; case Intrinsic::ceil: code = 18; break; case Intrinsic::trunc: code = 19; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: code = 20; break; case Intrinsic::round: code = 21; break;
            case Intrinsic::minnum: code = 22; break; case Intrinsic::maxnum: code = 23; break; case Intrinsic::sqrt: code = 24; break; case Intrinsic::fmuladd: code = 25; break; case Intrinsic::copysign: code = 26; break;
            }
            std::vector<Value*> ss, cs;
            for (auto& a : II->args()) { ss.push_back(sh1(a)); cs.push_back(a); }
            if (k == Intrinsic::abs || k == Intrinsic::ctlz || k == Intrinsic::cttz) { ss.resize(1); cs.resize(1); }
            Value* r = ifAny(II, ss, [&](IRBuilder<>& B) -> Value* {
                while (ss.size() < 3) { ss.push_back(Null); cs.push_back(c64(0)); }
                return B.CreateCall(fn("__sx_intr", Ptr, { I32, I32, Ptr, Ptr, Ptr, I64, I64, I64, Ptr }),
                    { c32(code), c32(width(II->getType())), ss[0], ss[1], ss[2], toI64(B, cs[0]), toI64(B, cs[1]), toI64(B, cs[2]), loc() });
            });
            if (!isNull(r)) S[II] = { r };
            break;
        }
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::eh_typeid_for: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing:
        case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::trap: case Intrinsic::prefetch:
            break;
        case Intrinsic::expect:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::ptrmask: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
            if (!isNull(sh1(II->getArgOperand(0)))) S[II] = { sh1(II->getArgOperand(0)) };
            break;
        default:
            for (auto& a : II->args())
                if (!a->getType()->isMetadataTy()) concretize(II, a);
            break;
        }
    }

    void run(Function& fnc)
    {
        F = &fnc;
        S.clear();
        removeUnreachableBlocks(fnc);
        {
            // the normal destination of an invoke must be a private block, so that results can be fetched there
            std::vector<InvokeInst*> inv;
            for (auto& bb : fnc) if (auto* ii = dyn_cast<InvokeInst>(bb.getTerminator())) inv.push_back(ii);
            for (auto* ii : inv) {
                BasicBlock* nd = ii->getNormalDest();
                if (!nd->getSinglePredecessor() || isa<PHINode>(nd->begin())) {
                    BasicBlock* mid = BasicBlock::Create(C, "", &fnc, nd);
                    BranchInst::Create(nd, mid);
                    ii->setNormalDest(mid);
                    for (auto& p : nd->phis()) {
                        int k = p.getBasicBlockIndex(ii->getParent());
                        if (k >= 0) p.setIncomingBlock(k, mid);
                    }
                }
            }
        }
        // entry: fetch parameter shadows
        std::vector<Instruction*> todo;
        std::vector<PHINode*> phis;
        {
            ReversePostOrderTraversal<Function*> rpo(&fnc);
            for (auto* bb : rpo)
                for (auto& i : *bb) {
                    if (auto* p = dyn_cast<PHINode>(&i)) phis.push_back(p);
                    else todo.push_back(&i);
                }
        }
        // strip flags that would license later passes to assume away behaviour we reason about
        for (auto* i : todo) {
            if (isa<OverflowingBinaryOperator>(i) || isa<PossiblyExactOperator>(i) || isa<PossiblyNonNegInst>(i) || isa<GetElementPtrInst>(i)) i->dropPoisonGeneratingFlags();
            if (isa<FPMathOperator>(i)) {}
        }
        // phi shadows
        std::vector<std::pair<PHINode*, std::vector<PHINode*>>> phiSh;
        for (auto* p : phis) {
            auto ls = leaves(p->getType());
            std::vector<PHINode*> ps;
            std::vector<Value*> vs;
            for (auto& l : ls) {
                if (!isScalar(l.first)) { ps.push_back(nullptr); vs.push_back(Null); continue; }
                PHINode* q = PHINode::Create(Ptr, p->getNumIncomingValues(), "", p);
                ps.push_back(q); vs.push_back(q);
            }
            S[p] = vs;
            phiSh.push_back({ p, ps });
        }
        // params
        {
            BasicBlock& eb = fnc.getEntryBlock();
            Instruction* ip = &*eb.getFirstInsertionPt();
            while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
            IRBuilder<> B(ip);
            bool need = false;
            for (auto& a : fnc.args()) need |= true, (void)a;
            if (need) {
                Value* tag = B.CreateLoad(Ptr, Tag);
                Value* mine = B.CreateICmpEQ(tag, &fnc);
                unsigned slot = 0;
                std::vector<std::pair<Argument*, unsigned>> byv;
                unsigned total = 0;
                for (auto& a : fnc.args()) total += a.hasByValAttr() ? 1 : leaves(a.getType()).size();
                if (total <= 60) {
                    for (auto& a : fnc.args()) {
                        if (a.hasByValAttr()) { byv.push_back({ &a, slot }); slot++; continue; }
                        auto ls = leaves(a.getType());
                        std::vector<Value*> vs;
                        for (auto& l : ls) {
                            if (!isScalar(l.first)) { vs.push_back(Null); slot++; continue; }
                            Value* v = B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_64(Args->getValueType(), Args, 0, slot));
                            vs.push_back(B.CreateSelect(mine, v, Null));
                            slot++;
                        }
                        S[&a] = vs;
                    }
                    for (auto& bv : byv) {
                        Value* v = B.CreateLoad(Ptr, B.CreateConstInBoundsGEP2_64(Args->getValueType(), Args, 0, bv.second));
                        Value* src = B.CreateSelect(mine, v, Null);
                        B.CreateCall(fn("__sx_byval", Type::getVoidTy(C), { Ptr, Ptr, I64 }),
                            { bv.first, src, c64(DL.getTypeAllocSize(bv.first->getParamByValType())) });
                    }
                }
                B.CreateStore(Null, Tag);
            }
        }
        for (auto* I : todo) visit(I);
        if (fnc.getName().starts_with("_ZN3fmt2v97vformat")) {
            // renders diagnostics: runs with tracking suspended, the text is concrete
            auto susp = fn("__sx_suspend", Type::getVoidTy(C), { I32 });
            IRBuilder<> B(&*fnc.getEntryBlock().getFirstInsertionPt());
            B.CreateCall(susp, { c32(1) });
            for (auto& bb : fnc) if (isa<ReturnInst>(bb.getTerminator())) { IRBuilder<> R(bb.getTerminator()); R.CreateCall(susp, { c32(0) }); }
        }
        if (Cov) {
            IRBuilder<> B(&*fnc.getEntryBlock().getFirstInsertionPt());
            B.CreateStore(ConstantInt::get(I8, 1), ConstantExpr::getInBoundsGetElementPtr(Cov->getValueType(), Cov, ArrayRef<Constant*>{ c64(0), c64(CovNames.size()) }));
            CovNames.push_back(cast<Constant>(loc()));
        }
        for (auto& ps : phiSh) {
            for (unsigned l = 0; l < ps.second.size(); l++) {
                if (!ps.second[l]) continue;
                for (unsigned i = 0; i < ps.first->getNumIncomingValues(); i++) {
                    auto ss = sh(ps.first->getIncomingValue(i));
                    ps.second[l]->addIncoming(ss[l], ps.first->getIncomingBlock(i));
                }
            }
        }
        // phis that are trivially null
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto& ps : phiSh)
                for (auto*& q : ps.second) {
                    if (!q) continue;
                    bool all = true;
                    for (auto& v : q->incoming_values()) all &= (v == Null || v == q);
                    if (all) { q->replaceAllUsesWith(Null); q->eraseFromParent(); q = nullptr; ch = true; }
                }
        }
    }

    void visit(Instruction* I)
    {
        Type* V = Type::getVoidTy(C);
        if (auto* BO = dyn_cast<BinaryOperator>(I)) {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            if (!isScalar(a->getType())) { concretize(I, a); concretize(I, b); return; }
            Value *sa = sh1(a), *sb = sh1(b);
            Value* r = ifAny(I, { sa, sb }, [&](IRBuilder<>& B) -> Value* {
                return B.CreateCall(fn("__sx_bin", Ptr, { I32, I32, Ptr, Ptr, I64, I64 }),
                    { c32(BO->getOpcode()), c32(width(a->getType())), sa, sb, toI64(B, a), toI64(B, b) });
            });
            if (!isNull(r)) S[I] = { r };
        } else if (auto* UO = dyn_cast<UnaryOperator>(I)) {
            Value* a = UO->getOperand(0);
            if (!isScalar(a->getType())) { concretize(I, a); return; }
            Value* r = ifAny(I, { sh1(a) }, [&](IRBuilder<>& B) -> Value* {
                return B.CreateCall(fn("__sx_fneg", Ptr, { I32, Ptr, I64 }), { c32(width(a->getType())), sh1(a), toI64(B, a) });
            });
            if (!isNull(r)) S[I] = { r };
        } else if (auto* CI = dyn_cast<CmpInst>(I)) {
            Value *a = CI->getOperand(0), *b = CI->getOperand(1);
            if (!isScalar(a->getType())) { concretize(I, a); concretize(I, b); return; }
            Value *sa = sh1(a), *sb = sh1(b);
            Value* r = ifAny(I, { sa, sb }, [&](IRBuilder<>& B) -> Value* {
                return B.CreateCall(fn("__sx_cmp", Ptr, { I32, I32, Ptr, Ptr, I64, I64 }),
                    { c32(CI->getPredicate()), c32(width(a->getType())), sa, sb, toI64(B, a), toI64(B, b) });
            });
            if (!isNull(r)) S[I] = { r };
        } else if (auto* CA = dyn_cast<CastInst>(I)) {
            Value* a = CA->getOperand(0);
            if (!isScalar(a->getType()) || !isScalar(CA->getType())) { concretize(I, a); return; }
            unsigned wf = width(a->getType()), wt = width(CA->getType());
            unsigned op = CA->getOpcode();
            if (op == Instruction::BitCast || op == Instruction::AddrSpaceCast) { if (!isNull(sh1(a))) S[I] = { sh1(a) }; return; }
            if (op == Instruction::PtrToInt || op == Instruction::IntToPtr) op = wt < wf ? Instruction::Trunc : Instruction::ZExt;
            Value* r = ifAny(I, { sh1(a) }, [&](IRBuilder<>& B) -> Value* {
                return B.CreateCall(fn("__sx_cast", Ptr, { I32, I32, I32, Ptr, I64 }), { c32(op), c32(wf), c32(wt), sh1(a), toI64(B, a) });
            });
            if (!isNull(r)) S[I] = { r };
        } else if (auto* SI = dyn_cast<SelectInst>(I)) {
            Value *c = SI->getCondition(), *a = SI->getTrueValue(), *b = SI->getFalseValue();
            if (c->getType()->isVectorTy()) { concretize(I, c); concretize(I, a); concretize(I, b); return; }
            auto ls = leaves(a->getType());
            auto sa = sh(a), sb = sh(b);
            if (ls.size() == 1 && isScalar(ls[0].first)) {
                Value* r = ifAny(I, { sh1(c), sa[0], sb[0] }, [&](IRBuilder<>& B) -> Value* {
                    return B.CreateCall(fn("__sx_select", Ptr, { I32, Ptr, Ptr, Ptr, I64, I64, I64 }),
                        { c32(width(a->getType())), sh1(c), sa[0], sb[0], toI64(B, c), toI64(B, a), toI64(B, b) });
                });
                if (!isNull(r)) S[I] = { r };
            } else {
                concretize(I, c);
                IRBuilder<> B(I);
                std::vector<Value*> out;
                bool any = false;
                for (unsigned i = 0; i < ls.size(); i++) {
                    if (isNull(sa[i]) && isNull(sb[i])) { out.push_back(Null); continue; }
                    out.push_back(B.CreateSelect(c, sa[i], sb[i])); any = true;
                }
                if (any) S[I] = out;
            }
        } else if (auto* LI = dyn_cast<LoadInst>(I)) {
            doLoad(LI, LI->getPointerOperand(), LI->getType());
        } else if (auto* ST = dyn_cast<StoreInst>(I)) {
            if (!isScalar(ST->getValueOperand()->getType()) && leaves(ST->getValueOperand()->getType()).size() == 1) concretize(I, ST->getValueOperand());
            doStore(ST, ST->getPointerOperand(), ST->getValueOperand());
        } else if (auto* RMW = dyn_cast<AtomicRMWInst>(I)) {
            concretize(I, RMW->getPointerOperand()); concretize(I, RMW->getValOperand());
            IRBuilder<> B(I);
            B.CreateCall(fn("__sx_load_opaque", V, { I64, I32, Ptr, Ptr }),
                { B.CreatePtrToInt(RMW->getPointerOperand(), I64), c32(DL.getTypeStoreSize(RMW->getType())), Null, loc() });
        } else if (auto* CX = dyn_cast<AtomicCmpXchgInst>(I)) {
            for (auto& o : CX->operands()) concretize(I, o);
            IRBuilder<> B(I);
            B.CreateCall(fn("__sx_load_opaque", V, { I64, I32, Ptr, Ptr }),
                { B.CreatePtrToInt(CX->getPointerOperand(), I64), c32(DL.getTypeStoreSize(CX->getNewValOperand()->getType())), Null, loc() });
        } else if (auto* G = dyn_cast<GetElementPtrInst>(I)) {
            if (G->getType()->isVectorTy()) return;
            MapVector<Value*, APInt> var;
            APInt off(64, 0);
            std::vector<Value*> ss{ sh1(G->getPointerOperand()) };
            bool anyIdx = false;
            for (auto& ix : G->indices()) if (!isNull(sh1(ix))) anyIdx = true;
            if (isNull(ss[0]) && !anyIdx) return;
            if (!G->collectOffset(DL, 64, var, off)) { for (auto& o : G->operands()) concretize(I, o); return; }
            for (auto& kv : var) ss.push_back(sh1(kv.first));
            Value* r = ifAny(I, ss, [&](IRBuilder<>& B) -> Value* {
                Value* cs = ss[0];
                Value* cc = toI64(B, G->getPointerOperand());
                for (auto& kv : var) {
                    Value* idx = kv.first;
                    unsigned wi = width(idx->getType());
                    Value* ci = B.CreateSExtOrTrunc(idx, I64);
                    cs = B.CreateCall(fn("__sx_addmul", Ptr, { Ptr, I64, Ptr, I64, I32, I64 }),
                        { cs, cc, sh1(idx), ci, c32(wi), c64(kv.second.getZExtValue()) });
                    cc = B.CreateAdd(cc, B.CreateMul(ci, c64(kv.second.getZExtValue())));
                }
                if (off != 0)
                    cs = B.CreateCall(fn("__sx_bin", Ptr, { I32, I32, Ptr, Ptr, I64, I64 }),
                        { c32(Instruction::Add), c32(64), cs, Null, cc, c64(off.getZExtValue()) });
                return cs;
            });
            if (!isNull(r)) S[I] = { r };
        } else if (auto* II = dyn_cast<IntrinsicInst>(I)) {
            instrumentIntrinsic(II);
        } else if (auto* CB = dyn_cast<CallBase>(I)) {
            instrumentCall(CB);
        } else if (auto* EV = dyn_cast<ExtractValueInst>(I)) {
            auto it = S.find(EV->getAggregateOperand());
            if (it == S.end()) return;
            unsigned k = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
            unsigned n = leaves(EV->getType()).size();
            std::vector<Value*> out(it->second.begin() + k, it->second.begin() + k + n);
            S[I] = out;
        } else if (auto* IV = dyn_cast<InsertValueInst>(I)) {
            auto out = sh(IV->getAggregateOperand());
            auto ins = sh(IV->getInsertedValueOperand());
            unsigned k = leafIndex(IV->getType(), IV->getIndices());
            for (unsigned i = 0; i < ins.size(); i++) out[k + i] = ins[i];
            S[I] = out;
        } else if (auto* BI = dyn_cast<BranchInst>(I)) {
            if (!BI->isConditional()) return;
            Value* c = BI->getCondition();
            if (BI->getSuccessor(0) == BI->getSuccessor(1)) return;
            ifAnyVoid(I, { sh1(c) }, [&](IRBuilder<>& B) {
                B.CreateCall(fn("__sx_branch", V, { Ptr, I32, Ptr }), { sh1(c), B.CreateZExt(c, I32), loc() });
            });
        } else if (auto* SW = dyn_cast<SwitchInst>(I)) {
            Value* c = SW->getCondition();
            if (!isScalar(c->getType())) { concretize(I, c); return; }
            if (isNull(sh1(c))) return;
            std::map<BasicBlock*, unsigned> grp;
            grp[SW->getDefaultDest()] = 0;
            std::vector<Constant*> vals, gs;
            for (auto& cs : SW->cases()) {
                auto it = grp.find(cs.getCaseSuccessor());
                unsigned g;
                if (it == grp.end()) { g = grp.size(); grp[cs.getCaseSuccessor()] = g; } else g = it->second;
                vals.push_back(c64(cs.getCaseValue()->getZExtValue()));
                gs.push_back(c32(g));
            }
            auto* va = ConstantArray::get(ArrayType::get(I64, vals.size()), vals);
            auto* ga = ConstantArray::get(ArrayType::get(I32, gs.size()), gs);
            auto* vg = new GlobalVariable(M, va->getType(), true, GlobalValue::PrivateLinkage, va, "__sx_sw");
            auto* gg = new GlobalVariable(M, ga->getType(), true, GlobalValue::PrivateLinkage, ga, "__sx_sg");
            ifAnyVoid(I, { sh1(c) }, [&](IRBuilder<>& B) {
                B.CreateCall(fn("__sx_switch", V, { Ptr, I64, I32, Ptr, Ptr, I32, Ptr }),
                    { sh1(c), toI64(B, c), c32(vals.size()), vg, gg, c32(grp.size()), loc() });
            });
        } else if (auto* RI = dyn_cast<ReturnInst>(I)) {
            Value* v = RI->getReturnValue();
            if (!v) return;
            auto ss = sh(v);
            bool any = false;
            for (auto* s : ss) any |= !isNull(s);
            if (!any || ss.size() > 16) {
                if (any) concretize(I, v);
                return;
            }
            IRBuilder<> B(I);
            for (unsigned i = 0; i < ss.size(); i++)
                B.CreateStore(ss[i], B.CreateConstInBoundsGEP2_64(Ret->getValueType(), Ret, 0, i));
            B.CreateStore(F, RetTag);
        } else if (auto* FI = dyn_cast<FreezeInst>(I)) {
            if (S.count(FI->getOperand(0))) S[I] = S[FI->getOperand(0)];
        } else if (auto* AI = dyn_cast<AllocaInst>(I)) {
            // forget stale shadows of a previous frame at these addresses
            concretize(I, AI->getArraySize());
            Instruction* at = I->getNextNode();
            while (isa<AllocaInst>(at)) at = at->getNextNode();
            IRBuilder<> B(at);
            Value* n = B.CreateMul(B.CreateZExtOrTrunc(AI->getArraySize(), I64), c64(DL.getTypeAllocSize(AI->getAllocatedType())));
            B.CreateCall(fn("__sx_alloca", V, { Ptr, I64 }), { AI, n });
        } else if (I->isTerminator() || isa<LandingPadInst>(I) || isa<FenceInst>(I)) {
            if (isa<IndirectBrInst>(I)) concretize(I, I->getOperand(0));
        } else {
            for (auto& o : I->operands())
                if (!o->getType()->isLabelTy() && !o->getType()->isMetadataTy()) concretize(I, o);
        }
    }
    void registerGlobals()
    {
        Constant* covA = Null; Constant* covN = Null;
        if (Cov && !CovNames.empty()) {
            auto* na = ConstantArray::get(ArrayType::get(Ptr, CovNames.size()), CovNames);
            covN = new GlobalVariable(M, na->getType(), true, GlobalValue::PrivateLinkage, na, "__sx_covn");
            covA = Cov;
        }
        auto* modn = ConstantDataArray::getString(C, M.getSourceFileName());
        auto* modg = new GlobalVariable(M, modn->getType(), true, GlobalValue::PrivateLinkage, modn, "__sx_mod");
        // constructor registering (address,size) of the globals defined here, for symbolic indexing
        std::vector<Constant*> ents;
        auto* ET = StructType::get(C, { Ptr, I64 });
        for (auto& g : M.globals()) {
            if (g.isDeclaration() || g.getName().starts_with("__sx") || g.getName().starts_with("llvm.") || g.isThreadLocal()) continue;
            if (g.getName().starts_with("_ZTV") || g.getName().starts_with("_ZTI") || g.getName().starts_with("_ZTS")) continue;
            if (g.hasAvailableExternallyLinkage() || g.hasComdat()) continue;
            uint64_t sz = DL.getTypeAllocSize(g.getValueType());
            if (sz < 2) continue;
            g.setUnnamedAddr(GlobalValue::UnnamedAddr::None);
            ents.push_back(ConstantStruct::get(ET, { &g, c64(sz) }));
        }
        auto* arr = ConstantArray::get(ArrayType::get(ET, ents.size()), ents);
        auto* gv = new GlobalVariable(M, arr->getType(), false, GlobalValue::PrivateLinkage, arr, "__sx_globals");
        auto* ctor = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::InternalLinkage, "__sx_ctor", M);
        IRBuilder<> B(BasicBlock::Create(C, "", ctor));
        B.CreateCall(fn("__sx_register_globals", Type::getVoidTy(C), { Ptr, I64 }), { gv, c64(ents.size()) });
        B.CreateCall(fn("__sx_register_module", Type::getVoidTy(C), { Ptr, Ptr, Ptr, I64 }), { modg, covA, covN, c64(CovNames.size()) });
        B.CreateRetVoid();
        appendToGlobalCtors(M, ctor, 1);
    }
};

static bool excluded(const Function& f)
{
    StringRef n = f.getName();
    if (n.starts_with("__sx_") || n.starts_with("__clang_call_terminate")) return true;
    if (f.hasFnAttribute("sx-off")) return true;
    // std::regex internals run uninstrumented (font-name matching only).
    if (n.contains("4_NFA") || n.contains("regex") || n.contains("9_Executor") || n.contains("8_Scanner") || n.contains("9_Compiler")) return true;
    return false;
}

// Cases of a switch that only select constants become one case with table lookups (fewer symbolic decisions, same meaning).
static bool mergeSwitch(SwitchInst* SW)
{
    auto* IT = cast<IntegerType>(SW->getCondition()->getType());
    if (IT->getBitWidth() > 64 || SW->getNumCases() < 3) return false;
    BasicBlock* Src = SW->getParent();
    auto fwd = [&](BasicBlock* B) -> BasicBlock* {                   // B is empty and jumps on; all its predecessors are this switch
        if (&B->front() != B->getTerminator()) return nullptr;
        auto* br = dyn_cast<BranchInst>(B->getTerminator());
        if (!br || br->isConditional() || br->getSuccessor(0) == B) return nullptr;
        for (auto* p : predecessors(B)) if (p != Src) return nullptr;
        return br->getSuccessor(0);
    };
    std::map<BasicBlock*, std::vector<std::pair<ConstantInt*, BasicBlock*>>> groups;   // join -> (value, edge source)
    for (auto& cs : SW->cases()) {
        BasicBlock* d = cs.getCaseSuccessor(); BasicBlock* j = fwd(d);
        BasicBlock* from = j ? d : Src;
        if (!j) j = d;
        bool ok = j != Src && isa<PHINode>(j->front());
        for (auto& phi : j->phis()) {
            if (!ok) break;
            if (!phi.getType()->isIntegerTy() || phi.getBasicBlockIndex(from) < 0 || !isa<ConstantInt>(phi.getIncomingValueForBlock(from))) ok = false;
        }
        if (ok) groups[j].push_back({ cs.getCaseValue(), from });
    }
    bool changed = false;
    for (auto& [J, cases] : groups) {
        if (cases.size() < 3) continue;
        APInt lo = cases[0].first->getValue(), hi = lo;
        for (auto& c : cases) { if (c.first->getValue().ult(lo)) lo = c.first->getValue(); if (c.first->getValue().ugt(hi)) hi = c.first->getValue(); }
        if ((hi - lo).ugt(1023)) continue;
        uint64_t n = (hi - lo).getZExtValue() + 1;
        LLVMContext& C = Src->getContext(); Module& M = *Src->getModule();
        auto* NB = BasicBlock::Create(C, "sx.sw", Src->getParent(), J);
        IRBuilder<> B(NB);
        Value* idx = B.CreateZExt(B.CreateSub(SW->getCondition(), ConstantInt::get(C, lo)), Type::getInt64Ty(C));
        std::vector<std::pair<PHINode*, Value*>> add;
        for (auto& phi : J->phis()) {
            bool same = true; Constant* first = cast<Constant>(phi.getIncomingValueForBlock(cases[0].second));
            std::vector<Constant*> tab(n, first);
            unsigned w = phi.getType()->getIntegerBitWidth(), mw = w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64;
            auto* MT = IntegerType::get(C, mw);
            for (auto& t : tab) t = ConstantInt::get(MT, cast<ConstantInt>(first)->getValue().zext(mw));
            for (auto& c : cases) {
                auto* v = cast<ConstantInt>(phi.getIncomingValueForBlock(c.second));
                if (v != first) same = false;
                tab[(c.first->getValue() - lo).getZExtValue()] = ConstantInt::get(MT, v->getValue().zext(mw));
            }
            if (same) { add.push_back({ &phi, first }); continue; }
            auto* ca = ConstantArray::get(ArrayType::get(MT, n), tab);
            auto* gv = new GlobalVariable(M, ca->getType(), true, GlobalValue::PrivateLinkage, ca, "__sx_swtab");
            Value* v = B.CreateLoad(MT, B.CreateInBoundsGEP(ca->getType(), gv, { ConstantInt::get(Type::getInt64Ty(C), 0), idx }));
            add.push_back({ &phi, B.CreateTrunc(v, phi.getType()) });
        }
        B.CreateBr(J);
        std::set<BasicBlock*> emptied; unsigned direct = 0;
        for (auto& c : cases) {
            auto it = SW->findCaseValue(c.first);
            it->setSuccessor(NB);
            if (c.second == Src) direct++; else emptied.insert(c.second);
        }
        for (auto& phi : J->phis()) for (unsigned k = 0; k < direct; k++) phi.removeIncomingValue(Src, false);
        for (auto& a : add) a.first->addIncoming(a.second, NB);
        changed = true;
        (void)emptied;   // the default edge may still use them; unreachable ones are removed below
    }
    return changed;
}

struct SymxPass : PassInfoMixin<SymxPass>
{
    PreservedAnalyses run(Module& M, ModuleAnalysisManager& AM)
    {
        if (M.getNamedMetadata("sx.done")) return PreservedAnalyses::all();
        M.getOrInsertNamedMetadata("sx.done");
        Symx sx(M);
        std::vector<Function*> fs;
        for (auto& f : M)
            if (!f.isDeclaration() && !excluded(f) && !f.hasAvailableExternallyLinkage()) fs.push_back(&f);
        sx.Cov = new GlobalVariable(M, ArrayType::get(Type::getInt8Ty(M.getContext()), fs.size() + 1), false, GlobalValue::InternalLinkage,
            ConstantAggregateZero::get(ArrayType::get(Type::getInt8Ty(M.getContext()), fs.size() + 1)), "__sx_cov");
        for (auto* f : fs) {
            f->removeFnAttr(Attribute::NoUnwind);
            f->removeFnAttr(Attribute::Memory);
            std::vector<SwitchInst*> sws;
            for (auto& b : *f) if (auto* sw = dyn_cast<SwitchInst>(b.getTerminator())) sws.push_back(sw);
            bool ch = false;
            for (auto* sw : sws) ch |= mergeSwitch(sw);
            if (ch) removeUnreachableBlocks(*f);
            sx.run(*f);
        }
        for (auto& f : M) f.removeFnAttr(Attribute::Memory);
        for (auto& f : M) for (auto& b : f) for (auto& i : b)
            if (auto* cb = dyn_cast<CallBase>(&i)) if (!isa<IntrinsicInst>(cb)) cb->removeFnAttr(Attribute::Memory);
        sx.registerGlobals();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return { LLVM_PLUGIN_API_VERSION, "symx", "1", [](PassBuilder& PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) {
            MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass()));
            MPM.addPass(SymxPass());
        });
    } };
}
