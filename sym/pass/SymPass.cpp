// LLVM-18 pass plugin: rewrites every floating-point operation of the compiled
// C kernels into a call of the symbolic runtime (see ../harness/src/rt.rs).
// Concrete operands are computed natively by the runtime, so an instrumented
// program run on plain numbers behaves like the original one.
#include "llvm/IR/Constants.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
static const std::map<std::string, int> UnKinds = {
    {"fabs", 1}, {"sqrt", 2}, {"exp", 3}, {"exp2", 4}, {"log", 5}, {"log2", 6}, {"log10", 7},
    {"sin", 8}, {"cos", 9}, {"tan", 10}, {"asin", 11}, {"acos", 12}, {"atan", 13}, {"sinh", 14},
    {"cosh", 15}, {"tanh", 16}, {"asinh", 17}, {"acosh", 18}, {"atanh", 19}, {"erf", 20},
    {"floor", 21}, {"ceil", 22}, {"round", 23}, {"trunc", 24}, {"expm1", 25}, {"log1p", 26},
    {"cbrt", 27}, {"exp10", 28}, {"rint", 29}, {"nearbyint", 29}, {"roundeven", 29}, {"erfc", 30}};
static const std::map<std::string, int> BinKinds = {
    {"pow", 1}, {"fmax", 2}, {"fmin", 3}, {"maxnum", 2}, {"minnum", 3}, {"copysign", 4},
    {"fmod", 5}, {"atan2", 6}, {"hypot", 7}, {"maximum", 2}, {"minimum", 3}};

struct Sym {
  Module &M;
  LLVMContext &C;
  Type *F32, *F64, *I32, *I64, *I1;
  Sym(Module &M) : M(M), C(M.getContext()) {
    F32 = Type::getFloatTy(C); F64 = Type::getDoubleTy(C);
    I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); I1 = Type::getInt1Ty(C);
  }
  bool isF(Type *T) { return T == F32 || T == F64; }
  bool isFV(Type *T) {
    if (isF(T)) return true;
    if (auto *V = dyn_cast<FixedVectorType>(T)) return isF(V->getElementType());
    return false;
  }
  std::string sfx(Type *T) { return T == F32 ? "f32" : "f64"; }
  FunctionCallee fn(const std::string &N, Type *R, ArrayRef<Type *> A) {
    return M.getOrInsertFunction(N, FunctionType::get(R, A, false));
  }
  Value *un(IRBuilder<> &B, int k, Value *x) {
    Type *T = x->getType();
    return B.CreateCall(fn("__sym_un_" + sfx(T), T, {I32, T}), {ConstantInt::get(I32, k), x});
  }
  Value *bin(IRBuilder<> &B, int k, Value *x, Value *y) {
    Type *T = x->getType();
    return B.CreateCall(fn("__sym_bin_" + sfx(T), T, {I32, T, T}), {ConstantInt::get(I32, k), x, y});
  }
  Value *op(IRBuilder<> &B, const char *n, Value *x, Value *y) {
    Type *T = x->getType();
    return B.CreateCall(fn(std::string("__sym_") + n + "_" + sfx(T), T, {T, T}), {x, y});
  }
  Value *cmp(IRBuilder<> &B, int p, Value *x, Value *y) {
    Type *T = x->getType();
    Value *r = B.CreateCall(fn("__sym_cmp_" + sfx(T), I32, {I32, T, T}), {ConstantInt::get(I32, p), x, y});
    return B.CreateICmpNE(r, ConstantInt::get(I32, 0));
  }
  Value *sel(IRBuilder<> &B, int p, Value *a, Value *b, Value *x, Value *y) {
    Type *T = a->getType(), *R = x->getType();
    return B.CreateCall(fn("__sym_sel_" + sfx(T) + "_" + sfx(R), R, {I32, T, T, R, R}),
                        {ConstantInt::get(I32, p), a, b, x, y});
  }
  // apply f to each lane
  template <class F> Value *lanes(IRBuilder<> &B, Type *RT, Type *AT, F f) {
    if (auto *V = dyn_cast<FixedVectorType>(RT)) {
      Value *r = PoisonValue::get(RT);
      for (unsigned i = 0; i < V->getNumElements(); i++) r = B.CreateInsertElement(r, f((int)i), (uint64_t)i);
      return r;
    }
    return f(-1);
  }
  Value *ext(IRBuilder<> &B, Value *v, int i) {
    return i < 0 ? v : B.CreateExtractElement(v, (uint64_t)i);
  }

  bool run() {
    std::vector<Instruction *> W;
    for (auto &F : M)
      if (!F.isDeclaration())
        for (auto &I : instructions(F)) W.push_back(&I);
    std::set<Instruction *> dead;
    for (auto *I : W) {
      if (dead.count(I)) continue;
      IRBuilder<> B(I);
      Value *R = nullptr;
      Type *T = I->getType();
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        if (!isFV(T)) continue;
        const char *n = nullptr;
        switch (BO->getOpcode()) {
        case Instruction::FAdd: n = "add"; break;
        case Instruction::FSub: n = "sub"; break;
        case Instruction::FMul: n = "mul"; break;
        case Instruction::FDiv: n = "div"; break;
        case Instruction::FRem: n = "rem"; break;
        default: continue;
        }
        R = lanes(B, T, T, [&](int i) { return op(B, n, ext(B, BO->getOperand(0), i), ext(B, BO->getOperand(1), i)); });
      } else if (auto *U = dyn_cast<UnaryOperator>(I)) {
        if (!isFV(T) || U->getOpcode() != Instruction::FNeg) continue;
        R = lanes(B, T, T, [&](int i) { return un(B, 0, ext(B, U->getOperand(0), i)); });
      } else if (auto *FC = dyn_cast<FCmpInst>(I)) {
        if (!isFV(FC->getOperand(0)->getType())) continue;
        // selects of floats on this compare become if-then-else terms
        if (isF(FC->getOperand(0)->getType())) {
          std::vector<SelectInst *> S;
          for (auto *u : FC->users())
            if (auto *s = dyn_cast<SelectInst>(u))
              if (s->getCondition() == FC && isF(s->getType())) S.push_back(s);
          for (auto *s : S) {
            if (dead.count(s)) continue;
            IRBuilder<> B2(s);
            Value *r = sel(B2, FC->getPredicate(), FC->getOperand(0), FC->getOperand(1), s->getTrueValue(), s->getFalseValue());
            s->replaceAllUsesWith(r);
            dead.insert(s);
          }
          for (auto *s : S) { if (s->getParent()) s->eraseFromParent(); }
          if (FC->use_empty()) { dead.insert(FC); FC->eraseFromParent(); continue; }
        }
        R = lanes(B, T, T, [&](int i) { return cmp(B, FC->getPredicate(), ext(B, FC->getOperand(0), i), ext(B, FC->getOperand(1), i)); });
      } else if (auto *CI = dyn_cast<CastInst>(I)) {
        Type *S = CI->getSrcTy();
        unsigned o = CI->getOpcode();
        if (o == Instruction::FPTrunc || o == Instruction::FPExt) {
          if (!isF(S) || !isF(T)) continue;
          R = B.CreateCall(fn(o == Instruction::FPTrunc ? "__sym_trunc" : "__sym_ext", T, {S}), {CI->getOperand(0)});
        } else if ((o == Instruction::FPToSI || o == Instruction::FPToUI) && isF(S) && T->isIntegerTy()) {
          // concrete unless the operand is symbolic, which the runtime refuses
          B.CreateCall(fn("__sym_toint_" + sfx(S), Type::getVoidTy(C), {S}), {CI->getOperand(0)});
          continue;
        } else continue;
      } else if (auto *CB = dyn_cast<CallInst>(I)) {
        Function *F = CB->getCalledFunction();
        if (!F) continue;
        std::string n = F->getName().str();
        if (n.rfind("__sym_", 0) == 0) continue;
        if (n == "pthread_create" || n == "pthread_join") {
          F->setName("__sym_" + n);
          continue;
        }
        if (n.rfind("llvm.x86.sse", 0) == 0) {
          int k = n.find(".max.") != std::string::npos ? 1 : n.find(".min.") != std::string::npos ? 2 : 0;
          if (!k) { if (isFV(T)) report_fatal_error(Twine("unhandled intrinsic ") + n); continue; }
          bool ss = n.substr(n.size() - 2) == "ss" || n.substr(n.size() - 2) == "sd";
          auto f = [&](int i) {
            Value *a = ext(B, CB->getArgOperand(0), i), *b = ext(B, CB->getArgOperand(1), i);
            return sel(B, k == 1 ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b, a, b);
          };
          if (ss) R = B.CreateInsertElement(CB->getArgOperand(0), f(0), (uint64_t)0);
          else R = lanes(B, T, T, f);
        } else if (n.rfind("llvm.", 0) == 0) {
          if (!isFV(T)) continue;
          std::string b = n.substr(5);
          b = b.substr(0, b.find('.'));
          if (b == "fma" || b == "fmuladd") {
            R = lanes(B, T, T, [&](int i) {
              return op(B, "add", op(B, "mul", ext(B, CB->getArgOperand(0), i), ext(B, CB->getArgOperand(1), i)), ext(B, CB->getArgOperand(2), i));
            });
          } else if (b == "powi") {
            if (!isF(T)) report_fatal_error("powi vector");
            Value *e = B.CreateSIToFP(CB->getArgOperand(1), T);
            R = bin(B, 1, CB->getArgOperand(0), e);
          } else if (b == "vector") {
            report_fatal_error(Twine("unhandled intrinsic ") + n);
          } else if (UnKinds.count(b)) {
            R = lanes(B, T, T, [&](int i) { return un(B, UnKinds.at(b), ext(B, CB->getArgOperand(0), i)); });
          } else if (BinKinds.count(b)) {
            R = lanes(B, T, T, [&](int i) { return bin(B, BinKinds.at(b), ext(B, CB->getArgOperand(0), i), ext(B, CB->getArgOperand(1), i)); });
          } else {
            report_fatal_error(Twine("unhandled intrinsic ") + n);
          }
        } else if (F->isDeclaration() && isF(T)) {
          std::string b = n;
          if (T == F32 && !b.empty() && b.back() == 'f' && b != "erf") b.pop_back();
          if (UnKinds.count(b) && CB->arg_size() == 1) R = un(B, UnKinds.at(b), CB->getArgOperand(0));
          else if (BinKinds.count(b) && CB->arg_size() == 2) R = bin(B, BinKinds.at(b), CB->getArgOperand(0), CB->getArgOperand(1));
          else continue;
        } else continue;
      } else if (auto *SI = dyn_cast<SelectInst>(I)) {
        (void)SI;
        continue;
      } else continue;
      if (R) {
        I->replaceAllUsesWith(R);
        dead.insert(I);
        I->eraseFromParent();
      }
    }
    return true;
  }
};

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    Sym(M).run();
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
            PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
          }};
}
