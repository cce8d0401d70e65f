// LLVM 18 pass plugin: rewrites every floating point operation of a module into a call to the
// symbolic runtime (runtime.cpp).  Doubles/floats keep their machine representation; a symbolic value
// is a NaN with a tag and a handle in its payload ("NaN box"), so it travels unchanged through memory,
// containers, calls and returns.  Runs at the start of the optimisation pipeline (un-optimised IR).
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace llvm;

namespace
{
    // libm / libc functions whose uses (calls and address-taken uses) are redirected to __sy_<name>
    const char* kRedirect[] = {
        "sin",   "cos",   "tan",   "asin",   "acos",   "atan",  "atan2",  "sqrt",  "pow",   "exp",    "log",   "log10", "log2",  "fabs",   "floor",
        "ceil",  "round", "trunc", "fmod",   "hypot",  "fmin",  "fmax",   "lround", "llround", "lrint", "rint",  "nearbyint", "cbrt", "copysign", "sinh", "cosh", "tanh",
        "sinf",  "cosf",  "tanf",  "asinf",  "acosf",  "atanf", "atan2f", "sqrtf", "powf",  "expf",   "logf",  "fabsf", "floorf", "ceilf", "roundf", "truncf",
        "fmodf", "hypotf", "fminf", "fmaxf", "strtod", "atof",  "modf",  "remainder"};

    struct FpSym : PassInfoMixin<FpSym>
    {
        static bool isRequired() { return true; }

        PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
        {
            LLVMContext& C   = M.getContext();
            Type*        Dbl = Type::getDoubleTy(C);
            Type*        Flt = Type::getFloatTy(C);
            Type*        I64 = Type::getInt64Ty(C);
            Type*        I32 = Type::getInt32Ty(C);

            auto fn = [&](const std::string& name, Type* ret, std::vector<Type*> args) -> FunctionCallee {
                return M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
            };

            std::vector<Instruction*> work;
            for (Function& F : M)
            {
                if (F.isDeclaration() || F.getName().startswith("__sy_"))
                    continue;
                for (Instruction& I : instructions(F))
                    work.push_back(&I);
            }

            for (Instruction* I : work)
            {
                IRBuilder<> B(I);
                auto        suffix = [&](Type* T) { return T->isFloatTy() ? std::string("f") : std::string(""); };
                auto        isfp   = [&](Type* T) { return T->isDoubleTy() || T->isFloatTy(); };
                auto        warn   = [&](const char* what) {
                    if (getenv("VF_PASS_VERBOSE"))
                        errs() << "fpsym: unhandled " << what << " in " << I->getFunction()->getName() << ": " << *I << "\n";
                };

                if (auto* BO = dyn_cast<BinaryOperator>(I))
                {
                    const char* n = nullptr;
                    switch (BO->getOpcode())
                    {
                        case Instruction::FAdd: n = "__sy_fadd"; break;
                        case Instruction::FSub: n = "__sy_fsub"; break;
                        case Instruction::FMul: n = "__sy_fmul"; break;
                        case Instruction::FDiv: n = "__sy_fdiv"; break;
                        case Instruction::FRem: n = "__sy_fmod"; break;
                        default: break;
                    }
                    if (!n)
                        continue;
                    Type* T = BO->getType();
                    if (!isfp(T))
                    {
                        warn("binop type");
                        continue;
                    }
                    Value* R = B.CreateCall(fn(n + suffix(T), T, {T, T}), {BO->getOperand(0), BO->getOperand(1)});
                    I->replaceAllUsesWith(R);
                    I->eraseFromParent();
                }
                else if (I->getOpcode() == Instruction::FNeg)
                {
                    Type* T = I->getType();
                    if (!isfp(T))
                    {
                        warn("fneg type");
                        continue;
                    }
                    Value* R = B.CreateCall(fn("__sy_fneg" + suffix(T), T, {T}), {I->getOperand(0)});
                    I->replaceAllUsesWith(R);
                    I->eraseFromParent();
                }
                else if (auto* FC = dyn_cast<FCmpInst>(I))
                {
                    Type* T = FC->getOperand(0)->getType();
                    if (!isfp(T))
                    {
                        warn("fcmp type");
                        continue;
                    }
                    Value* R = B.CreateCall(fn("__sy_fcmp" + suffix(T), I32, {I32, T, T}),
                                            {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
                    R        = B.CreateICmpNE(R, ConstantInt::get(I32, 0));
                    I->replaceAllUsesWith(R);
                    I->eraseFromParent();
                }
                else if (auto* CI = dyn_cast<CastInst>(I))
                {
                    Type*  S = CI->getSrcTy();
                    Type*  D = CI->getDestTy();
                    Value* V = CI->getOperand(0);
                    Value* R = nullptr;
                    if (CI->getOpcode() == Instruction::FPToSI || CI->getOpcode() == Instruction::FPToUI)
                    {
                        if (!isfp(S) || !D->isIntegerTy() || D->getIntegerBitWidth() > 64)
                        {
                            warn("fptoint type");
                            continue;
                        }
                        if (S->isFloatTy())
                            V = B.CreateCall(fn("__sy_fpext", Dbl, {Flt}), {V});
                        R = B.CreateCall(fn(CI->getOpcode() == Instruction::FPToSI ? "__sy_fptosi" : "__sy_fptoui", I64, {Dbl, I32}),
                                         {V, ConstantInt::get(I32, D->getIntegerBitWidth())});
                        R = B.CreateTruncOrBitCast(R, D);
                    }
                    else if (CI->getOpcode() == Instruction::FPTrunc)
                    {
                        if (S->isDoubleTy() && D->isFloatTy())
                            R = B.CreateCall(fn("__sy_fptrunc", Flt, {Dbl}), {V});
                        else
                        {
                            warn("fptrunc type");
                            continue;
                        }
                    }
                    else if (CI->getOpcode() == Instruction::FPExt)
                    {
                        if (S->isFloatTy() && D->isDoubleTy())
                            R = B.CreateCall(fn("__sy_fpext", Dbl, {Flt}), {V});
                        else if (S->isDoubleTy())
                        {
                            Value* V2 = B.CreateCall(fn("__sy_concretize", Dbl, {Dbl}), {V});
                            CI->setOperand(0, V2);
                            continue;
                        }
                        else
                        {
                            warn("fpext type");
                            continue;
                        }
                    }
                    else if (CI->getOpcode() == Instruction::BitCast && isfp(S) && D->isIntegerTy())
                    {
                        if (S->isFloatTy())
                        {
                            V = B.CreateCall(fn("__sy_concretizef", Flt, {Flt}), {V});
                            CI->setOperand(0, V);
                            continue;
                        }
                        // pattern: signbit
                        bool allsign = !CI->use_empty();
                        for (User* U : CI->users())
                        {
                            auto* IC = dyn_cast<ICmpInst>(U);
                            if (!(IC && IC->getPredicate() == CmpInst::ICMP_SLT && isa<ConstantInt>(IC->getOperand(1)) &&
                                  cast<ConstantInt>(IC->getOperand(1))->isZero()))
                                allsign = false;
                        }
                        Value* V2 = B.CreateCall(fn(allsign ? "__sy_signval" : "__sy_concretize", Dbl, {Dbl}), {V});
                        CI->setOperand(0, V2);
                        continue;
                    }
                    else
                        continue;
                    I->replaceAllUsesWith(R);
                    I->eraseFromParent();
                }
                else if (auto* II = dyn_cast<IntrinsicInst>(I))
                {
                    Type*       T = II->getType();
                    const char* n = nullptr;
                    unsigned    na = 1;
                    switch (II->getIntrinsicID())
                    {
                        case Intrinsic::fabs: n = "__sy_fabs"; break;
                        case Intrinsic::sqrt: n = "__sy_sqrt"; break;
                        case Intrinsic::floor: n = "__sy_floor"; break;
                        case Intrinsic::ceil: n = "__sy_ceil"; break;
                        case Intrinsic::trunc: n = "__sy_trunc"; break;
                        case Intrinsic::round: n = "__sy_round"; break;
                        case Intrinsic::rint: n = "__sy_rint"; break;
                        case Intrinsic::nearbyint: n = "__sy_nearbyint"; break;
                        case Intrinsic::sin: n = "__sy_sin"; break;
                        case Intrinsic::cos: n = "__sy_cos"; break;
                        case Intrinsic::exp: n = "__sy_exp"; break;
                        case Intrinsic::log: n = "__sy_log"; break;
                        case Intrinsic::pow: n = "__sy_pow"; na = 2; break;
                        case Intrinsic::copysign: n = "__sy_copysign"; na = 2; break;
                        case Intrinsic::minnum: n = "__sy_fmin"; na = 2; break;
                        case Intrinsic::maxnum: n = "__sy_fmax"; na = 2; break;
                        case Intrinsic::is_fpclass:
                        {
                            Type* S = II->getArgOperand(0)->getType();
                            if (!isfp(S))
                            {
                                warn("fpclass");
                                continue;
                            }
                            Value* V = II->getArgOperand(0);
                            if (S->isFloatTy())
                                V = B.CreateCall(fn("__sy_fpext", Dbl, {Flt}), {V});
                            Value* R = B.CreateCall(fn("__sy_fpclass", I32, {Dbl, I32}), {V, II->getArgOperand(1)});
                            R        = B.CreateICmpNE(R, ConstantInt::get(I32, 0));
                            I->replaceAllUsesWith(R);
                            I->eraseFromParent();
                            continue;
                        }
                        case Intrinsic::fmuladd:
                        case Intrinsic::fma:
                        {
                            if (!isfp(T))
                            {
                                warn("fma");
                                continue;
                            }
                            Value* R = B.CreateCall(fn("__sy_fmul" + suffix(T), T, {T, T}), {II->getArgOperand(0), II->getArgOperand(1)});
                            R        = B.CreateCall(fn("__sy_fadd" + suffix(T), T, {T, T}), {R, II->getArgOperand(2)});
                            I->replaceAllUsesWith(R);
                            I->eraseFromParent();
                            continue;
                        }
                        default: break;
                    }
                    if (!n)
                    {
                        if (T->isFPOrFPVectorTy())
                            warn("intrinsic");
                        continue;
                    }
                    if (!isfp(T))
                    {
                        warn("intrinsic type");
                        continue;
                    }
                    std::vector<Value*> args;
                    std::vector<Type*>  tys;
                    for (unsigned i = 0; i < na; i++)
                    {
                        args.push_back(II->getArgOperand(i));
                        tys.push_back(T);
                    }
                    Value* R = B.CreateCall(fn(n + suffix(T), T, tys), args);
                    I->replaceAllUsesWith(R);
                    I->eraseFromParent();
                }
            }

            // numbers written to and read from text outside strtod
            if (Function* F = M.getFunction("_ZNSt7__cxx119to_stringEd"))
                F->replaceAllUsesWith(M.getOrInsertFunction("__sy_to_string", F->getFunctionType()).getCallee());
            if (Function* F = M.getFunction("expr_parse_number"))
                for (User* U : std::vector<User*>(F->user_begin(), F->user_end()))
                    if (auto* CB = dyn_cast<CallInst>(U))
                    {
                        IRBuilder<> B(CB->getNextNode());
                        CallInst*   R = B.CreateCall(fn("__sy_token", Dbl, {Dbl}), {CB});
                        CB->replaceUsesWithIf(R, [&](Use& u) { return u.getUser() != R; });
                    }

            for (const char* n : kRedirect)
            {
                Function* F = M.getFunction(n);
                if (!F || !F->isDeclaration())
                    continue;
                FunctionCallee G = M.getOrInsertFunction(std::string("__sy_") + n, F->getFunctionType());
                // drop attributes (readnone etc.): the runtime forks
                for (User* U : std::vector<User*>(F->user_begin(), F->user_end()))
                {
                    if (auto* CB = dyn_cast<CallBase>(U))
                        if (CB->getCalledOperand() == F)
                        {
                            AttributeList AL = CB->getAttributes();
                            CB->setAttributes(AL.removeFnAttribute(C, Attribute::Memory).removeFnAttribute(C, Attribute::WillReturn));
                        }
                }
                F->replaceAllUsesWith(G.getCallee());
            }
            return PreservedAnalyses::none();
        }
    };
}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "fpsym", "1", [](PassBuilder& PB) {
                PB.registerPipelineStartEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(FpSym()); });
            }};
}
