// Bitcode preparation shared by the symbolic engine and the native replay.
//   rsx instrument IN -o OUT [--yield id,id,...] [--native] [--acc] [--mark]
// Numbers every memory access (metadata rsxid), inserts __rsx_yield before atomic accesses and before the listed
// plain accesses, and (native) redirects environment functions to the replay shim.
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Verifier.h>
#include <set>
#include <map>
#include <string>
#include <vector>
using namespace llvm;
int instrumentMain(int argc, char **argv) {
    std::string in, out; std::set<unsigned> ids; bool native = false, acc = false, mark = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-o") out = argv[++i]; else if (a == "--native") native = true; else if (a == "--acc") acc = true; else if (a == "--mark") mark = true; else if (a == "--yield") { std::string l = argv[++i]; size_t p = 0; while (p < l.size()) { size_t q = l.find(',', p); if (q == std::string::npos) q = l.size(); if (q > p) ids.insert(std::stoul(l.substr(p, q - p))); p = q + 1; } } else in = a; }
    LLVMContext cx; SMDiagnostic err; auto M = parseIRFile(in, err, cx); if (!M) { err.print("rsx", errs()); return 3; }
    Type *V = Type::getVoidTy(cx), *I32 = Type::getInt32Ty(cx), *I64 = Type::getInt64Ty(cx); PointerType *P = PointerType::getUnqual(cx);
    if (mark) { for (auto &F : *M) if (!F.isDeclaration()) F.setSection("rsx_model"); }
    else {
        auto yf = M->getOrInsertFunction("__rsx_yield", FunctionType::get(V, {I32}, false)); cast<Function>(yf.getCallee())->setDoesNotThrow();
        FunctionCallee af; if (acc) { af = M->getOrInsertFunction("__rsx_acc", FunctionType::get(V, {P, I64, I32, I32}, false)); cast<Function>(af.getCallee())->setDoesNotThrow(); }
        unsigned id = 0; const DataLayout &DL = M->getDataLayout();
        for (auto &F : *M) {
            if (F.isDeclaration()) continue;
            std::vector<Instruction *> L; for (auto &B : F) for (auto &I : B) if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<CallBase>(I)) L.push_back(&I);
            for (auto *I : L) {
                unsigned my = id++; I->setMetadata("rsxid", MDNode::get(cx, ConstantAsMetadata::get(ConstantInt::get(I64, my))));
                bool at = I->isAtomic(); if (isa<CallBase>(I) && !isa<MemIntrinsic>(I) && !ids.count(my)) continue;
                IRBuilder<> b(I); b.SetCurrentDebugLocation(I->getDebugLoc());
                if (at || ids.count(my)) b.CreateCall(yf, {ConstantInt::get(I32, my)});
                if (acc) {
                    int hb = 0; { AtomicOrdering o = AtomicOrdering::NotAtomic; bool ld = true, st = true; if (auto *X = dyn_cast<LoadInst>(I)) { o = X->getOrdering(); st = false; } else if (auto *X = dyn_cast<StoreInst>(I)) { o = X->getOrdering(); ld = false; } else if (auto *X = dyn_cast<AtomicRMWInst>(I)) o = X->getOrdering(); else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) o = X->getSuccessOrdering();
                        if (at && ld && isAcquireOrStronger(o)) hb |= 4; if (at && st && isReleaseOrStronger(o)) hb |= 8; }
                    auto rec = [&](Value *p, Value *n, int wr) { b.CreateCall(af, {p, b.CreateZExtOrTrunc(n, I64), ConstantInt::get(I32, wr | (at ? 2 : 0) | hb), ConstantInt::get(I32, my)}); };
                    auto sz = [&](Type *T) { return ConstantInt::get(I64, DL.getTypeStoreSize(T)); };
                    if (auto *X = dyn_cast<LoadInst>(I)) rec(X->getPointerOperand(), sz(X->getType()), 0); else if (auto *X = dyn_cast<StoreInst>(I)) rec(X->getPointerOperand(), sz(X->getValueOperand()->getType()), 1);
                    else if (auto *X = dyn_cast<AtomicRMWInst>(I)) rec(X->getPointerOperand(), sz(X->getType()), 1); else if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) rec(X->getPointerOperand(), sz(X->getNewValOperand()->getType()), 1);
                    else if (auto *X = dyn_cast<MemTransferInst>(I)) { rec(X->getSource(), X->getLength(), 0); rec(X->getDest(), X->getLength(), 1); } else if (auto *X = dyn_cast<MemSetInst>(I)) rec(X->getDest(), X->getLength(), 1);
                }
            }
        }
        if (native) {
            for (auto &F : *M) {
                if (!F.isDeclaration() || F.isIntrinsic()) continue; std::string n = F.getName().str();
                static const std::set<std::string> ex = {"malloc", "free", "calloc", "aligned_alloc", "posix_memalign", "nanosleep", "clock_nanosleep", "usleep", "sched_yield", "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t",
                    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableD2Ev", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"};
                if (ex.count(n) || (n.rfind("pthread_", 0) == 0 && (n.find("mutex") != std::string::npos || n.find("cond") != std::string::npos)) || n.find("this_thread11__sleep_for") != std::string::npos) F.setName("rsxn_" + n);
            }
        }
    }
    if (verifyModule(*M, &errs())) return 3;
    std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 3; WriteBitcodeToFile(*M, os); return 0;
}
