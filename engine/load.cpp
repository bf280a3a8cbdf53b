// Loading and decoding of LLVM bitcode.
#include "rsx.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
using namespace llvm;
namespace rsx {
static const uint64_t BASE = 0x100000000000ull, FUNC = 0x400000ull;

uint32_t Engine::newSlot(uint64_t size, const string &name) {
    uint64_t units = (size + (2u << 20)) >> 24; units++;
    uint32_t head = slotHead.size();
    for (uint64_t i = 0; i < units; i++) { slotHead.push_back(head); slotBase.push_back(BASE + ((uint64_t)head << 24) + 0x100000); slotName.push_back(""); constBySlot.push_back(nullptr); }
    slotName[head] = name; return head;
}
void Engine::flat(Type *T, uint64_t off, vector<std::pair<uint32_t, uint32_t>> &out) {
    if (T->isIntegerTy()) { unsigned w = T->getIntegerBitWidth(); if (w > 64) throw Unsupported{"integer wider than 64 bits"}; out.push_back({(uint32_t)off, w}); }
    else if (T->isPointerTy()) out.push_back({(uint32_t)off, 64});
    else if (T->isFloatTy()) out.push_back({(uint32_t)off, 32}); else if (T->isDoubleTy()) out.push_back({(uint32_t)off, 64});
    else if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) flat(ST->getElementType(i), off + L->getElementOffset(i), out); }
    else if (auto *AT = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements(); i++) flat(AT->getElementType(), off + i * es, out); }
    else if (T->isVoidTy()) {}
    else throw Unsupported{"unsupported type"};
}
int Engine::flatN(Type *T) { vector<std::pair<uint32_t, uint32_t>> v; flat(T, 0, v); return v.size(); }

uint64_t Engine::constAddr(const Constant *C) { vector<E> v; constVal(C, v); if (v.size() != 1 || !Ctx::isC(v[0])) throw Unsupported{"constant address"}; return v[0]->k; }
void Engine::constVal(const Constant *C, vector<E> &out) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) throw Unsupported{"constant wider than 64 bits"}; out.push_back(cx.c(CI->getZExtValue(), CI->getBitWidth())); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back(cx.c(0, 64)); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { vector<std::pair<uint32_t, uint32_t>> l; flat(C->getType(), 0, l); for (auto &x : l) out.push_back(cx.c(0, x.second)); return; }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { auto b = CF->getValueAPF().bitcastToAPInt(); out.push_back(cx.c(b.getZExtValue(), b.getBitWidth())); return; }
    if (auto *F = dyn_cast<Function>(C)) { out.push_back(cx.c(getFn(F)->addr, 64)); return; }
    if (auto *G = dyn_cast<GlobalVariable>(C)) { auto it = gslot.find(G); if (it == gslot.end()) throw Unsupported{"global without address"}; out.push_back(cx.c(slotBase[it->second], 64)); return; }
    if (auto *A = dyn_cast<GlobalAlias>(C)) { constVal(A->getAliasee(), out); return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constVal(CD->getElementAsConstant(i), out); return; }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (auto &op : CA->operands()) constVal(cast<Constant>(op), out); return; }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"}; vector<E> b; constVal(CE->getOperand(0), b); out.push_back(cx.add(b[0], cx.c(off.getZExtValue(), 64))); return; }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: constVal(CE->getOperand(0), out); return;
        case Instruction::IntToPtr: case Instruction::PtrToInt: { vector<E> b; constVal(CE->getOperand(0), b); unsigned w = CE->getType()->isPointerTy() ? 64 : CE->getType()->getIntegerBitWidth(); E e = b[0]; e = e->w < w ? cx.zext(e, w) : e->w > w ? cx.extract(e, 0, w) : e; out.push_back(e); return; }
        case Instruction::Sub: case Instruction::Add: case Instruction::Trunc: { vector<E> a, b; constVal(CE->getOperand(0), a); if (CE->getOpcode() == Instruction::Trunc) { out.push_back(cx.extract(a[0], 0, CE->getType()->getIntegerBitWidth())); return; } constVal(CE->getOperand(1), b); out.push_back(CE->getOpcode() == Instruction::Sub ? cx.sub(a[0], b[0]) : cx.add(a[0], b[0])); return; }
        case Instruction::ICmp: { vector<E> a, b; constVal(CE->getOperand(0), a); constVal(CE->getOperand(1), b); if (CE->getPredicate() == CmpInst::ICMP_EQ) out.push_back(cx.eq(a[0], b[0])); else if (CE->getPredicate() == CmpInst::ICMP_NE) out.push_back(cx.lnot(cx.eq(a[0], b[0]))); else throw Unsupported{"constant icmp"}; return; }
        default: throw Unsupported{string("constant expression ") + CE->getOpcodeName()};
        }
    }
    throw Unsupported{"constant"};
}
void Engine::initConst(Obj *o, uint64_t off, const Constant *C) {
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { uint64_t n = DL->getTypeAllocSize(C->getType()); for (uint64_t i = 0; i < n; i++) writeConst(o, off + i, cx.c(0, 8)); return; }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) initConst(o, off + L->getElementOffset(i), CS->getOperand(i)); return; }
    if (auto *CA = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) initConst(o, off + i * es, CA->getOperand(i)); return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = DL->getTypeAllocSize(CD->getElementType()); for (unsigned i = 0; i < CD->getNumElements(); i++) initConst(o, off + i * es, CD->getElementAsConstant(i)); return; }
    vector<E> v; constVal(C, v); E e = v[0]; if (e->w % 8) e = cx.zext(e, (e->w + 7) / 8 * 8); writeConst(o, off, e);
}
Fn *Engine::getFn(const Function *F) {
    auto it = fnOf.find(F); if (it != fnOf.end()) return it->second;
    auto f = std::make_unique<Fn>(); f->F = F; f->name = F->getName().str(); f->id = fns.size(); f->addr = FUNC + 16ull * f->id; f->hasBody = !F->isDeclaration();
    f->model = F->getSection() == "rsx_model"; f->retN = F->getReturnType()->isVoidTy() ? 0 : -1;
    Fn *r = f.get(); fnOf[F] = r; fnAt[r->addr] = r; fns.push_back(std::move(f)); return r;
}
void Engine::load() {
    lctx = std::make_unique<LLVMContext>(); SMDiagnostic err; mod = parseIRFile(opt.bc, err, *lctx);
    if (!mod) { throw Unsupported{"cannot read " + opt.bc + ": " + err.getMessage().str()}; }
    DL = &mod->getDataLayout();
    for (int i = 0; i < 4; i++) newSlot(16, "");
    for (auto &F : *mod) getFn(&F);
    for (auto &F : *mod) if (!F.isDeclaration() && fnOf[&F]->handler < 0) {
        StringRef n = F.getName();
        if (n.starts_with("vp_") || n.starts_with("__rsx") || n.starts_with("pthread_") || n.starts_with("__cxa") || n.starts_with("_Zn") || n.starts_with("_Zd") ) fnOf[&F]->model = true;
    }
}
void Engine::layoutGlobals(State &s) {
    for (auto &G : mod->globals()) { if (G.getName().starts_with("llvm.")) continue; uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0; if (G.isDeclaration() && sz < 256) sz = 256; gslot[&G] = newSlot(sz, "global " + demangle(G.getName().str())); }
    for (auto &G : mod->globals()) {
        auto it = gslot.find(&G); if (it == gslot.end()) continue;
        uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0; if (G.isDeclaration() && sz < 256) sz = 256;
        Obj *o = new Obj; o->slot = it->second; o->base = slotBase[o->slot]; o->size = cx.c(sz, 64); o->alive = cx.T(); o->kind = G.isConstant() ? O_CONST : O_GLOBAL; o->pages.resize((sz + 63) / 64);
        Ref<Obj> r(o);
        if (G.hasInitializer()) initConst(o, 0, G.getInitializer()); else for (uint64_t i = 0; i < sz; i++) writeConst(o, i, cx.c(0, 8));
        if (G.isConstant()) constBySlot[o->slot] = r; else s.mem.insert(r);
    }
    parseTypeInfos();
}
void Engine::parseTypeInfos() {
    for (auto &G : mod->globals()) {
        if (!G.getName().starts_with("_ZTI")) continue;
        if (!G.hasInitializer()) { tiId.emplace(slotBase[gslot[&G]], (int)tiId.size() + 1); continue; } // of the runtime library: matches only itself, see models.cpp for std exceptions
        auto *CS = dyn_cast<ConstantStruct>(G.getInitializer()); if (!CS) continue;
        uint64_t a = slotBase[gslot[&G]]; tiId.emplace(a, (int)tiId.size() + 1);
        auto &b = tiBases[a];
        unsigned n = CS->getNumOperands();
        if (n == 3) b.push_back({constAddr(CS->getOperand(2)), 0});
        else if (n > 4) for (unsigned i = 4; i + 1 < n; i += 2) { int64_t of = cast<ConstantInt>(CS->getOperand(i + 1))->getSExtValue(); if (of & 1) continue; b.push_back({constAddr(CS->getOperand(i)), of >> 8}); }
    }
}
bool Engine::tiMatch(uint64_t thrown, uint64_t want, int64_t &off) {
    if (thrown == want) { off = 0; return true; }
    for (auto &b : tiBases[thrown]) { int64_t o; if (tiMatch(b.first, want, o)) { off = b.second + o; return true; } }
    return false;
}
Opnd Engine::opnd(const Value *V, std::unordered_map<const Value *, int> &regs) {
    Opnd o; auto it = regs.find(V); if (it != regs.end()) { o.reg = it->second; return o; }
    if (auto *C = dyn_cast<Constant>(V)) { constVal(C, o.cs); return o; }
    if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) { o.cs.push_back(cx.c(0, 64)); return o; }
    throw Unsupported{"operand"};
}
void Engine::decode(Fn *f) {
    f->decoded = true; const Function &F = *f->F;
    std::unordered_map<const Value *, int> regs; std::unordered_map<const Value *, int> cnts; int nr = 0;
    auto def = [&](const Value *v) { if (v->getType()->isVoidTy() || v->getType()->isMetadataTy()) return; int n; if (v->getType()->isTokenTy()) n = 1; else n = flatN(v->getType()); regs[v] = nr; cnts[v] = n; nr += n; };
    for (auto &A : F.args()) { def(&A); f->argReg.push_back(regs[&A]); f->argN.push_back(cnts[&A]); }
    std::unordered_map<const BasicBlock *, int> bi; ReversePostOrderTraversal<const Function *> RPO(&F); int k = 0; vector<const BasicBlock *> order;
    for (auto *B : RPO) { bi[B] = k++; order.push_back(B); }
    for (auto *B : order) for (auto &I : *B) def(&I);
    f->nregs = nr; f->bbs.resize(k);
    DominatorTree DT(const_cast<Function &>(F)); LoopInfo LI(DT); std::unordered_map<const Loop *, int> li;
    for (auto *L : LI.getLoopsInPreorder()) { if (!bi.count(L->getHeader())) continue; li[L] = f->loops.size(); f->loops.push_back({bi[L->getHeader()], L->getParentLoop() ? li[L->getParentLoop()] : -1}); }
    for (int b = 0; b < k; b++) {
        const BasicBlock *B = order[b]; BBk &bk = f->bbs[b]; bk.B = B; bk.rpo = b; if (auto *L = LI.getLoopFor(B)) { bk.loop = li[L]; for (int l = bk.loop; l >= 0; l = f->loops[l].parent) bk.chain.insert(bk.chain.begin(), l); }
        for (auto &I : *B) {
            if (auto *PN = dyn_cast<PHINode>(&I)) { Phi p; p.dst = regs[&I]; p.n = cnts[&I]; for (unsigned i = 0; i < PN->getNumIncomingValues(); i++) if (bi.count(PN->getIncomingBlock(i))) p.in.push_back({bi[PN->getIncomingBlock(i)], opnd(PN->getIncomingValue(i), regs)}); bk.phis.push_back(p); continue; }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            if (auto *II = dyn_cast<IntrinsicInst>(&I)) { auto id = II->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
            Ins in; in.I = &I; in.opc = I.getOpcode(); if (regs.count(&I)) { in.dst = regs[&I]; in.dn = cnts[&I]; }
            auto add = [&](const Value *v) { in.o.push_back(opnd(v, regs)); };
            switch (in.opc) {
            case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); in.k = DL->getTypeAllocSize(A.getAllocatedType()); add(A.getArraySize()); break; }
            case Instruction::Load: { auto &L = cast<LoadInst>(I); add(L.getPointerOperand()); flat(I.getType(), 0, in.lay); in.atomic = L.isAtomic(); break; }
            case Instruction::Store: { auto &S = cast<StoreInst>(I); add(S.getValueOperand()); add(S.getPointerOperand()); flat(S.getValueOperand()->getType(), 0, in.lay); in.atomic = S.isAtomic(); break; }
            case Instruction::GetElementPtr: {
                add(I.getOperand(0)); if (I.getType()->isVectorTy()) throw Unsupported{"vector gep"}; uint64_t off = 0;
                for (auto GTI = gep_type_begin(&I), GE = gep_type_end(&I); GTI != GE; ++GTI) {
                    Value *V = GTI.getOperand();
                    if (auto *ST = GTI.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(V)->getZExtValue()); continue; }
                    uint64_t es = DL->getTypeAllocSize(GTI.getIndexedType());
                    if (auto *CI = dyn_cast<ConstantInt>(V)) off += (uint64_t)CI->getSExtValue() * es; else { in.gep.push_back({(int)in.o.size(), es}); add(V); }
                }
                in.k = off; break; }
            case Instruction::Br: { auto &B2 = cast<BranchInst>(I); if (B2.isConditional()) { add(B2.getCondition()); in.t = bi[B2.getSuccessor(0)]; in.f = bi[B2.getSuccessor(1)]; } else in.t = bi[B2.getSuccessor(0)]; break; }
            case Instruction::Switch: { auto &S = cast<SwitchInst>(I); add(S.getCondition()); in.t = bi[S.getDefaultDest()]; for (auto &c : S.cases()) in.cases.push_back({c.getCaseValue()->getZExtValue(), bi[c.getCaseSuccessor()]}); break; }
            case Instruction::Call: case Instruction::Invoke: {
                auto &CB = cast<CallBase>(I); for (auto &a : CB.args()) add(a.get());
                for (unsigned i = 0; i < CB.arg_size(); i++) in.byval.push_back(CB.isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(CB.getParamByValType(i)) : 0);
                if (auto *C = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts())) in.callee = getFn(C);
                else if (auto *GA = dyn_cast<GlobalAlias>(CB.getCalledOperand())) in.callee = getFn(cast<Function>(GA->getAliaseeObject()));
                else { in.sub = in.o.size(); add(CB.getCalledOperand()); if (isa<InlineAsm>(CB.getCalledOperand())) in.k = 1; }
                if (auto *IV = dyn_cast<InvokeInst>(&I)) { in.t = bi[IV->getNormalDest()]; in.f = bi[IV->getUnwindDest()]; }
                break; }
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                Type *T = I.getOperand(0)->getType(); add(I.getOperand(0)); int ix = 0; ArrayRef<unsigned> ind = in.opc == Instruction::ExtractValue ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
                for (unsigned x : ind) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < x; j++) ix += flatN(ST->getElementType(j)); T = ST->getElementType(x); } else { auto *AT = cast<ArrayType>(T); ix += flatN(AT->getElementType()) * x; T = AT->getElementType(); } }
                in.idx = ix; in.cnt = flatN(T); if (in.opc == Instruction::InsertValue) add(I.getOperand(1)); break; }
            case Instruction::AtomicCmpXchg: case Instruction::AtomicRMW: in.atomic = true; for (auto &op : I.operands()) add(op.get()); if (in.opc == Instruction::AtomicRMW) in.sub = cast<AtomicRMWInst>(I).getOperation(); else in.sub = cast<AtomicCmpXchgInst>(I).isWeak(); break;
            case Instruction::LandingPad: break;
            case Instruction::Ret: if (I.getNumOperands()) { add(I.getOperand(0)); in.cnt = flatN(I.getOperand(0)->getType()); } break;
            case Instruction::PHI: break;
            default: for (auto &op : I.operands()) add(op.get()); if (I.getType()->isIntegerTy()) in.w = I.getType()->getIntegerBitWidth(); else if (I.getType()->isPointerTy()) in.w = 64; if (isa<ICmpInst>(&I)) in.sub = cast<ICmpInst>(I).getPredicate(); break;
            }
            f->ninstr++; bk.ins.push_back(std::move(in));
        }
    }
    // liveness
    size_t W = (nr + 63) / 64; auto setb = [&](vector<uint64_t> &v, int r) { v[r >> 6] |= 1ull << (r & 63); }; auto clr = [&](vector<uint64_t> &v, int r) { v[r >> 6] &= ~(1ull << (r & 63)); };
    vector<vector<uint64_t>> in(k, vector<uint64_t>(W, 0)); std::unordered_map<int, int> cntOf; for (auto &p : cnts) cntOf[regs[p.first]] = p.second;
    auto useO = [&](vector<uint64_t> &v, const Opnd &o) { if (o.reg >= 0) for (int i = 0; i < cntOf[o.reg]; i++) setb(v, o.reg + i); };
    auto flowB = [&](int b, bool record) {
        vector<uint64_t> live(W, 0); const BasicBlock *B = order[b];
        for (const BasicBlock *S : successors(B)) { int sb = bi[S]; vector<uint64_t> t = in[sb]; for (auto &p : f->bbs[sb].phis) for (int i = 0; i < p.n; i++) clr(t, p.dst + i); for (auto &p : f->bbs[sb].phis) for (auto &q : p.in) if (q.first == b) useO(t, q.second); for (size_t i = 0; i < W; i++) live[i] |= t[i]; }
        for (int i = (int)f->bbs[b].ins.size() - 1; i >= 0; i--) {
            Ins &x = f->bbs[b].ins[i]; if (x.dst >= 0 && x.opc != Instruction::LandingPad) for (int j = 0; j < x.dn; j++) clr(live, x.dst + j); for (auto &o : x.o) useO(live, o);
            if (record && (x.opc == Instruction::Call || x.opc == Instruction::Invoke || x.atomic)) { x.live = f->liveSets.size(); f->liveSets.push_back(live); }
        }
        return live;
    };
    for (bool ch = true; ch;) { ch = false; for (int b = k - 1; b >= 0; b--) { auto l = flowB(b, false); if (l != in[b]) { in[b] = l; ch = true; } } }
    for (int b = 0; b < k; b++) { flowB(b, true); f->bbs[b].liveIn = f->liveSets.size(); f->liveSets.push_back(in[b]); }
}
} // namespace rsx
