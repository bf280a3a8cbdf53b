// Instruction semantics, calls, exceptions, scheduling points.
#include "rsx.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
namespace rsx {

void Engine::checkTime() { if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.timeLimit) throw StopRun{"time limit"}; }

// ---------------------------------------------------------------- positions
void Engine::framePos(const Frame *f, Pos &p) {
    p.push_back(f->irr); const BBk &b = f->fn->bbs[f->bb];
    for (int l : b.chain) { p.push_back(f->fn->loops[l].header); p.push_back(f->iters[l]); }
    p.push_back(b.rpo); p.push_back(f->ip);
}
Pos Engine::threadPos(const State &s, int t) {
    const Thread &th = s.th[t]; Pos p; if (th.done) { p.push_back(0xffffffffu); return p; } if (!th.phase) { p.push_back(0); return p; }
    p.push_back(1); if (th.fr.empty()) return p; const Frame *f = th.fr.back().p; p.insert(p.end(), f->prefix.begin(), f->prefix.end()); framePos(f, p); p.push_back(th.left); return p;
}
vector<Pos> Engine::nodeKey(const State &s) { vector<Pos> k; for (size_t i = 0; i < s.th.size(); i++) k.push_back(threadPos(s, i)); return k; }

E Engine::freshAt(State &s, const char *kind, unsigned w, int sub) {
    Pos p = threadPos(s, cur); p.push_back(cur); auto it = slotIntern.find(p); uint32_t id; p.push_back(0xfffffff1u);
    it = slotIntern.find(p); if (it == slotIntern.end()) { id = slotIntern.size(); slotIntern[p] = id; } else id = it->second;
    nVars++; if (sub >= 100) return cx.inputBit(string(kind) + "|" + std::to_string(cur) + "|" + std::to_string(id) + "|" + std::to_string(sub)); return cx.var(string(kind) + "|" + std::to_string(cur) + "|" + std::to_string(id) + "|" + std::to_string(sub), w);
}
string Engine::cstr(State &s, E p) {
    if (!Ctx::isC(p)) return "?"; string r; for (int i = 0; i < 200; i++) { vector<Case> cs; resolve(s, cx.c(p->k + i, 64), cs, cx.T()); if (cs.size() != 1 || cs[0].idx == INT32_MIN) break; Ref<Obj> o = objOf(s, cs[0]); if (!Ctx::isC(o->size) || cs[0].off->k >= o->size->k) break; E b = readConst(o.p, cs[0].off->k, 8); if (!Ctx::isC(b) || !b->k) break; r += (char)b->k; } return r;
}
static string locOf(const Instruction *I) {
    if (!I) return ""; if (DILocation *L = I->getDebugLoc()) { string f = L->getFilename().str(); size_t p = f.rfind('/'); return (p == string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(L->getLine()); } return "";
}
string Engine::where(State &s) {
    string r; int n = 0;
    for (size_t i = s.th[cur].fr.size(); i-- > 0 && n < 12;) { const Frame *f = s.th[cur].fr[i].p; const Instruction *I = f->ip < (int)f->fn->bbs[f->bb].ins.size() ? f->fn->bbs[f->bb].ins[f->ip].I : nullptr; string nm = demangle(f->fn->name); if (nm.size() > 120) nm = nm.substr(0, 117) + "..."; if (n) r += " < "; r += nm + "@" + locOf(I); n++; }
    return "thread " + std::to_string(cur) + ": " + r;
}
string Engine::accDesc(const Access &a) { return string(a.wr ? "write" : "read") + (a.at ? " (atomic)" : "") + " of " + slotName[a.slot] + " at " + locOf(siteIns[a.site]) + " in " + demangle(siteIns[a.site]->getFunction()->getName().str()); }

// ---------------------------------------------------------------- violations
void Engine::violation(State &s, E bad, const string &kind, const string &msg) {
    std::shared_ptr<Model> m; int r = satq(s, bad, &m, true);
    if (r < 0) { unknownSeen = true; unknownWhat = kind + ": " + msg; return; }
    if (!r) return;
    Violation v; v.kind = kind; v.msg = msg; v.where = where(s); v.model = guide ? m : reconstruct(m, s.recs);
    if (guide) { guideHit = true; guideTrace = s.trace; guideLabel = kind + ": " + msg; throw StopRun{"guide reached violation"}; }
    violations.push_back(v); throw StopRun{"violation"};
}
bool Engine::require(State &s, E ok, const string &kind, const string &msg) {
    if (Ctx::isT(ok)) return true;
    nAsserts++; kindCount[kind]++;
    nAssertQ++;
    if (Ctx::isF(ok)) { violation(s, cx.T(), kind, msg); throw PathEnd(); }
    violation(s, cx.lnot(ok), kind, msg);
    if (!guide) pcAdd(s, ok);
    return true;
}
// ---------------------------------------------------------------- frames
void Engine::pushFrame(State &s, int t, Fn *f, const vector<E> &args) {
    if (!f->decoded) decode(f);
    Frame *n = new Frame; n->fn = f; n->regs.assign(f->nregs, nullptr); n->iters.assign(f->loops.size(), 0);
    if (!s.th[t].fr.empty()) { const Frame *c = s.th[t].fr.back().p; n->prefix = c->prefix; framePos(c, n->prefix); n->prefix.push_back(f->id + 1); }
    size_t k = 0; for (size_t i = 0; i < f->argReg.size(); i++) for (int j = 0; j < f->argN[i]; j++) { if (k >= args.size()) throw Unsupported{"argument count in call of " + f->name}; n->regs[f->argReg[i] + j] = args[k++]; }
    f->calls++; s.th[t].fr.push_back(Ref<Frame>(n)); if (s.th[t].fr.size() > 300) throw Unsupported{"call depth"};
}
void Engine::popFrame(State &s, int t) {
    const Frame *f = s.th[t].fr.back().p; for (uint32_t sl : f->allocas) { int i = s.mem.find(sl); if (i >= 0) s.mem.v.erase(s.mem.v.begin() + i); }
    s.th[t].fr.pop_back();
}
void Engine::jump(State &, Frame *f, int to) {
    Fn *fn = f->fn; int from = f->bb; BBk &tb = fn->bbs[to];
    if (!tb.phis.empty()) {
        vector<std::pair<int, E>> upd;
        for (auto &p : tb.phis) for (auto &in : p.in) if (in.first == from) { for (int i = 0; i < p.n; i++) upd.push_back({p.dst + i, in.second.reg < 0 ? in.second.cs[i] : f->regs[in.second.reg + i]}); break; }
        for (auto &u : upd) f->regs[u.first] = u.second;
    }
    const BBk &fb = fn->bbs[from]; bool back = false;
    for (int l : tb.chain) {
        bool inside = false; for (int x : fb.chain) if (x == l) inside = true;
        if (fn->loops[l].header == to) { if (inside) { f->iters[l]++; back = true; } else f->iters[l] = 0; }
        else if (!inside) f->iters[l] = 0;
    }
    if (!back && tb.rpo <= fb.rpo) f->irr++;
    f->bb = to; f->ip = 0;
}
void Engine::retTo(State &, Frame *f, const Ins &in, const vector<E> &v) {
    if (in.dst >= 0) for (int i = 0; i < in.dn; i++) f->regs[in.dst + i] = i < (int)v.size() ? v[i] : cx.c(0, 64);
}
Event Engine::doRet(State &s, Frame *f, const Ins &in) {
    vector<E> v; if (!in.o.empty()) for (int i = 0; i < in.cnt; i++) v.push_back(val(f, in.o[0], i));
    Thread &th = s.th[cur]; popFrame(s, cur);
    if (th.fr.empty()) { th.done = true; return EV_DONE; }
    Frame *c = th.fr.back().mut(); const Ins &ci = c->fn->bbs[c->bb].ins[c->ip]; retTo(s, c, ci, v);
    if (ci.opc == Instruction::Invoke) { jump(s, c, ci.t); return EV_BLOCK; }
    c->ip++; return EV_CONT;
}
// ---------------------------------------------------------------- exceptions
Event Engine::raise(State &s, uint64_t exc) {
    bool im = inModel; inModel = true; E tie = load(s, cx.c(exc - 64, 64), 64); inModel = im;
    if (!Ctx::isC(tie)) { vector<uint64_t> vs; if (!enumVals(s, tie, 1, vs)) throw Unsupported{"symbolic exception type"}; tie = cx.c(vs.at(0), 64); }
    uint64_t ti = tie->k; Thread &th = s.th[cur];
    struct Hit { bool any, handler; int sel; int64_t adj; };
    auto look = [&](const LandingPadInst *LP) {
        Hit h{false, false, 0, 0};
        for (unsigned i = 0; i < LP->getNumClauses(); i++) {
            if (LP->isCatch(i)) { Constant *c = LP->getClause(i); uint64_t a = constAddr(c); int64_t o = 0; if (!a || tiMatch(ti, a, o)) { h.any = h.handler = true; h.adj = o; h.sel = a ? tiId.at(a) : 0x7fff; return h; } }
            else { h.any = h.handler = true; h.sel = -1; auto *A = cast<Constant>(LP->getClause(i)); if (auto *CA = dyn_cast<ConstantArray>(A)) for (auto &op : CA->operands()) { int64_t o; if (tiMatch(ti, constAddr(cast<Constant>(op)), o)) { h.any = h.handler = false; h.sel = 0; } } if (h.handler) return h; }
        }
        if (LP->isCleanup()) h.any = true; return h;
    };
    auto lpOf = [&](const Frame *f, const Ins &in) -> const LandingPadInst * { return f->fn->bbs[in.f].B->getLandingPadInst(); };
    bool found = false;
    for (size_t i = th.fr.size(); i-- > 0 && !found;) { const Frame *f = th.fr[i].p; const Ins &in = f->fn->bbs[f->bb].ins[f->ip]; if (in.opc != Instruction::Invoke) { if (f->fn->F->doesNotThrow() && !f->fn->model && i + 1 < th.fr.size()) { break; } continue; } if (look(lpOf(f, in)).handler) found = true; }
    if (!found) { violation(s, cx.T(), "terminate", "exception escapes (std::terminate)"); return EV_DEAD; }
    for (;;) {
        Frame *f = th.fr.back().mut(); const Ins &in = f->fn->bbs[f->bb].ins[f->ip];
        if (in.opc == Instruction::Invoke) {
            const LandingPadInst *LP = lpOf(f, in); Hit h = look(LP);
            if (h.any) {
                if (h.handler) { im = inModel; inModel = true; store(s, cx.c(exc - 64 + 32, 64), cx.c(exc + h.adj, 64)); inModel = im; f = th.fr.back().mut(); }
                jump(s, f, in.f);
                for (auto &li : f->fn->bbs[f->bb].ins) if (li.opc == Instruction::LandingPad) { f->regs[li.dst] = cx.c(exc, 64); f->regs[li.dst + 1] = cx.c((uint32_t)h.sel, 32); break; }
                return EV_BLOCK;
            }
        }
        popFrame(s, cur);
    }
}
// ---------------------------------------------------------------- scheduling points
Event Engine::syncPoint(State &s, Frame *, const Ins &, int kind, E en, vector<State> &, vector<State> &outs, bool &proceed) {
    Thread &th = s.th[cur]; proceed = true;
    if (th.go) { th.go = false; th.left = kind != K_LOCK_ && kind != K_REACQ_ && kind != K_YIELD_ && kind != K_SLEEP_; return EV_CONT; }
    if (cur == 0) {
        if (kind == K_SLEEP_ || kind == K_RUN_) {
            bool live = false; for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i].done) live = true;
            if (live) { proceed = false; outs.push_back(s); return EV_YIELD; }
            return EV_CONT;
        }
        if (Ctx::isT(en)) return EV_CONT;
        bool fe = feasible(s, en), fn = feasible(s, cx.lnot(en));
        if (guide) { fe = guide->eval(cx, en); fn = !fe; }
        if (fn) { State y = s; pcAdd(y, cx.lnot(en)); outs.push_back(y); }
        if (fe) { pcAdd(s, en); return EV_CONT; }
        proceed = false; return EV_YIELD;
    }
    if (opt.reduce) {
        if (kind == K_UNLOCK_) { th.left = true; return EV_CONT; }
        if ((kind == K_SIGNAL_ || kind == K_ATOMIC_ || kind == K_TRYLOCK_ || kind == K_WAIT_) && !th.left) { th.left = true; return EV_CONT; }
    }
    proceed = false; outs.push_back(s); return EV_YIELD;
}
// ---------------------------------------------------------------- calls
Event Engine::enter(State &s, Frame *f, const Ins &in, Fn *callee, vector<State> &forks, vector<State> &outs) {
    if (callee->handler == -1) { auto it = handlerIds().find(callee->name); if (it != handlerIds().end()) callee->handler = it->second; else if (callee->F->isIntrinsic()) callee->handler = H_INTRINSIC; else callee->handler = -2; }
    if (callee->handler >= 0) return handler(s, f, in, callee, forks, outs);
    if (!callee->hasBody) throw Unsupported{"call of external function " + demangle(callee->name)};
    vector<E> args; unsigned na = callee->F->arg_size(); vector<uint32_t> bys;
    for (unsigned i = 0; i < na; i++) {
        const Opnd &o = in.o[i]; int n = flatN(callee->F->getArg(i)->getType());
        if (i < in.byval.size() && in.byval[i]) { E a = allocObj(s, cx.c(in.byval[i], 64), O_STACK, 0, threadPos(s, cur), 1000 + i); copy(s, a, val(f, o), cx.c(in.byval[i], 64), false); bys.push_back(((a->k - 0x100000000000ull) >> 24)); args.push_back(a); f = top(s); continue; }
        for (int j = 0; j < n; j++) args.push_back(val(f, o, j));
    }
    if (callee->F->isVarArg()) throw Unsupported{"variadic function " + callee->name};
    pushFrame(s, cur, callee, args); for (uint32_t b : bys) top(s)->allocas.push_back(b);
    return EV_CONT;
}
Event Engine::doCall(State &s, Frame *f, const Ins &in, vector<State> &forks, vector<State> &outs) {
    if (in.callee) return enter(s, f, in, in.callee, forks, outs);
    if (in.k == 1) { if (in.dst >= 0) throw Unsupported{"inline assembly with a result"}; f->ip++; return EV_CONT; }
    E p = val(f, in.o[in.sub]);
    if (Ctx::isC(p)) { auto it = fnAt.find(p->k); if (it == fnAt.end()) { violation(s, cx.T(), "memory", "call through an invalid function pointer"); return EV_DEAD; } return enter(s, f, in, it->second, forks, outs); }
    vector<uint64_t> vs; if (!enumVals(s, p, 16, vs)) throw Unsupported{"symbolic function pointer"};
    if (vs.empty()) return EV_DEAD;
    if (in.o[in.sub].reg < 0) throw Unsupported{"function pointer constant"};
    if (vs.size() == 1) { f->regs[in.o[in.sub].reg] = cx.c(vs[0], 64); return EV_CONT; } // re-execute with the value known
    nForks += vs.size() - 1;
    for (uint64_t v : vs) {
        State n = s; pcAdd(n, cx.eq(p, cx.c(v, 64))); Frame *nf = n.th[cur].fr.back().mut(); nf->regs[in.o[in.sub].reg] = cx.c(v, 64);
        auto it = fnAt.find(v); if (it == fnAt.end()) { violation(n, cx.T(), "memory", "call through an invalid function pointer"); continue; }
        Event e = enter(n, nf, in, it->second, forks, outs);
        if (e == EV_CONT || e == EV_BLOCK) forks.push_back(std::move(n)); else if (e == EV_DONE) throw Unsupported{"thread end in forked call"};
    }
    return EV_DEAD; // the copies carry on
}
// ---------------------------------------------------------------- main interpreter loop
Event Engine::run(State &s, vector<State> &forks, vector<State> &outs) {
    for (;;) {
        Frame *f = top(s); Fn *fn = f->fn; const Ins &in = fn->bbs[f->bb].ins[f->ip]; inModel = fn->model; curIns = &in; fn->execd++;
        if ((++nInstr & 0xffff) == 0) { checkTime(); if (nInstr > opt.maxInstr) throw StopRun{"instruction limit"}; }
        auto set = [&](E e) { f->regs[in.dst] = e; f->ip++; };
        switch (in.opc) {
        case Instruction::Alloca: {
            E n = val(f, in.o[0]); if (!Ctx::isC(n)) throw Unsupported{"variable-size stack array"};
            E a = allocObj(s, cx.c(in.k * n->k, 64), O_STACK, 0, threadPos(s, cur), 0); f = top(s); f->allocas.push_back((a->k - 0x100000000000ull) >> 24); set(a); break; }
        case Instruction::Load: {
            if (in.atomic) hbAtomic(s, in);
            E p = val(f, in.o[0]); vector<E> r; for (auto &l : in.lay) r.push_back(load(s, l.first ? cx.add(p, cx.c(l.first, 64)) : p, l.second, in.atomic)); f = top(s);
            for (size_t i = 0; i < r.size(); i++) f->regs[in.dst + i] = r[i]; f->ip++; break; }
        case Instruction::Store: {
            if (in.atomic) hbAtomic(s, in);
            E p = val(f, in.o[1]); for (size_t i = 0; i < in.lay.size(); i++) store(s, in.lay[i].first ? cx.add(p, cx.c(in.lay[i].first, 64)) : p, val(f, in.o[0], i), in.atomic); f = top(s); f->ip++; break; }
        case Instruction::AtomicCmpXchg: {
            hbAtomic(s, in);
            E p = val(f, in.o[0]), exp = val(f, in.o[1]), nv = val(f, in.o[2]); E old = load(s, p, exp->w, true); E ok = cx.eq(old, exp);
            E wv = cx.ite(ok, nv, old); if (!Ctx::isF(ok)) store(s, p, wv, true); f = top(s); f->regs[in.dst] = old; f->regs[in.dst + 1] = ok; f->ip++; break; }
        case Instruction::AtomicRMW: {
            hbAtomic(s, in);
            E p = val(f, in.o[0]), v = val(f, in.o[1]); E old = load(s, p, v->w, true), n;
            switch (in.sub) {
            case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = cx.add(old, v); break; case AtomicRMWInst::Sub: n = cx.sub(old, v); break; case AtomicRMWInst::And: n = cx.andd(old, v); break;
            case AtomicRMWInst::Or: n = cx.orr(old, v); break; case AtomicRMWInst::Xor: n = cx.xorr(old, v); break; case AtomicRMWInst::Nand: n = cx.bnot(cx.andd(old, v)); break;
            case AtomicRMWInst::UMax: n = cx.ite(cx.ult(old, v), v, old); break; case AtomicRMWInst::UMin: n = cx.ite(cx.ult(v, old), v, old); break; case AtomicRMWInst::Max: n = cx.ite(cx.slt(old, v), v, old); break; case AtomicRMWInst::Min: n = cx.ite(cx.slt(v, old), v, old); break;
            default: throw Unsupported{"atomicrmw operation"}; }
            store(s, p, n, true); f = top(s); set(old); break; }
        case Instruction::Fence: { f->ip++; break; }
        case Instruction::GetElementPtr: { E p = val(f, in.o[0]); if (in.k) p = cx.add(p, cx.c(in.k, 64)); for (auto &g : in.gep) { E i = val(f, in.o[g.first]); if (i->w < 64) i = cx.sext(i, 64); p = cx.add(p, cx.mul(i, cx.c(g.second, 64))); } set(p); break; }
        case Instruction::Add: set(cx.add(val(f, in.o[0]), val(f, in.o[1]))); break; case Instruction::Sub: set(cx.sub(val(f, in.o[0]), val(f, in.o[1]))); break;
        case Instruction::Mul: set(cx.mul(val(f, in.o[0]), val(f, in.o[1]))); break;
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
            E d = val(f, in.o[1]); E nz = cx.lnot(cx.eq(d, cx.c(0, d->w))); require(s, nz, "arithmetic", "division by zero"); f = top(s);
            Op op = in.opc == Instruction::UDiv ? UDIV : in.opc == Instruction::URem ? UREM : in.opc == Instruction::SDiv ? SDIV : SREM; set(cx.bin(op, val(f, in.o[0]), d)); break; }
        case Instruction::And: set(cx.andd(val(f, in.o[0]), val(f, in.o[1]))); break; case Instruction::Or: set(cx.orr(val(f, in.o[0]), val(f, in.o[1]))); break; case Instruction::Xor: set(cx.xorr(val(f, in.o[0]), val(f, in.o[1]))); break;
        case Instruction::Shl: set(cx.shl(val(f, in.o[0]), val(f, in.o[1]))); break; case Instruction::LShr: set(cx.lshr(val(f, in.o[0]), val(f, in.o[1]))); break; case Instruction::AShr: set(cx.ashr(val(f, in.o[0]), val(f, in.o[1]))); break;
        case Instruction::ICmp: {
            E a = val(f, in.o[0]), b = val(f, in.o[1]), r;
            switch (in.sub) { case CmpInst::ICMP_EQ: r = cx.eq(a, b); break; case CmpInst::ICMP_NE: r = cx.lnot(cx.eq(a, b)); break; case CmpInst::ICMP_ULT: r = cx.ult(a, b); break; case CmpInst::ICMP_ULE: r = cx.ule(a, b); break; case CmpInst::ICMP_UGT: r = cx.ult(b, a); break; case CmpInst::ICMP_UGE: r = cx.ule(b, a); break;
            case CmpInst::ICMP_SLT: r = cx.slt(a, b); break; case CmpInst::ICMP_SLE: r = cx.sle(a, b); break; case CmpInst::ICMP_SGT: r = cx.slt(b, a); break; default: r = cx.sle(b, a); break; }
            set(r); break; }
        case Instruction::ZExt: set(cx.zext(val(f, in.o[0]), in.w)); break; case Instruction::SExt: set(cx.sext(val(f, in.o[0]), in.w)); break; case Instruction::Trunc: set(cx.extract(val(f, in.o[0]), 0, in.w)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { E v = val(f, in.o[0]); set(v->w < in.w ? cx.zext(v, in.w) : v->w > in.w ? cx.extract(v, 0, in.w) : v); break; }
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: for (int i = 0; i < in.dn; i++) f->regs[in.dst + i] = val(f, in.o[0], i); f->ip++; break;
        case Instruction::Select: { E c = val(f, in.o[0]); for (int i = 0; i < in.dn; i++) { E x = val(f, in.o[1], i), y = val(f, in.o[2], i); f->regs[in.dst + i] = cx.ite(c, x, y); } f->ip++; break; }
        case Instruction::ExtractValue: for (int i = 0; i < in.dn; i++) f->regs[in.dst + i] = in.o[0].reg < 0 ? in.o[0].cs[in.idx + i] : f->regs[in.o[0].reg + in.idx + i]; f->ip++; break;
        case Instruction::InsertValue: for (int i = 0; i < in.dn; i++) { E e; if (i >= in.idx && i < in.idx + in.cnt) e = val(f, in.o[1], i - in.idx); else e = in.o[0].reg < 0 ? in.o[0].cs[i] : f->regs[in.o[0].reg + i]; f->regs[in.dst + i] = e; } f->ip++; break;
        case Instruction::LandingPad: f->ip++; break;
        case Instruction::Br: {
            if (in.f < 0) { jump(s, f, in.t); return EV_BLOCK; }
            E c = val(f, in.o[0]); if (Ctx::isC(c)) { jump(s, f, c->k ? in.t : in.f); return EV_BLOCK; }
            if (guide) { jump(s, f, guide->eval(cx, c) ? in.t : in.f); return EV_BLOCK; }
            bool ft = feasible(s, c), ff = !ft || feasible(s, cx.lnot(c));
            if (ft && ff) { nForks++; State n = s; pcAdd(n, cx.lnot(c)); jump(n, n.th[cur].fr.back().mut(), in.f); forks.push_back(std::move(n)); pcAdd(s, c); f = top(s); jump(s, f, in.t); return EV_BLOCK; }
            jump(s, f, ft ? in.t : in.f); return EV_BLOCK; }
        case Instruction::Switch: {
            E c = val(f, in.o[0]);
            if (!Ctx::isC(c) && guide) c = cx.c(guide->eval(cx, c), c->w);
            if (Ctx::isC(c)) { int to = in.t; for (auto &k : in.cases) if (k.first == c->k) { to = k.second; break; } jump(s, f, to); return EV_BLOCK; }
            std::map<int, E> dst; E def = cx.T(); for (auto &k : in.cases) { E q = cx.eq(c, cx.c(k.first, c->w)); def = cx.andd(def, cx.lnot(q)); auto it = dst.find(k.second); if (it == dst.end()) dst[k.second] = q; else it->second = cx.orr(it->second, q); }
            { auto it = dst.find(in.t); if (it == dst.end()) dst[in.t] = def; else it->second = cx.orr(it->second, def); }
            bool first = true; State base = s; for (auto &d : dst) { if (!feasible(base, d.second)) continue; if (first) { first = false; pcAdd(s, d.second); jump(s, top(s), d.first); continue; } State n = base; pcAdd(n, d.second); jump(n, n.th[cur].fr.back().mut(), d.first); forks.push_back(std::move(n)); nForks++; }
            if (first) return EV_DEAD; return EV_BLOCK; }
        case Instruction::Call: case Instruction::Invoke: { Event e = doCall(s, f, in, forks, outs); if (e != EV_CONT) return e; break; }
        case Instruction::Ret: { Event e = doRet(s, f, in); if (e != EV_CONT) return e; break; }
        case Instruction::Resume: {
            E x = val(f, in.o[0], 0); if (Ctx::isC(x)) return raise(s, x->k);
            vector<uint64_t> vs; if (!enumVals(s, x, 16, vs)) throw Unsupported{"symbolic exception object"}; if (vs.empty()) return EV_DEAD;
            for (size_t i = 1; i < vs.size(); i++) { State b = s; pcAdd(b, cx.eq(x, cx.c(vs[i], 64))); nForks++; if (raise(b, vs[i]) == EV_BLOCK) forks.push_back(std::move(b)); }
            if (vs.size() > 1) pcAdd(s, cx.eq(x, cx.c(vs[0], 64))); return raise(s, vs[0]); }
        case Instruction::Unreachable: violation(s, cx.T(), "unreachable", "unreachable code executed"); return EV_DEAD;
        default: throw Unsupported{string("instruction ") + in.I->getOpcodeName()};
        }
    }
}
} // namespace rsx
