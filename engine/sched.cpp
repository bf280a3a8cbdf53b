// Primitive handlers, state merging, exploration of the schedule graph, results.
#include "rsx.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <fstream>
using namespace llvm;
namespace rsx {
enum { H_MEMCPY = 1, H_MEMMOVE, H_MEMSET, H_SYNC, H_YIELD, H_PICK, H_SPUR, H_SELF, H_VIOL, H_FAULT, H_MALLOC, H_FREE, H_RAISE, H_TLS, H_TERM, H_CLANGTERM, H_HB,
    H_NONDET, H_SPLIT, H_ASSUME, H_ASSERT, H_REACH, H_SPAWN, H_RUN, H_DONE, H_BLOCKED, H_SPURB, H_VSELF, H_GHOST, H_LIVE, H_FORBID, H_SIZE, H_BASE, H_BYTES, H_SETFAULT, H_NOP };
const std::unordered_map<string, int> &handlerIds() {
    static const std::unordered_map<string, int> m = {
        {"memcpy", H_MEMCPY}, {"memmove", H_MEMMOVE}, {"memset", H_MEMSET}, {"__rsx_sync", H_SYNC}, {"__rsx_yield", H_YIELD}, {"__rsx_pick", H_PICK}, {"__rsx_spurious", H_SPUR}, {"__rsx_self", H_SELF},
        {"__rsx_violation", H_VIOL}, {"__rsx_fault", H_FAULT}, {"__rsx_malloc", H_MALLOC}, {"__rsx_free", H_FREE}, {"__rsx_raise", H_RAISE}, {"__rsx_tls", H_TLS}, {"__rsx_terminate", H_TERM}, {"__rsx_hb", H_HB},
        {"__clang_call_terminate", H_CLANGTERM}, {"vp_nondet", H_NONDET}, {"vp_split", H_SPLIT}, {"vp_assume", H_ASSUME}, {"vp_assert", H_ASSERT}, {"vp_reach", H_REACH}, {"vp_spawn", H_SPAWN}, {"vp_run", H_RUN}, {"vp_done", H_DONE},
        {"vp_blocked", H_BLOCKED}, {"vp_spurious", H_SPURB}, {"vp_self", H_VSELF}, {"vp_ghost", H_GHOST}, {"vp_heap_live", H_LIVE}, {"vp_heap_forbid", H_FORBID}, {"vp_heap_size", H_SIZE}, {"vp_heap_base", H_BASE}, {"vp_heap_bytes", H_BYTES},
        {"vp_fault", H_SETFAULT}, {"__rsx_acc", H_NOP}};
    return m;
}
Event Engine::fin(State &s, const Ins &in, const vector<E> &v) {
    Frame *f = top(s); retTo(s, f, in, v);
    if (in.opc == Instruction::Invoke) { jump(s, f, in.t); return EV_BLOCK; }
    f->ip++; return EV_CONT;
}
void Engine::hbRec(State &s, E addr, int kind) { if (!opt.race || cur == 0 || !footCur) return; Foot *f = footCur.p; f->seq++; f->hb.push_back({addr, s.pc->full, kind, f->seq}); }
void Engine::hbAtomic(State &s, const Ins &in) {
    if (!opt.race || cur == 0 || !footCur) return;
    const Instruction *I = in.I; AtomicOrdering o; E p; Frame *f = top(s); bool ld = true, st = true;
    if (auto *L = dyn_cast<LoadInst>(I)) { o = L->getOrdering(); p = val(f, in.o[0]); st = false; } else if (auto *S = dyn_cast<StoreInst>(I)) { o = S->getOrdering(); p = val(f, in.o[1]); ld = false; }
    else if (auto *R = dyn_cast<AtomicRMWInst>(I)) { o = R->getOrdering(); p = val(f, in.o[0]); } else { o = cast<AtomicCmpXchgInst>(I)->getSuccessOrdering(); p = val(f, in.o[0]); }
    if (ld && isAcquireOrStronger(o)) hbRec(s, p, 1);
    if (st && isReleaseOrStronger(o)) hbRec(s, p, 2);
}
Event Engine::handler(State &s, Frame *f, const Ins &in, Fn *callee, vector<State> &forks, vector<State> &outs) {
    auto A = [&](int i) { return val(f, in.o[i]); };
    auto cst = [&](int i, const char *what) -> uint64_t { E e = A(i); if (Ctx::isC(e)) return e->k; vector<uint64_t> v; if (enumVals(s, e, 1, v) && v.size() == 1) return v[0]; throw Unsupported{string("symbolic argument of ") + what}; };
    auto none = vector<E>{};
    switch (callee->handler) {
    case H_INTRINSIC: {
        auto id = cast<CallBase>(in.I)->getIntrinsicID(); E x, y;
        switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { E n = A(2); if (n->w < 64) n = cx.zext(n, 64); copy(s, A(0), A(1), n, id == Intrinsic::memmove); return fin(s, in, none); }
        case Intrinsic::memset: case Intrinsic::memset_inline: { E n = A(2); if (n->w < 64) n = cx.zext(n, 64); fill(s, A(0), A(1), n); return fin(s, in, none); }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            x = A(0); y = A(1); unsigned w = x->w; E r, o;
            if (id == Intrinsic::uadd_with_overflow) { r = cx.add(x, y); o = cx.ult(r, x); } else if (id == Intrinsic::usub_with_overflow) { r = cx.sub(x, y); o = cx.ult(x, y); }
            else if (id == Intrinsic::umul_with_overflow) { r = cx.mul(x, y); if (Ctx::isC(y)) o = y->k ? cx.ult(cx.c(maskW(w) / y->k, w), x) : cx.F(); else if (Ctx::isC(x)) o = x->k ? cx.ult(cx.c(maskW(w) / x->k, w), y) : cx.F(); else o = cx.andd(cx.lnot(cx.eq(x, cx.c(0, w))), cx.lnot(cx.eq(cx.bin(UDIV, r, x), y))); }
            else if (id == Intrinsic::sadd_with_overflow) { r = cx.add(x, y); E z = cx.c(0, w); o = cx.andd(cx.eq(cx.slt(x, z), cx.slt(y, z)), cx.lnot(cx.eq(cx.slt(x, z), cx.slt(r, z)))); }
            else if (id == Intrinsic::ssub_with_overflow) { r = cx.sub(x, y); E z = cx.c(0, w); o = cx.andd(cx.lnot(cx.eq(cx.slt(x, z), cx.slt(y, z))), cx.lnot(cx.eq(cx.slt(x, z), cx.slt(r, z)))); }
            else throw Unsupported{"smul overflow"};
            return fin(s, in, {r, o}); }
        case Intrinsic::umax: x = A(0); y = A(1); return fin(s, in, {cx.ite(cx.ult(x, y), y, x)}); case Intrinsic::umin: x = A(0); y = A(1); return fin(s, in, {cx.ite(cx.ult(y, x), y, x)});
        case Intrinsic::smax: x = A(0); y = A(1); return fin(s, in, {cx.ite(cx.slt(x, y), y, x)}); case Intrinsic::smin: x = A(0); y = A(1); return fin(s, in, {cx.ite(cx.slt(y, x), y, x)});
        case Intrinsic::abs: x = A(0); return fin(s, in, {cx.ite(cx.slt(x, cx.c(0, x->w)), cx.sub(cx.c(0, x->w), x), x)});
        case Intrinsic::usub_sat: x = A(0); y = A(1); return fin(s, in, {cx.ite(cx.ult(x, y), cx.c(0, x->w), cx.sub(x, y))});
        case Intrinsic::uadd_sat: { x = A(0); y = A(1); E r = cx.add(x, y); return fin(s, in, {cx.ite(cx.ult(r, x), cx.c(maskW(x->w), x->w), r)}); }
        case Intrinsic::ctlz: { x = A(0); E r = cx.c(x->w, x->w); for (unsigned i = 0; i < x->w; i++) r = cx.ite(cx.extract(x, i, 1), cx.c(x->w - 1 - i, x->w), r); return fin(s, in, {r}); }
        case Intrinsic::cttz: { x = A(0); E r = cx.c(x->w, x->w); for (unsigned i = x->w; i-- > 0;) r = cx.ite(cx.extract(x, i, 1), cx.c(i, x->w), r); return fin(s, in, {r}); }
        case Intrinsic::ctpop: { x = A(0); E r = cx.c(0, x->w); for (unsigned i = 0; i < x->w; i++) r = cx.add(r, cx.zext(cx.extract(x, i, 1), x->w)); return fin(s, in, {r}); }
        case Intrinsic::bswap: { x = A(0); E r = nullptr; for (unsigned i = 0; i < x->w; i += 8) { E b = cx.extract(x, i, 8); r = r ? cx.concat(r, b) : b; } return fin(s, in, {r}); }
        case Intrinsic::fshl: case Intrinsic::fshr: { x = A(0); y = A(1); E k = A(2); unsigned w = x->w; k = cx.bin(UREM, k, cx.c(w, w)); E inv = cx.sub(cx.c(w, w), k); E r = id == Intrinsic::fshl ? cx.orr(cx.shl(x, k), cx.lshr(y, inv)) : cx.orr(cx.shl(x, inv), cx.lshr(y, k)); r = cx.ite(cx.eq(k, cx.c(0, w)), id == Intrinsic::fshl ? x : y, r); return fin(s, in, {r}); }
        case Intrinsic::eh_typeid_for: { uint64_t a = cst(0, "typeid"); auto it = tiId.find(a); return fin(s, in, {cx.c(it == tiId.end() ? 0x7ffe : it->second, 32)}); }
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, cx.T(), "trap", "trap executed"); return EV_DEAD;
        case Intrinsic::stacksave: return fin(s, in, {cx.c(0, 64)}); case Intrinsic::stackrestore: return fin(s, in, none);
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return fin(s, in, {A(0)});
        case Intrinsic::is_constant: return fin(s, in, {cx.F()}); case Intrinsic::objectsize: return fin(s, in, {cx.c(~0ull, in.I->getType()->getIntegerBitWidth())});
        case Intrinsic::donothing: case Intrinsic::sideeffect: return fin(s, in, none);
        default: throw Unsupported{"intrinsic " + callee->name};
        } }
    case H_MEMCPY: case H_MEMMOVE: { E d = A(0); copy(s, d, A(1), A(2), callee->handler == H_MEMMOVE); return fin(s, in, {d}); }
    case H_MEMSET: { E d = A(0); fill(s, d, cx.extract(A(1), 0, 8), A(2)); return fin(s, in, {d}); }
    case H_NOP: return fin(s, in, none);
    case H_SYNC: {
        int kind = (int)cst(0, "sync"); E en = cx.T(); bool go;
        if (cur == 0 && !s.th[0].go) { E w = objWord(s, A(1)); if (w) en = cx.andd(en, cx.eq(cx.andd(w, A(2)), A(3))); w = objWord(s, A(4)); if (w) en = cx.andd(en, cx.eq(cx.andd(w, A(5)), A(6))); }
        Event e = syncPoint(s, f, in, kind, en, forks, outs, go); if (!go) return e;
        return fin(s, in, none); }
    case H_YIELD: { bool go; Event e = syncPoint(s, f, in, K_ATOMIC_, cx.T(), forks, outs, go); if (!go) return e; return fin(s, in, none); }
    case H_HB: {
        int k = (int)cst(0, "hb"); auto &h = s.th[cur].held; E a = A(1);
        if (k == 1) { if (Ctx::isC(a)) h.push_back(a->k); } else if (!Ctx::isC(a)) h.clear(); else for (size_t i = h.size(); i-- > 0;) if (h[i] == a->k) { h.erase(h.begin() + i); break; }
        hbRec(s, a, k); return fin(s, in, none); }
    case H_PICK: {
        E m = A(0); if (Ctx::isC(m) && (m->k & (m->k - 1)) == 0) { if (guide) s.trace.push_back({2, cur, m->k, ""}); return fin(s, in, {m}); }
        int n = s.th.size(); E picked = cx.F(), r = cx.c(0, 32);
        for (int i = 0; i < n && i < 32; i++) {
            E bit = cx.extract(m, i, 1); if (Ctx::isF(bit)) continue; E later = cx.F(); for (int j = i + 1; j < n; j++) later = cx.orr(later, cx.extract(m, j, 1));
            E ch = Ctx::isF(later) ? cx.T() : cx.orr(cx.lnot(later), freshAt(s, "pick", 1, i)); E p = cx.andd(cx.andd(bit, cx.lnot(picked)), ch);
            r = cx.ite(p, cx.c(1ull << i, 32), r); picked = cx.orr(picked, p);
        }
        if (guide) { uint64_t v = guide->eval(cx, r); s.trace.push_back({2, cur, v, ""}); }
        return fin(s, in, {r}); }
    case H_SPUR: {
        if (!s.spur || (Ctx::isC(s.spur) && !s.spur->k)) { if (guide) s.trace.push_back({3, cur, 0, ""}); return fin(s, in, {cx.c(0, 32)}); }
        E b = cx.andd(freshAt(s, "spur", 1), cx.lnot(cx.eq(s.spur, cx.c(0, 32)))); s.spur = cx.ite(b, cx.add(s.spur, cx.c(~0ull, 32)), s.spur);
        if (guide) s.trace.push_back({3, cur, guide->eval(cx, b), ""});
        return fin(s, in, {cx.zext(b, 32)}); }
    case H_SELF: case H_VSELF: return fin(s, in, {cx.c(cur, 32)});
    case H_VIOL: { string m = cstr(s, A(0)); violation(s, cx.T(), "environment", m); return EV_DEAD; }
    case H_FAULT: { int site = (int)cst(0, "fault"); auto it = s.faults.find(site); return fin(s, in, {it == s.faults.end() ? cx.c(0, 32) : it->second}); }
    case H_SETFAULT: { int site = (int)cst(0, "vp_fault"); s.faults[site] = A(1); if (guide) s.trace.push_back({4, cur, guide->eval(cx, A(1)), std::to_string(site)}); return fin(s, in, none); }
    case H_MALLOC: {
        E n = A(0); int kind = (int)cst(1, "malloc"); const uint64_t LIM = 1ull << 33;
        if (s.forbid && kind != 3) { violation(s, cx.T(), "heap", "heap allocation in an operation that must not allocate"); return EV_DEAD; }
        if (Ctx::isC(n)) { if (n->k > LIM) return fin(s, in, {cx.c(0, 64)}); E p = allocObj(s, n, kind == 3 ? O_EXC : O_HEAP, kind, threadPos(s, cur), 0); return fin(s, in, {p}); }
        E small = cx.ule(n, cx.c(LIM, 64));
        if (guide) { uint64_t k = guide->eval(cx, n); if (k > LIM) return fin(s, in, {cx.c(0, 64)}); vector<uint64_t> vs; }
        else if (feasible(s, cx.lnot(small))) { State b = s; pcAdd(b, cx.lnot(small)); nForks++; fin(b, in, {cx.c(0, 64)}); forks.push_back(std::move(b)); if (!feasible(s, small)) return EV_DEAD; pcAdd(s, small); }
        // the decision between enumeration and a lazily sized object must not depend on guide mode
        bool en; vector<uint64_t> vs; auto key = threadPos(s, cur); key.push_back(0xfffffff2u); auto it = slotIntern.find(key);
        if (guide) { en = it != slotIntern.end() && it->second == 1; if (en) vs.push_back(guide->eval(cx, n)); } else { en = enumVals(s, n, 32, vs); if (it != slotIntern.end() && it->second == 0) en = false; slotIntern[key] = en; }
        if (!en) { E p = allocObj(s, n, O_HEAP, kind, threadPos(s, cur), 0); return fin(s, in, {p}); }
        if (vs.empty()) return EV_DEAD;
        for (size_t i = 1; i < vs.size(); i++) { State b = s; pcAdd(b, cx.eq(n, cx.c(vs[i], 64))); nForks++; E p = allocObj(b, cx.c(vs[i], 64), O_HEAP, kind, threadPos(b, cur), 0); fin(b, in, {p}); forks.push_back(std::move(b)); }
        if (!guide) pcAdd(s, cx.eq(n, cx.c(vs[0], 64))); E p = allocObj(s, cx.c(vs[0], 64), O_HEAP, kind, threadPos(s, cur), 0); return fin(s, in, {p}); }
    case H_FREE: { freeObj(s, A(0), (int)cst(1, "free")); return fin(s, in, none); }
    case H_RAISE: { E p = A(0); vector<uint64_t> vs; if (!enumVals(s, p, 16, vs)) throw Unsupported{"symbolic exception object"}; 
        for (size_t i = 1; i < vs.size(); i++) { State b = s; pcAdd(b, cx.eq(p, cx.c(vs[i], 64))); nForks++; if (raise(b, vs[i]) == EV_BLOCK) forks.push_back(std::move(b)); }
        if (vs.empty()) return EV_DEAD; if (vs.size() > 1) pcAdd(s, cx.eq(p, cx.c(vs[0], 64))); return raise(s, vs[0]); }
    case H_TLS: return fin(s, in, {cx.c(s.th[cur].tls, 64)});
    case H_TERM: { string m = cstr(s, A(0)); violation(s, cx.T(), "terminate", m); return EV_DEAD; }
    case H_CLANGTERM: violation(s, cx.T(), "terminate", "exception escapes a noexcept function (std::terminate)"); return EV_DEAD;
    case H_NONDET: { unsigned w = (unsigned)cst(0, "vp_nondet"); E v; if (w <= 5) { v = cx.c(0, w); for (unsigned i = 0; i < w; i++) v = cx.orr(v, cx.ite(freshAt(s, "in", 1, 100 + i), cx.c(1ull << i, w), cx.c(0, w))); } else v = freshAt(s, "in", w); if (guide) s.trace.push_back({1, cur, guide->eval(cx, v), cstr(s, A(1))}); return fin(s, in, {cx.zext(v, 64)}); }
    case H_SPLIT: { // like vp_nondet, followed by a case distinction
        unsigned w = (unsigned)cst(0, "vp_split"); if (w > 4) throw Unsupported{"vp_split of more than 4 bits"}; E v = cx.c(0, w); for (unsigned i = 0; i < w; i++) v = cx.orr(v, cx.ite(freshAt(s, "in", 1, 100 + i), cx.c(1ull << i, w), cx.c(0, w)));
        if (guide) s.trace.push_back({1, cur, guide->eval(cx, v), cstr(s, A(1))});
        State base = s; bool first = true;
        for (uint64_t k = 0; k < (1ull << w); k++) { E c = cx.eq(v, cx.c(k, w)); if (!feasible(base, c)) continue; if (first) { first = false; pcAdd(s, c); s.split.push_back(k); fin(s, in, {cx.c(k, 64)}); continue; } State b = base; pcAdd(b, c); b.split.push_back(k); nForks++; fin(b, in, {cx.c(k, 64)}); forks.push_back(std::move(b)); }
        return first ? EV_DEAD : EV_CONT; }
    case H_ASSUME: { E c = A(0); if (c->w != 1) c = cx.lnot(cx.eq(c, cx.c(0, c->w))); if (!feasible(s, c)) return EV_DEAD; pcAdd(s, c); return fin(s, in, none); }
    case H_ASSERT: { E c = A(0); if (c->w != 1) c = cx.lnot(cx.eq(c, cx.c(0, c->w))); string m = cstr(s, A(1)); assertCount[m]++; require(s, c, "assert", m); return fin(s, in, none); }
    case H_REACH: {
        string m = cstr(s, A(0)); if (!guide && !reached.count(m)) { std::shared_ptr<Model> mo; if (satq(s, cx.T(), &mo) == 1) reached[m] = reconstruct(mo, s.recs); }
        if (guide) s.trace.push_back({5, cur, 0, m});
        return fin(s, in, none); }
    case H_SPAWN: {
        E fp = A(0); if (!Ctx::isC(fp) || !fnAt.count(fp->k)) throw Unsupported{"vp_spawn of a symbolic function"};
        int t = s.th.size(); Thread th; s.th.push_back(th); pushFrame(s, t, fnAt[fp->k], {A(1)});
        Pos tp{0xfffffff3u, (uint32_t)t}; E a = allocObj(s, cx.c(64, 64), O_TLS, 0, tp, 0); fill(s, a, cx.c(0, 8), cx.c(64, 64)); s.th[t].tls = a->k;
        return fin(s, in, {cx.c(t, 32)}); }
    case H_RUN: { bool go; Event e = syncPoint(s, f, in, K_RUN_, cx.F(), forks, outs, go); if (!go) return e; return fin(s, in, none); }
    case H_DONE: { uint64_t t = cst(0, "vp_done"); return fin(s, in, {truth(t < s.th.size() && s.th[t].done)}); }
    case H_BLOCKED: { uint64_t t = cst(0, "vp_blocked"); return fin(s, in, {truth(t < s.th.size() && s.th[t].phase && !s.th[t].done)}); }
    case H_SPURB: s.spur = A(0); if (s.spur->w != 32) s.spur = cx.zext(s.spur, 32); if (guide) s.trace.push_back({6, cur, guide->eval(cx, s.spur), ""}); return fin(s, in, none);
    case H_GHOST: { vector<Case> cs; resolve(s, A(0), cs, cx.T()); for (auto &c : cs) if (c.idx >= 0) s.mem.v[c.idx].mut()->ghost = true; return fin(s, in, none); }
    case H_LIVE: { E n = cx.c(0, 64); for (auto &o : s.mem.v) if (o->kind == O_HEAP) n = cx.add(n, cx.zext(o->alive, 64)); return fin(s, in, {n}); }
    case H_BYTES: { E n = cx.c(0, 64); for (auto &o : s.mem.v) if (o->kind == O_HEAP) n = cx.add(n, cx.ite(o->alive, o->size, cx.c(0, 64))); return fin(s, in, {n}); }
    case H_FORBID: s.forbid = (int)cst(0, "vp_heap_forbid"); return fin(s, in, none);
    case H_SIZE: case H_BASE: {
        vector<Case> cs; resolve(s, A(0), cs, cx.T()); E r = cx.c(0, 64);
        for (auto &c : cs) { if (c.idx < 0) continue; const Obj *o = s.mem.v[c.idx].p; if (o->kind != O_HEAP) continue; r = cx.ite(cx.andd(c.guard, o->alive), callee->handler == H_SIZE ? o->size : cx.c(o->base, 64), r); }
        return fin(s, in, {r}); }
    }
    throw Unsupported{"handler"};
}
// Word a scheduling condition looks at (nullptr when the pointer is null).  No access checks: they are made when the operation executes.
E Engine::objWord(State &s, E p) {
    if (Ctx::isC(p) && !p->k) return nullptr;
    vector<Case> cs; resolve(s, p, cs, cx.T()); E r = nullptr;
    for (auto &c : cs) { if (c.idx == INT32_MIN || Ctx::isF(c.guard)) continue; Ref<Obj> o = objOf(s, c); if (Ctx::isC(c.off) && Ctx::isC(o->size) && c.off->k + 4 > o->size->k) continue; E v = readSym(s, o.p, c.off, 32); r = r ? cx.ite(c.guard, v, r) : v; }
    return r ? r : cx.c(0xffffffffu, 32);
}
// ---------------------------------------------------------------- merging
bool Engine::mergeable(const State &a, const State &b) {
    if (a.th.size() != b.th.size() || a.forbid != b.forbid || a.split != b.split) return false;
    for (size_t i = 0; i < a.th.size(); i++) {
        const Thread &x = a.th[i], &y = b.th[i]; if (x.done != y.done || x.go != y.go || x.left != y.left || x.phase != y.phase || x.fr.size() != y.fr.size() || x.tls != y.tls) return false;
        for (size_t k = 0; k < x.fr.size(); k++) { if (x.fr[k] == y.fr[k]) continue; if (x.fr[k]->fn != y.fr[k]->fn || x.fr[k]->bb != y.fr[k]->bb || x.fr[k]->ip != y.fr[k]->ip) return false; }
    }
    // exception records and lazily sized objects must be structurally compatible
    size_t i = 0, j = 0;
    while (i < a.mem.v.size() && j < b.mem.v.size()) {
        const Obj *x = a.mem.v[i].p, *y = b.mem.v[j].p; if (x->slot < y->slot) { i++; continue; } if (y->slot < x->slot) { j++; continue; }
        if (x != y) { if (x->lazy != y->lazy || x->kind != y->kind || x->alloc != y->alloc || x->ghost != y->ghost) return false; if (x->size != y->size && (!x->log.empty() || !y->log.empty())) return false; }
        i++; j++;
    }
    return true;
}
static E wholeAt(Ctx &, const Cell *c, unsigned i, unsigned n) { if (!c[i].e || c[i].i || c[i].e->w != 8 * n) return nullptr; for (unsigned k = 1; k < n; k++) if (c[i + k].e != c[i].e || c[i + k].i != k) return nullptr; return c[i].e; }
bool Engine::mergeObj(Obj *a, const Obj *b, E d) {
    a->alive = cx.ite(d, a->alive, b->alive);
    if (a->size != b->size) a->size = cx.ite(d, a->size, b->size);
    if (b->pages.size() > a->pages.size()) a->pages.resize(b->pages.size());
    bool heap = a->kind == O_HEAP;
    for (size_t p = 0; p < a->pages.size(); p++) {
        Ref<Page> x = a->pages[p], y = p < b->pages.size() ? b->pages[p] : Ref<Page>();
        if (x == y) continue;
        if (!x && !heap) { a->pages[p] = y; continue; } if (!y && !heap) continue;
        if (x && y && !x->sym && !y->sym && x->init == y->init && !memcmp(x->raw, y->raw, 64)) continue;
        Cell cx_[64], cy_[64]; auto load = [&](const Page *q, Cell *c) { for (int i = 0; i < 64; i++) { if (!q) c[i] = {nullptr, 0}; else if (q->sym) c[i] = q->c[i]; else if (q->init >> i & 1) c[i] = {cx.c(q->raw[i], 8), 0}; else c[i] = {nullptr, 0}; } };
        load(x.p, cx_); load(y.p, cy_);
        auto same = [&](unsigned i) { return cx_[i].e == cy_[i].e && cx_[i].i == cy_[i].i; };
        if (!x) x = Ref<Page>(new Page), a->pages[p] = x;
        x = nullptr;
        for (unsigned ch = 0; ch < 64; ch += 8) {
            bool diff = false; for (unsigned i = 0; i < 8; i++) if (!same(ch + i)) diff = true; if (!diff) continue;
            // choose widths: the widest aligned window that is whole (or assembled from initialised bytes) on both sides
            std::function<void(unsigned, unsigned)> go = [&](unsigned i, unsigned n) {
                bool df = false; for (unsigned k = 0; k < n; k++) if (!same(i + k)) df = true; if (!df) return;
                auto kind = [&](const Cell *c) { E w = wholeAt(cx, c, i, n); if (w) return 2; bool allc = true, init = true; for (unsigned k = 0; k < n; k++) { if (!c[i + k].e) init = allc = false; else if (!Ctx::isC(c[i + k].e)) allc = false; } return allc ? 1 : init ? -1 : 0; };
                int ka = kind(cx_), kb = kind(cy_);
                bool take = (ka > 0 && kb > 0 && !(n == 8 && ka == 1 && kb == 1 && [&] { bool lo = true, hi = true; for (unsigned k = 0; k < 4; k++) { if (!same(i + k)) lo = false; if (!same(i + 4 + k)) hi = false; } return lo || hi; }()));
                if (!take && n > 1) { go(i, n / 2); go(i + n / 2, n / 2); return; }
                auto mk = [&](const Cell *c) -> E { E w = wholeAt(cx, c, i, n); if (w) return w; E r = nullptr; for (unsigned k = 0; k < n; k++) { E v = c[i + k].e ? byteOf(c[i + k], a, 0) : nullptr; if (!v) return nullptr; r = r ? cx.concat(v, r) : v; } return r; };
                E va = mk(cx_), vb = mk(cy_); uint64_t off = p * 64 + i;
                if (!va) va = heap ? uninit(a, off) : vb; if (!vb) vb = heap ? uninit(a, off) : va;
                writeConst(a, off, cx.ite(d, va, vb));
            };
            go(ch, 8);
        }
    }
    if (!a->log.empty() || !b->log.empty()) {
        auto eqr = [&](const LogRec &p, const LogRec &q) { return p.guard == q.guard && p.off == q.off && p.len == q.len && p.val == q.val && p.fill == q.fill; };
        size_t k = 0; while (k < a->log.size() && k < b->log.size() && eqr(a->log[k], b->log[k])) k++;
        E nd = cx.lnot(d);
        for (size_t i = k; i < a->log.size(); i++) a->log[i].guard = cx.andd(a->log[i].guard, d);
        for (size_t i = k; i < b->log.size(); i++) { LogRec r = b->log[i]; r.guard = cx.andd(r.guard, nd); a->log.push_back(r); }
    }
    return true;
}
bool Engine::merge(State &a, State &b) {
    if (!mergeable(a, b)) { nMergeFail++; return false; }
    // common ancestor of the path conditions
    const PC *x = a.pc, *y = b.pc; vector<E> ca, cb; while (x->depth > y->depth) { ca.push_back(x->cond); x = x->parent; } while (y->depth > x->depth) { cb.push_back(y->cond); y = y->parent; }
    while (x != y) { ca.push_back(x->cond); x = x->parent; cb.push_back(y->cond); y = y->parent; }
    bool fresh = !x; if (fresh) { x = pcMk(nullptr, cx.T()); }
    std::reverse(ca.begin(), ca.end()); std::reverse(cb.begin(), cb.end());
    E A = cx.T(), B = cx.T(); for (E c : ca) A = cx.andd(A, c); for (E c : cb) B = cx.andd(B, c);
    E d = nullptr; if (fresh) { d = cx.var("mrg|" + std::to_string(nMrgVar++), 1); if (A != B) { ca.push_back(d); cb.push_back(cx.lnot(d)); A = cx.andd(A, d); B = cx.andd(B, cx.lnot(d)); } } else for (E c : ca) { for (E q : cb) if (cx.neg(c, q)) { d = c; break; } if (d) break; }
    if (!d) { if (cb.size() == 1) d = cx.lnot(B); else d = A; }
    if (a.recs != b.recs) { vector<std::pair<int, E>> nr; for (auto p : a.recs) nr.push_back({p.first, cx.andd(d, p.second)}); for (auto p : b.recs) nr.push_back({p.first, cx.andd(cx.lnot(d), p.second)}); a.recs = nr; }
    State r = a; for (size_t i = 0; i < r.th.size(); i++) if (r.th[i].held != b.th[i].held) { vector<uint64_t> k; for (uint64_t h : r.th[i].held) for (uint64_t q : b.th[i].held) if (h == q) { k.push_back(h); break; } r.th[i].held = k; }
    r.pc = x; E o = cx.orr(A, B); if (!Ctx::isT(o)) { 
        // factor conditions common to both sides
        for (E c : ca) if (std::find(cb.begin(), cb.end(), c) != cb.end()) pcAdd(r, c);
        if (r.pc != x) { A = cx.T(); B = cx.T(); for (E c : ca) if (std::find(cb.begin(), cb.end(), c) == cb.end()) A = cx.andd(A, c); for (E c : cb) if (std::find(ca.begin(), ca.end(), c) == ca.end()) B = cx.andd(B, c); o = cx.orr(A, B); }
        if (!Ctx::isT(o)) r.pc = pcMk(r.pc, o); }
    // registers
    for (size_t t = 0; t < r.th.size(); t++) {
        Thread &ta = r.th[t]; const Thread &tb = b.th[t];
        for (size_t k = 0; k < ta.fr.size(); k++) {
            if (ta.fr[k] == tb.fr[k]) continue; Frame *fa = ta.fr[k].mut(); const Frame *fb = tb.fr[k].p;
            const BBk &bb = fa->fn->bbs[fa->bb]; const vector<uint64_t> *live = nullptr;
            if (fa->ip == 0 && k + 1 == ta.fr.size()) live = &fa->fn->liveSets[bb.liveIn]; else if (bb.ins[fa->ip].live >= 0 && k + 1 < ta.fr.size()) live = &fa->fn->liveSets[bb.ins[fa->ip].live];
            for (size_t i = 0; i < fa->regs.size(); i++) {
                E &p = fa->regs[i]; E q = fb->regs[i]; if (p == q) continue;
                if (live && !((*live)[i >> 6] >> (i & 63) & 1)) { p = nullptr; continue; }
                if (!p || !q) { if (live) { p = nullptr; continue; } p = p ? p : q; continue; }
                p = cx.ite(d, p, q);
            }
            for (uint32_t sl : fb->allocas) if (std::find(fa->allocas.begin(), fa->allocas.end(), sl) == fa->allocas.end()) fa->allocas.push_back(sl);
        }
    }
    // memory
    Mem out; out.v.reserve(a.mem.v.size() + 2); size_t i = 0, j = 0; auto &va = a.mem.v; auto &vb = b.mem.v;
    while (i < va.size() || j < vb.size()) {
        if (j >= vb.size() || (i < va.size() && va[i]->slot < vb[j]->slot)) { Ref<Obj> o = va[i++]; E al = cx.andd(o->alive, d); if (al != o->alive) o.mut()->alive = al; out.v.push_back(o); continue; }
        if (i >= va.size() || vb[j]->slot < va[i]->slot) { Ref<Obj> o = vb[j++]; E al = cx.andd(o->alive, cx.lnot(d)); if (al != o->alive) o.mut()->alive = al; out.v.push_back(o); continue; }
        if (va[i] == vb[j]) { out.v.push_back(va[i]); i++; j++; continue; }
        Ref<Obj> o = va[i]; Obj *m; { m = new Obj(*o.p); m->rc = 0; } mergeObj(m, vb[j].p, d); out.v.push_back(Ref<Obj>(m)); i++; j++;
    }
    r.mem = std::move(out);
    if (r.spur != b.spur) { E z = cx.c(0, 32); r.spur = cx.ite(d, r.spur ? r.spur : z, b.spur ? b.spur : z); }
    for (auto &p : b.faults) if (!r.faults.count(p.first)) r.faults[p.first] = cx.c(0, 32);
    for (auto &p : r.faults) { auto it = b.faults.find(p.first); E q = it == b.faults.end() ? cx.c(0, 32) : it->second; p.second = cx.ite(d, p.second, q); }
    for (auto &g : r.feet) g.second = cx.andd(g.second, d); E nd = cx.lnot(d);
    for (auto &fp : b.feet) { bool f = false; E c = cx.andd(fp.second, nd); for (auto &g : r.feet) if (g.first == fp.first) { g.second = cx.orr(g.second, c); f = true; } if (!f) r.feet.push_back({fp.first, c}); }
    a = std::move(r); nMerges++; return true;
}
void Engine::push(WorkList &wl, State &&s) {
    auto &l = wl[{s.split, threadPos(s, cur)}];
    if (!guide) for (auto &x : l) if (merge(x, s)) return;
    l.push_back(std::move(s));
}
void Engine::segment(State init, int t, vector<State> &out) {
    cur = t; WorkList wl; auto &first = wl[{init.split, threadPos(init, t)}]; first.push_back(std::move(init));
    while (!wl.empty()) {
        auto it = wl.begin(); vector<State> l = std::move(it->second); wl.erase(it);
        for (auto &s : l) {
            vector<State> forks;
            try {
                for (;;) { Event e = run(s, forks, out); for (auto &x : forks) push(wl, std::move(x)); forks.clear(); if (e == EV_BLOCK) { if (wl.empty() && l.size() == 1) continue; push(wl, std::move(s)); } else if (e == EV_DONE) { nPaths++; out.push_back(std::move(s)); } break; }
            } catch (PathEnd &) { for (auto &x : forks) push(wl, std::move(x)); }
        }
    }
}
// ---------------------------------------------------------------- races
void Engine::raceCheck(State &st, const vector<std::pair<Ref<Foot>, E>> &prev, const Foot &f) {
    struct P { const Access *a, *b; uint64_t sk; E c; int tid; };
    for (auto &pf : prev) {
        const Foot &g = *pf.first; if (g.tid == f.tid || g.tid == 0 || f.tid == 0) continue;
        vector<P> ps; E any = cx.F(); std::map<std::tuple<E, uint32_t, E, uint32_t>, E> ovMemo; std::map<std::pair<uint32_t, uint32_t>, E> hbMemo;
        for (auto &a : g.acc) for (auto &b : f.acc) {
            if (a.slot != b.slot || (!a.wr && !b.wr) || (a.at && b.at)) continue;
            E ov; if (Ctx::isC(a.off) && Ctx::isC(b.off)) { if (a.off->k + a.n <= b.off->k || b.off->k + b.n <= a.off->k) continue; ov = cx.T(); }
            else if ((Ctx::isC(a.off) || a.off->leaves) && (Ctx::isC(b.off) || b.off->leaves)) {
                auto key = std::make_tuple(a.off, a.n, b.off, b.n); auto im = ovMemo.find(key); if (im != ovMemo.end()) ov = im->second;
                else {
                    auto vals = [&](E p) { std::set<uint64_t> v; vector<E> w{p}; std::set<E> seen; while (!w.empty()) { E x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; if (Ctx::isC(x)) v.insert(x->k); else { w.push_back(x->b); w.push_back(x->c); } } return v; };
                    ov = cx.F(); auto vb = vals(b.off); for (uint64_t x : vals(a.off)) { E m = cx.F(); for (uint64_t y : vb) if (x < y + b.n && y < x + a.n) m = cx.orr(m, cx.eq(b.off, cx.c(y, 64))); ov = cx.orr(ov, cx.andd(cx.eq(a.off, cx.c(x, 64)), m)); }
                    ovMemo[key] = ov;
                }
            }
            else ov = cx.orr(cx.ult(cx.sub(a.off, b.off), cx.c(b.n, 64)), cx.ult(cx.sub(b.off, a.off), cx.c(a.n, 64)));
            uint64_t sk = ((uint64_t)a.site << 32) | b.site; if (!guide && raceSites.count(sk)) continue;
            // releases after a.last and acquires before b.first order the two accesses
            uint32_t ra = 0, qb = 0; for (auto &r : g.hb) if (r.kind == 2 && r.seq > a.last) ra++; for (auto &q : f.hb) if (q.kind == 1 && q.seq < b.first) qb++;
            auto mk = std::make_pair(ra, qb); auto it = hbMemo.find(mk); E hb;
            if (it != hbMemo.end()) hb = it->second;
            else { hb = cx.F(); for (auto &r : g.hb) if (r.kind == 2 && r.seq > a.last) for (auto &q : f.hb) if (q.kind == 1 && q.seq < b.first) hb = cx.orr(hb, cx.andd(cx.andd(r.guard, q.guard), cx.eq(r.addr, q.addr))); hbMemo[mk] = hb; }
            E c = cx.andd(cx.andd(pf.second, a.guard), cx.andd(b.guard, cx.andd(ov, cx.lnot(hb)))); if (Ctx::isF(c)) continue;
            ps.push_back({&a, &b, sk, c, g.tid}); any = cx.orr(any, c);
        }
        if (ps.empty()) continue;
        State t; t.pc = rootPc; std::shared_ptr<Model> m;
        if (!guide) { raceQ++; int r = satq(t, any, &m); if (r == 0) continue; if (r < 0) { unknownSeen = true; unknownWhat = "race"; continue; } }
        for (auto &p : ps) {
            if (!guide && raceSites.count(p.sk)) continue;
            int r = satq(t, p.c, &m, true); if (r < 0) { unknownSeen = true; unknownWhat = "race"; continue; } if (!r) continue;
            string msg = "data race: " + accDesc(*p.a) + " (thread " + std::to_string(g.tid) + ") and " + accDesc(*p.b) + " (thread " + std::to_string(f.tid) + ")";
            if (guide) { if (guideLabel == "race|" + msg) { guideHit = true; /* the trace ends with the segment of the second access */ throw StopRun{"guide reached race"}; } continue; }
            raceSites.insert(p.sk); Violation v; v.kind = "race"; v.msg = msg; v.model = reconstruct(m, st.recs); for (auto s2 : {p.a->site, p.b->site}) { MDNode *md = siteIns[s2]->getMetadata("rsxid"); if (md) v.sites.push_back(mdconst::extract<ConstantInt>(md->getOperand(0))->getZExtValue()); }
            races.push_back(v); if (!opt.raceCollect) throw StopRun{"violation"};
        }
    }
}
// ---------------------------------------------------------------- exploration
// kind of the operation thread t is suspended at; idle: 0 normal, 1 sleeping, 2 vp_run
E Engine::enabled(State &s, int t, int &idle) {
    idle = 0; Thread &th = s.th[t]; if (th.done) return cx.F(); if (!th.phase) return cx.T();
    Frame *f = th.fr.back().mut(); const Ins &in = f->fn->bbs[f->bb].ins[f->ip];
    if (in.opc != Instruction::Call && in.opc != Instruction::Invoke) throw Unsupported{"suspended at a non-call"};
    if (!in.callee) throw Unsupported{"suspended at an indirect call"};
    if (in.callee->handler == H_RUN) { idle = 2; return cx.T(); }
    if (in.callee->handler == H_YIELD) return cx.T();
    if (in.callee->handler != H_SYNC) throw Unsupported{"suspended at " + in.callee->name};
    E k = val(f, in.o[0]); if (Ctx::isC(k) && k->k == K_SLEEP_) { idle = 1; return cx.T(); }
    E en = cx.T(); for (int i = 1; i <= 4; i += 3) { E w = objWord(s, val(f, in.o[i])); if (w) en = cx.andd(en, cx.eq(cx.andd(w, val(f, in.o[i + 1])), val(f, in.o[i + 2]))); }
    return en;
}
void Engine::finish(State &s) { if (guide) endTrace = s.trace; else nEnds++; }
void Engine::explore(State s0) {
    std::map<std::pair<vector<uint8_t>, vector<Pos>>, vector<State>> nodes; vector<State> out;
    auto add = [&](State &&s) { if (s.th[0].done) { finish(s); return; } auto &l = nodes[{s.split, nodeKey(s)}]; if (!guide) for (auto &x : l) if (merge(x, s)) return; l.push_back(std::move(s)); };
    footCur = nullptr; segment(std::move(s0), 0, out); for (auto &o : out) add(std::move(o)); out.clear();
    while (!nodes.empty()) {
        auto it = nodes.begin(); vector<Pos> key = it->first.second; vector<State> l = std::move(it->second); nodes.erase(it);
        auto ki = nodeIntern.find(key); uint32_t nid; if (ki == nodeIntern.end()) { nid = nodeIntern.size(); nodeIntern[key] = nid; } else nid = ki->second;
        if (!guide) { nNodes++; maxLive = std::max(maxLive, (uint64_t)nodes.size() + 1); if (opt.verbose && nNodes % 100 == 0) fprintf(stderr, "nodes %lu segs %lu live %zu merges %lu fails %lu queries %lu t %.1f exprs %zu compact %lu/%lu cases %lu max %lu\n", nNodes, nSegs, nodes.size(), nMerges, nMergeFail, sv.st.queries, sv.st.time, cx.all.size(), nCompact, nCompactFail, nCases, maxCases); }
        if (nNodes > opt.maxNodes) throw StopRun{"node limit"};
        for (auto &s : l) {
            checkTime(); compact(s);
            int n = s.th.size(); vector<E> en(n); vector<int> idle(n, 0); E any = cx.F(), anySleep = cx.F(); int fresh = -1;
            for (int t = 0; t < n; t++) { cur = t; en[t] = enabled(s, t, idle[t]); if (t && !s.th[t].done && !s.th[t].phase && fresh < 0) fresh = t; }
            if (fresh >= 0) { for (int t = 0; t < n; t++) if (t != fresh) en[t] = cx.F(); }
            else {
                for (int t = 0; t < n; t++) if (idle[t] == 0) any = cx.orr(any, en[t]);
                for (int t = 0; t < n; t++) if (idle[t] == 1) { en[t] = cx.andd(en[t], cx.lnot(any)); anySleep = cx.orr(anySleep, en[t]); }
                for (int t = 0; t < n; t++) if (idle[t] == 2) en[t] = cx.andd(en[t], cx.lnot(cx.orr(any, anySleep)));
            }
            E tot = cx.F(); for (int t = 0; t < n; t++) tot = cx.orr(tot, en[t]);
            if (!Ctx::isT(tot)) { cur = 0; violation(s, cx.lnot(tot), "deadlock", "no thread can run"); if (!feasible(s, tot)) continue; }
            vector<int> cand; for (int t = 0; t < n; t++) if (!Ctx::isF(en[t]) && feasible(s, en[t])) cand.push_back(t);
            E notYet = cx.T();
            for (size_t i = 0; i < cand.size(); i++) {
                int t = cand[i]; E later = cx.F(); for (size_t j = i + 1; j < cand.size(); j++) later = cx.orr(later, en[cand[j]]);
                E pick = cx.andd(notYet, en[t]); if (!Ctx::isF(later)) { E v = cx.var("sch|" + std::to_string(nid) + "|" + std::to_string(t), 1); pick = cx.andd(pick, cx.orr(v, cx.lnot(later))); }
                notYet = cx.andd(notYet, cx.lnot(pick));
                if (!feasible(s, pick)) continue;
                State q = s; pcAdd(q, pick); q.th[t].go = s.th[t].phase != 0; q.th[t].left = s.th[t].phase == 0; q.th[t].phase = 1; /* the first segment stops before the first operation that is not a lock */ nSegs++;
                if (guide) q.trace.push_back({0, t, 0, ""});
                vector<std::pair<Ref<Foot>, E>> prev = std::move(q.feet); q.feet.clear();
                footCur = racePhase == 2 && t ? Ref<Foot>(new Foot) : Ref<Foot>(); if (footCur) footCur->tid = t;
                out.clear(); segment(std::move(q), t, out);
                if (footCur && !footCur->acc.empty()) { if (!prev.empty()) { cur = t; if (guide) guideTrace = out.empty() ? s.trace : out[0].trace; raceCheck(s, prev, *footCur); } for (auto &o : out) o.feet = {{footCur, o.pc->full}}; }
                for (auto &o : out) add(std::move(o)); out.clear();
            }
        }
    }
}
// ---------------------------------------------------------------- top level
State Engine::initial() {
    const Function *M = mod->getFunction("vp_main"); if (!M || M->isDeclaration()) throw Unsupported{"no vp_main"};
    State s = init0; s.th.push_back(Thread()); cur = 0; s.th[0].phase = 1; 
    Pos tp{0xfffffff3u, 0}; pushFrame(s, 0, getFn(M), {}); E a = allocObj(s, cx.c(64, 64), O_TLS, 0, tp, 0); inModel = true; fill(s, a, cx.c(0, 8), cx.c(64, 64)); inModel = false; s.th[0].tls = a->k;
    // global constructors of the program run before vp_main, in order, each in its own frame on top
    vector<std::pair<uint64_t, Function *>> ct;
    if (auto *G = mod->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto &op : CA->operands()) { auto *CS = cast<ConstantStruct>(op); if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) ct.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(ct.begin(), ct.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &c : ct) {
        State q = s; q.th[0].fr.clear(); q.th[0].done = false; pushFrame(q, 0, getFn(c.second), {}); vector<State> out; ctorSeq++; q.th[0].fr.back().mut()->prefix = {0xfffffff4u, ctorSeq}; segment(q, 0, out);
        if (out.size() != 1 || !out[0].th[0].done) throw Unsupported{"global constructor"}; auto fr = s.th[0].fr; s = out[0]; s.th[0].fr = fr; s.th[0].done = false;
    }
    ctorSeq = 0; return s;
}
bool Engine::runGuide(std::shared_ptr<Model> m, const string &label, vector<Ev> &trace) {
    guide = m; guideHit = false; guideLabel = label; guideTrace.clear(); m->clear();
    try { endTrace.clear(); explore(initial()); } catch (StopRun &) {} catch (PathEnd &) {} catch (Unsupported &u) { guide = nullptr; fprintf(stderr, "guide: %s\n", u.why.c_str()); return false; }
    guide = nullptr; trace = guideTrace; return guideHit;
}
static string js(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\', r += c; else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
void Engine::writeResult(const string &status, const string &why) {
    std::ofstream o(opt.out); double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    o << "{\n\"status\": " << js(status) << ",\n\"why\": " << js(why) << ",\n\"seconds\": " << el << ",\n\"nodes\": " << nNodes << ", \"segments\": " << nSegs << ", \"max_live_nodes\": " << maxLive << ", \"merges\": " << nMerges << ", \"merge_failures\": " << nMergeFail << ", \"forks\": " << nForks << ", \"instructions\": " << nInstr << ", \"paths\": " << nPaths << ", \"ends\": " << nEnds << ", \"vars\": " << cx.vars.size() << ", \"exprs\": " << cx.all.size() << ", \"accel\": " << nAccel << ", \"compactions\": " << nCompact << ", \"compaction_failures\": " << nCompactFail << ", \"cases\": " << nCases << ", \"max_cases\": " << maxCases << ",\n";
    o << "\"solver\": {\"queries\": " << sv.st.queries << ", \"sat\": " << sv.st.sat << ", \"unsat\": " << sv.st.unsat << ", \"unknown\": " << sv.st.unknown << ", \"time\": " << sv.st.time << ", \"max_time\": " << sv.st.maxTime << ", \"model_hits\": " << sv.st.modelHits << ", \"cache_hits\": " << sv.st.cacheHits << ", \"sat_engine\": " << sv.st.fast << ", \"sat_engine_time\": " << sv.st.fastTime << ", \"confirmed_by_z3\": " << sv.st.confirmed << ", \"sampled_by_z3\": " << sv.st.sampled << "},\n\"assert_checks\": " << nAsserts << ", \"assert_queries\": " << nAssertQ << ", \"race_queries\": " << raceQ << ", \"race_locations\": " << nLocs << ", \"race_suspects\": " << nSuspect << ",\n\"asserts\": {";
    bool first = true; for (auto &a : assertCount) { o << (first ? "" : ", ") << js(a.first) << ": " << a.second; first = false; }
    o << "},\n\"kinds\": {"; first = true; for (auto &a : kindCount) { o << (first ? "" : ", ") << js(a.first) << ": " << a.second; first = false; }
    o << "},\n\"reached\": ["; first = true; for (auto &r : reached) { o << (first ? "" : ", ") << js(r.first); first = false; }
    o << "],\n\"unreached\": ["; first = true; for (auto &r : expectReach) if (!reached.count(r)) { o << (first ? "" : ", ") << js(r); first = false; }
    o << "],\n\"functions\": ["; first = true; for (auto &f : fns) if (f->execd && !f->model && f->F->getSection() != "rsx_model") { o << (first ? "\n" : ",\n") << "{\"name\": " << js(demangle(f->name)) << ", \"file\": "; string fl; if (auto *SP = f->F->getSubprogram()) { fl = SP->getFilename().str(); } o << js(fl) << ", \"instructions\": " << f->ninstr << ", \"calls\": " << f->calls << ", \"executed\": " << f->execd << "}"; first = false; }
    auto tr = [&](const vector<Ev> &t) { o << "["; bool f2 = true; for (auto &e : t) { o << (f2 ? "" : ",") << "[" << e.kind << "," << e.tid << "," << e.v << "," << js(e.name) << "]"; f2 = false; } o << "]"; };
    o << "],\n\"witnesses\": {"; first = true; for (auto &w : witness) { o << (first ? "\n" : ",\n") << js(w.first) << ": "; tr(w.second); first = false; }
    o << "},\n\"violations\": ["; first = true; for (auto *vl : {&violations, &races}) for (auto &v : *vl) { o << (first ? "\n" : ",\n") << "{\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where) << ", \"traced\": " << (v.traced ? "true" : "false") << ", \"sites\": ["; for (size_t i = 0; i < v.sites.size(); i++) o << (i ? "," : "") << v.sites[i]; o << "], \"trace\": "; tr(v.trace); o << "}"; first = false; }
    o << "]\n}\n";
}
void Engine::main() {
    t0 = std::chrono::steady_clock::now(); string status = "ok", why;
    try {
        load(); rootPc = init0.pc = pcMk(nullptr, cx.T()); init0.recs = {{-1, cx.T()}}; layoutGlobals(init0);
        for (auto &F : *mod) for (auto &B : F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) if (C->getName() == "vp_reach") { if (auto *G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts())) if (auto *D = dyn_cast_or_null<ConstantDataArray>(G->getInitializer())) expectReach.insert(D->getAsCString().str()); }
        if (opt.race) racePhase = 1;
        explore(initial());
        if (opt.race) { findSuspects(); if (!suspects.empty()) { racePhase = 2; explore(initial()); } }
    } catch (StopRun &r) { why = r.why; status = r.why == "violation" ? "violation" : "limit"; } catch (Unsupported &u) { status = "unsupported"; why = u.why; if (curIns && curIns->I) { string ws; llvm::raw_string_ostream wo(ws); curIns->I->print(wo); fprintf(stderr, "at %s\n", ws.c_str()); } if (!init0.th.empty()) {} } catch (PathEnd &) {}
    if (!races.empty() && status == "ok") status = "violation";
    if (status == "unsupported" && opt.verbose) fprintf(stderr, "unsupported: %s\n", why.c_str());
    if (status == "ok" && unknownSeen) { status = "unknown"; why = unknownWhat; }
    double lim = opt.timeLimit; opt.timeLimit = lim + 200;
    for (auto &v : violations) { guideWant.clear(); v.traced = runGuide(v.model, "", v.trace); if (!v.traced) fprintf(stderr, "rsx: violation not reproduced by concrete re-execution\n"); }
    for (auto &v : races) { string lab = "race|" + v.msg; v.traced = runGuide(v.model, lab, v.trace); }
    if (!opt.noWitness && status == "ok") { int n = 0; for (auto &r : reached) { if (n++ >= opt.maxWitness) break; vector<Ev> t; guideWant = r.first; runGuide(r.second, "", t); if (!endTrace.empty()) witness[r.first] = endTrace; else if (opt.verbose) fprintf(stderr, "witness for %s did not end\n", r.first.c_str()); } }
    writeResult(status, why);
    if (opt.verbose || status != "ok") { fprintf(stderr, "rsx: %s %s; nodes %lu segments %lu queries %lu solver %.2fs fast %.2fs (%lu) confirmed %lu sampled %lu\n", status.c_str(), why.c_str(), nNodes, nSegs, sv.st.queries, sv.st.time, sv.st.fastTime, sv.st.fast, sv.st.confirmed, sv.st.sampled); for (auto *vl : {&violations, &races}) for (auto &v : *vl) fprintf(stderr, "  %s: %s\n    %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); }
}
} // namespace rsx

int instrumentMain(int argc, char **argv);
int main(int argc, char **argv) {
    if (argc > 1 && std::string("instrument") == argv[1]) return instrumentMain(argc - 1, argv + 1);
    rsx::Options o; 
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--race") o.race = true; else if (a == "--race-collect") o.race = o.raceCollect = true; else if (a == "--full") o.reduce = false; else if (a == "-v") o.verbose = true; else if (a == "--time") o.timeLimit = atof(nx().c_str()); else if (a == "--solver-ms") o.solverMs = atoi(nx().c_str()); else if (a == "-o") o.out = nx(); else if (a == "--no-witness") o.noWitness = true; else if (a == "--cap") o.cap = atol(nx().c_str()); else if (a == "--max-nodes") o.maxNodes = atol(nx().c_str()); else if (a == "--max-witness") o.maxWitness = atoi(nx().c_str()); else if (a[0] == '-') { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; } else o.bc = a; }
    if (o.out.empty()) o.out = "/dev/stdout";
    rsx::Engine e(o); e.main(); return 0;
}
