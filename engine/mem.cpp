// Symbolic memory.
#include "rsx.h"
namespace rsx {
static const uint64_t BASE = 0x100000000000ull;

const PC *Engine::pcMk(const PC *p, E c) { PC *n = new PC; n->parent = p; n->cond = c; n->full = p ? cx.andd(p->full, c) : c; n->depth = p ? p->depth + 1 : 0; return n; }
void Engine::pcAdd(State &s, E c) { if (Ctx::isT(c)) return; if (c->op == AND && c->w == 1) { pcAdd(s, c->a); pcAdd(s, c->b); return; } for (auto *p = s.pc; p; p = p->parent) if (p->cond == c) return; s.pc = pcMk(s.pc, c); }
int Engine::feas(const State &s, E c) {
    if (Ctx::isC(c)) return c->k != 0;
    E full = s.pc->full;
    if (guide) return guide->eval(cx, c) == 1;
    int d = 0; for (auto *p = s.pc; p && d < 200; p = p->parent, d++) { if (p->cond == c) return 1; if (cx.neg(p->cond, c)) return 0; }
    for (size_t i = 0; i < sv.models.size(); i++) { auto &m = sv.models[i]; if (m->eval(cx, full) == 1 && m->eval(cx, c) == 1) { sv.st.modelHits++; if (i > 4) { auto t = m; sv.models.erase(sv.models.begin() + i); sv.models.push_front(t); } return 1; } }
    d = 0; for (auto *p = s.pc; p && d < 64; p = p->parent, d++) { auto it = fcache.find(((uint64_t)p->full->id << 32) | c->id); if (it != fcache.end()) { if (it->second == 0 || d == 0) { sv.st.cacheHits++; return it->second; } } }
    checkTime();
    int r = sv.checkRaw({full, c}, nullptr); fcache[((uint64_t)full->id << 32) | c->id] = r; return r;
}
int Engine::satq(const State &s, E c, std::shared_ptr<Model> *m, bool prop) {
    if (Ctx::isF(c)) return 0;
    if (guide) { *m = guide; return guide->eval(cx, c) == 1; }
    for (auto &mo : sv.models) if (mo->eval(cx, s.pc->full) == 1 && mo->eval(cx, c) == 1) { *m = mo; sv.st.modelHits++; return 1; }
    int d = 0; for (auto *p = s.pc; p && d < 64; p = p->parent, d++) { auto it = fcache.find(((uint64_t)p->full->id << 32) | c->id); if (it != fcache.end() && it->second == 0) { sv.st.cacheHits++; return 0; } }
    checkTime();
    int r = sv.checkRaw({s.pc->full, c}, m, prop); fcache[((uint64_t)s.pc->full->id << 32) | c->id] = r; return r;
}
bool Engine::enumVals(State &s, E e, size_t max, vector<uint64_t> &vals) {
    if (Ctx::isC(e)) { vals.push_back(e->k); return true; }
    if (guide) { vals.push_back(guide->eval(cx, e)); return true; }
    E rest = cx.T(); std::set<uint64_t> seen;
    for (auto &mo : sv.models) if (mo->eval(cx, s.pc->full) == 1) { uint64_t v = mo->eval(cx, e); if (seen.insert(v).second) { rest = cx.andd(rest, cx.lnot(cx.eq(e, cx.c(v, e->w)))); if (seen.size() > max) return false; } }
    for (;;) {
        std::shared_ptr<Model> m; int r = satq(s, rest, &m); if (r < 0) { unknownSeen = true; unknownWhat = "value enumeration"; return false; } if (!r) break;
        uint64_t v = m->eval(cx, e); seen.insert(v); rest = cx.andd(rest, cx.lnot(cx.eq(e, cx.c(v, e->w)))); if (seen.size() > max) return false;
    }
    vals.assign(seen.begin(), seen.end()); return true;
}
unsigned Engine::tz(E e) {
    switch (e->op) {
    case CONST: return e->k ? __builtin_ctzll(e->k) : 64;
    case SHL: return e->b->op == CONST ? tz(e->a) + e->b->k : tz(e->a);
    case ADD: case SUB: case OR: case XOR: return std::min(tz(e->a), tz(e->b));
    case MUL: return tz(e->a) + tz(e->b); case AND: return std::max(tz(e->a), tz(e->b));
    case ITE: return std::min(tz(e->b), tz(e->c)); case ZEXT: case SEXT: return tz(e->a); case CONCAT: return tz(e->b) >= e->b->w ? 64 : tz(e->b);
    case EXTRACT: return e->k == 0 ? tz(e->a) : 0;
    default: return 0;
    }
}
// ---------------------------------------------------------------- cells
E Engine::uninit(const Obj *o, uint64_t off) { return cx.var("u|" + std::to_string(o->slot) + "|" + std::to_string(off), 8); }
static inline void toSym(Ctx &cx, Page *p) { if (p->sym) return; p->c = new Cell[64]; for (int i = 0; i < 64; i++) p->c[i] = (p->init >> i & 1) ? Cell{cx.c(p->raw[i], 8), 0} : Cell{nullptr, 0}; p->sym = true; }
Cell Engine::cellAt(const Obj *o, uint64_t off) {
    if (off / 64 >= o->pages.size() || !o->pages[off / 64]) return {nullptr, 0};
    const Page *p = o->pages[off / 64].p; unsigned i = off & 63;
    if (p->sym) return p->c[i];
    if (p->init >> i & 1) return {cx.c(p->raw[i], 8), 0};
    return {nullptr, 0};
}
void Engine::setCell(Obj *o, uint64_t off, Cell c) {
    auto &r = o->pages[off / 64]; if (!r) r = Ref<Page>(new Page); Page *p = r.mut(); unsigned i = off & 63;
    if (!p->sym) { if (c.e && Ctx::isC(c.e)) { p->raw[i] = (uint8_t)(c.e->k >> (8 * c.i)); p->init |= 1ull << i; return; } toSym(cx, p); }
    if (c.e && Ctx::isC(c.e) && (c.e->w != 8)) c = {cx.c(c.e->k >> (8 * c.i), 8), 0};
    p->c[i] = c;
}
E Engine::byteOf(Cell c, const Obj *, uint64_t) { if (c.e->w == 8) return c.e; return cx.extract(c.e, 8 * c.i, 8); }
E Engine::readConst(const Obj *o, uint64_t off, unsigned bits) {
    unsigned n = (bits + 7) / 8; E r = nullptr;
    // fast concrete path
    if (off / 64 < o->pages.size() && (off & 63) + n <= 64) { const Page *p = o->pages[off / 64].p; if (p && !p->sym) { uint64_t m = (n == 64 ? ~0ull : ((1ull << n) - 1)) << (off & 63); if ((p->init & m) == m) { uint64_t v = 0; memcpy(&v, p->raw + (off & 63), n); return cx.c(v, bits); } } }
    Cell c0 = cellAt(o, off);
    if (c0.e && c0.i == 0 && c0.e->w == 8 * n) { bool all = true; for (unsigned i = 1; i < n && all; i++) { Cell c = cellAt(o, off + i); all = c.e == c0.e && c.i == i; } if (all) r = c0.e; }
    if (!r) { for (unsigned i = 0; i < n; i++) { Cell c = cellAt(o, off + i); E b = c.e ? byteOf(c, o, off + i) : uninit(o, off + i); r = r ? cx.concat(b, r) : b; } }
    return bits == 8 * n ? r : cx.extract(r, 0, bits);
}
void Engine::writeConst(Obj *o, uint64_t off, E v) {
    unsigned n = v->w / 8;
    if (Ctx::isC(v) && (off & 63) + n <= 64) { auto &r = o->pages[off / 64]; if (!r) r = Ref<Page>(new Page); Page *p = r.mut(); if (!p->sym) { memcpy(p->raw + (off & 63), &v->k, n); p->init |= (n == 64 ? ~0ull : ((1ull << n) - 1)) << (off & 63); return; } for (unsigned i = 0; i < n; i++) p->c[(off & 63) + i] = {v, (uint8_t)i}; return; }
    if ((off & 63) + n <= 64) { auto &r = o->pages[off / 64]; if (!r) r = Ref<Page>(new Page); Page *p = r.mut(); toSym(cx, p); for (unsigned i = 0; i < n; i++) p->c[(off & 63) + i] = {v, (uint8_t)i}; return; }
    for (unsigned i = 0; i < n; i++) setCell(o, off + i, {v, (uint8_t)i});
}
E Engine::readLogByte(const Obj *o, E off, size_t upto, E base) {
    E v;
    if (base) v = base; else if (Ctx::isC(off) && !o->lazy) { Cell c = cellAt(o, off->k); v = c.e ? byteOf(c, o, off->k) : uninit(o, off->k); }
    else v = cx.var("us|" + std::to_string(o->slot) + "|" + std::to_string(off->id), 8);
    for (size_t i = 0; i < upto; i++) {
        const LogRec &r = o->log[i];
        E d = cx.sub(off, r.off);
        if (r.fill) { E c = cx.andd(r.guard, cx.ult(d, r.len)); v = cx.ite(c, r.val, v); continue; }
        unsigned L = r.val->w / 8;
        if (Ctx::isC(d)) { if (d->k < L) v = cx.ite(r.guard, cx.extract(r.val, 8 * d->k, 8), v); continue; }
        for (unsigned j = 0; j < L; j++) v = cx.ite(cx.andd(r.guard, cx.eq(d, cx.c(j, 64))), cx.extract(r.val, 8 * j, 8), v);
    }
    return v;
}
E Engine::readSym(State &s, const Obj *o, E off, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    if (Ctx::isC(off) && o->log.empty() && !o->lazy) return readConst(o, off->k, bits);
    bool small = !o->lazy && o->log.empty() && o->pages.size() <= 64;
    if (!Ctx::isC(off) && o->log.empty() && !o->lazy) {
        bool anyInit = false; if (!small) for (auto &p : o->pages) if (p) anyInit = true;
        if (small || anyInit) {
            vector<uint64_t> vals; if (!enumVals(s, off, 260, vals)) throw Unsupported{"symbolic read with too many targets"};
            E r = nullptr; for (uint64_t v : vals) { E x = readConst(o, v, bits); r = r ? cx.ite(cx.eq(off, cx.c(v, 64)), x, r) : x; }
            return r;
        }
    }
    // what lies underneath the log: fresh if nothing was ever written directly, else the content at each possible offset
    auto under = [&](E at, unsigned m, const char *nm) -> E {
        bool any = false; for (auto &p : o->pages) if (p) any = true;
        if (o->lazy || !any) return cx.var(string(nm) + std::to_string(o->slot) + "|" + std::to_string(at->id), 8 * m);
        vector<uint64_t> vals; if (!enumVals(s, at, 260, vals)) throw Unsupported{"symbolic read with too many targets"};
        E r = nullptr; for (uint64_t v : vals) { E x = readConst(o, v, 8 * m); r = r ? cx.ite(cx.eq(at, cx.c(v, 64)), x, r) : x; }
        return r ? r : cx.c(0, 8 * m);
    };
    bool word = (n & (n - 1)) == 0 && tz(off) >= (unsigned)__builtin_ctz(n);
    for (auto &r : o->log) if (word && (r.fill || r.val->w != 8 * n || tz(r.off) < (unsigned)__builtin_ctz(n))) word = false;
    E r = nullptr;
    if (word) {
        if (Ctx::isC(off) && !o->lazy) r = readConst(o, off->k, 8 * n); else r = under(off, n, "uw|");
        for (auto &l : o->log) r = cx.ite(cx.andd(l.guard, cx.eq(off, l.off)), l.val, r);
    } else for (unsigned i = 0; i < n; i++) { E at = cx.add(off, cx.c(i, 64)); E b = readLogByte(o, at, o->log.size(), Ctx::isC(at) && !o->lazy ? nullptr : under(at, 1, "us|")); r = r ? cx.concat(b, r) : b; }
    return bits == 8 * n ? r : cx.extract(r, 0, bits);
}
void Engine::writeSym(State &s, Obj *o, E off, E v, E guard) {
    if (v->w % 8) v = cx.zext(v, (v->w + 7) / 8 * 8);
    unsigned n = v->w / 8;
    if (o->log.empty() && !o->lazy) {
        if (Ctx::isC(off)) { if (!Ctx::isT(guard)) v = cx.ite(guard, v, readConst(o, off->k, v->w)); writeConst(o, off->k, v); return; }
        if (o->pages.size() <= 64) { // also when the size is one of several
            vector<uint64_t> vals; if (!enumVals(s, off, 260, vals)) throw Unsupported{"symbolic write with too many targets"};
            for (uint64_t x : vals) if (x + n <= o->pages.size() * 64) writeConst(o, x, cx.ite(cx.andd(guard, cx.eq(off, cx.c(x, 64))), v, readConst(o, x, v->w)));
            return;
        }
    }
    if (!o->lazy) { bool any = false; for (auto &p : o->pages) if (p) any = true; if (any && !Ctx::isC(off)) { /* base content stays underneath the log */ } }
    // drop records exactly overwritten
    if (Ctx::isT(guard)) for (size_t i = o->log.size(); i-- > 0;) if (!o->log[i].fill && o->log[i].off == off && o->log[i].val->w == v->w) { o->log.erase(o->log.begin() + i); break; } else break;
    o->log.push_back({guard, off, cx.c(n, 64), v, false});
}
// ---------------------------------------------------------------- pointers
static bool ptrLike(E e) {
    switch (e->op) { case CONST: return e->k >= BASE && e->k < BASE + (1ull << 47); case ADD: return ptrLike(e->a) || ptrLike(e->b); case SUB: return ptrLike(e->a); case ITE: return ptrLike(e->b) || ptrLike(e->c); default: return false; }
}
const Obj *Engine::lookupSlot(State &s, uint32_t slot) { int i = s.mem.find(slot); if (i >= 0) return s.mem.v[i].p; if (slot < constBySlot.size() && constBySlot[slot]) return constBySlot[slot].p; return nullptr; }
bool Engine::resolve(State &s, E p, vector<Case> &out, E guard) {
    if (Ctx::isF(guard)) return true;
    auto addConst = [&](uint64_t v, E g, E extra) {
        Case c; c.guard = g; c.off = nullptr; c.idx = INT32_MIN; c.slot = ~0u;
        if (v >= BASE && ((v - BASE) >> 24) < slotHead.size()) {
            uint32_t h = slotHead[(v - BASE) >> 24]; E off = cx.c(v - slotBase[h], 64); if (extra) off = cx.add(off, extra);
            int i = s.mem.find(h); c.slot = h; c.off = off;
            if (i >= 0) c.idx = i; else if (constBySlot[h]) c.idx = -1;
        }
        for (auto &x : out) if (x.slot == c.slot && x.off == c.off && x.idx == c.idx) { x.guard = cx.orr(x.guard, g); return; }
        out.push_back(c);
    };
    if (Ctx::isC(p)) { addConst(p->k, guard, nullptr); return true; }
    if (p->leaves) {
        std::set<uint64_t> vals; vector<E> st{p}; std::set<E> seen; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (Ctx::isC(x)) vals.insert(x->k); else { st.push_back(x->b); st.push_back(x->c); } }
        for (uint64_t v : vals) { E g = cx.andd(guard, cx.eq(p, cx.c(v, 64))); if (!Ctx::isF(g)) addConst(v, g, nullptr); }
        return true;
    }
    if (p->op == ITE) return resolve(s, p->b, out, cx.andd(guard, p->a)) && resolve(s, p->c, out, cx.andd(guard, cx.lnot(p->a)));
    if (p->op == ADD) {
        E b = p->a, o = p->b; bool pb = ptrLike(b), po = ptrLike(o); if (po && !pb) std::swap(b, o);
        if (pb || po) {
            if (Ctx::isC(b)) { addConst(b->k, guard, o); return true; }
            vector<Case> sub; if (!resolve(s, b, sub, guard)) return false;
            for (auto &c : sub) { Case d = c; if (d.off) d.off = cx.add(d.off, o); out.push_back(d); }
            return true;
        }
    }
    if (p->op == SUB && ptrLike(p->a)) { vector<Case> sub; if (!resolve(s, p->a, sub, guard)) return false; for (auto &c : sub) { Case d = c; if (d.off) d.off = cx.sub(d.off, p->b); out.push_back(d); } return true; }
    vector<uint64_t> vals; State t = s; pcAdd(t, guard); if (!enumVals(t, p, 32, vals)) throw Unsupported{"unresolvable pointer"};
    for (uint64_t v : vals) addConst(v, cx.andd(guard, cx.eq(p, cx.c(v, 64))), nullptr);
    return true;
}
Ref<Obj> Engine::objOf(State &s, const Case &c) { if (c.idx >= 0) return s.mem.v[c.idx]; if (c.idx == -1) return constBySlot[c.slot]; return nullptr; }
void Engine::access(State &s, E p, E n, bool wr, vector<Case> &out, const char *what) {
    vector<Case> cs; resolve(s, p, cs, cx.T());
    E bad = cx.F(); vector<Case> ok; string why;
    for (auto &c : cs) {
        E b;
        const Obj *o = c.idx >= 0 ? s.mem.v[c.idx].p : c.idx == -1 ? constBySlot[c.slot].p : nullptr;
        if (!o || (wr && o->kind == O_CONST)) { b = c.guard; if (!Ctx::isF(b)) why = !o ? (c.slot == ~0u ? "invalid or null pointer" : "memory of a dead object (" + slotName[c.slot] + ")") : "read-only memory"; }
        else {
            E inb = Ctx::isC(n) && Ctx::isC(o->size) ? (n->k <= o->size->k ? cx.ule(c.off, cx.c(o->size->k - n->k, 64)) : cx.F()) : cx.andd(cx.ule(n, o->size), cx.ule(c.off, cx.sub(o->size, n)));
            E okc = cx.andd(inb, o->alive); b = cx.andd(c.guard, cx.lnot(okc)); if (!Ctx::isT(okc)) why = string("outside or after the lifetime of ") + slotName[o->slot];
            if (!Ctx::isF(okc)) ok.push_back(c);
        }
        bad = cx.orr(bad, b);
    }
    if (!Ctx::isF(bad)) require(s, cx.lnot(bad), "memory", string(what) + ": " + why);
    if (ok.size() > 1) { vector<Case> k2; for (auto &c : ok) if (feasible(s, c.guard)) k2.push_back(c); ok.swap(k2); }
    if (ok.empty()) throw PathEnd();
    if (ok.size() == 1) ok[0].guard = cx.T();
    out.swap(ok);
}
// Lock sets (first pass of the race check): for every location, the mutexes held at all accesses by threads.
static void lsJoin(Engine::LS &l, const vector<uint64_t> &held, bool wr, bool at, int t, uint32_t n) {
    if (!l.init) { l.init = true; l.locks = held; } else { vector<uint64_t> r; for (uint64_t h : l.locks) for (uint64_t k : held) if (h == k) r.push_back(h); l.locks = r; }
    l.wr |= wr; l.allAt &= at; l.tids |= 1ull << t; l.n += n;
}
void Engine::lockAcc(State &s, uint32_t slot, E off, uint64_t n, bool wr, bool at) {
    auto &m = lockset[slot]; const auto &held = s.th[cur].held;
    if (!Ctx::isC(off) || n > 512) { lsJoin(m[~0ull], held, wr, at, cur, 1); return; }
    for (uint64_t g = off->k / 4; g <= (off->k + n - 1) / 4; g++) lsJoin(m[g], held, wr, at, cur, 1);
}
void Engine::findSuspects() {
    suspects.clear(); nLocs = nSuspect = 0;
    for (auto &sl : lockset) {
        LS *whole = nullptr; auto w = sl.second.find(~0ull); if (w != sl.second.end()) whole = &w->second;
        for (auto &g : sl.second) {
            LS l = g.second; if (whole && g.first != ~0ull) { vector<uint64_t> r; for (uint64_t h : l.locks) for (uint64_t k : whole->locks) if (h == k) r.push_back(h); l.locks = r; l.wr |= whole->wr; l.allAt &= whole->allAt; l.tids |= whole->tids; }
            if (whole && g.first == ~0ull) for (auto &q : sl.second) if (q.first != ~0ull) { vector<uint64_t> r; for (uint64_t h : l.locks) for (uint64_t k : q.second.locks) if (h == k) r.push_back(h); l.locks = r; l.wr |= q.second.wr; l.allAt &= q.second.allAt; l.tids |= q.second.tids; }
            nLocs++; if (l.wr && !l.allAt && l.locks.empty() && (l.tids & (l.tids - 1))) { nSuspect++; suspects[sl.first].insert(g.first); if (opt.verbose && nSuspect < 30) fprintf(stderr, "race suspect: %s granule %ld\n", slotName[sl.first].c_str(), (long)g.first); }
        }
    }
}
void Engine::foot(State &s, uint32_t slot, E off, uint64_t n, bool wr, bool at, E guard) {
    if (!opt.race || inModel || cur == 0 || !n) return;
    const Obj *o = lookupSlot(s, slot); if (!o || o->ghost || o->kind == O_CONST || o->kind == O_TLS || o->kind == O_EXC) return;
    if (o->kind == O_STACK && o->tid == cur) return;
    if (racePhase == 1) { if (!guide) lockAcc(s, slot, off, n, wr, at); return; }
    if (!footCur) return;
    auto su = suspects.find(slot); if (su == suspects.end()) return;
    if (Ctx::isC(off) && !su->second.count(~0ull)) { auto i = su->second.lower_bound(off->k / 4); if (i == su->second.end() || *i > (off->k + n - 1) / 4) return; }
    Foot *f = footCur.p; E g = Ctx::isT(guard) ? s.pc->full : cx.andd(s.pc->full, guard);
    auto it = siteId.find(curIns->I); uint32_t site; if (it == siteId.end()) { site = siteIns.size(); siteId[curIns->I] = site; siteIns.push_back(curIns->I); } else site = it->second;
    f->seq++;
    for (auto &a : f->acc) if (a.slot == slot && a.off == off && a.n == n && a.wr == wr && a.at == at && a.guard == g) { bool hb = false; for (auto &h : f->hb) if (h.seq > a.last) hb = true; if (!hb) { a.last = f->seq; return; } }
    f->acc.push_back({slot, site, off, (uint32_t)n, wr, at, g, f->seq, f->seq});
}
E Engine::load(State &s, E p, unsigned bits, bool atomic) {
    vector<Case> cs; unsigned n = (bits + 7) / 8; access(s, p, cx.c(n, 64), false, cs, "invalid read");
    E r = nullptr;
    for (auto &c : cs) { foot(s, c.slot, c.off, n, false, atomic, c.guard); Ref<Obj> o = objOf(s, c); E v = readSym(s, o.p, c.off, bits); r = r ? cx.ite(c.guard, v, r) : v; }
    return r;
}
void Engine::store(State &s, E p, E v, bool atomic) {
    if (v->w % 8) v = cx.zext(v, (v->w + 7) / 8 * 8);
    vector<Case> cs; access(s, p, cx.c(v->w / 8, 64), true, cs, "invalid write");
    for (auto &c : cs) { foot(s, c.slot, c.off, v->w / 8, true, atomic, c.guard); Obj *o = s.mem.v[c.idx].mut(); writeSym(s, o, c.off, v, c.guard); }
}
void Engine::fill(State &s, E p, E byte, E len) {
    if (Ctx::isC(len) && !len->k) return;
    if (!Ctx::isC(len) && !feasible(s, cx.lnot(cx.eq(len, cx.c(0, 64))))) return;
    vector<Case> cs; access(s, p, len, true, cs, "invalid memset");
    for (auto &c : cs) {
        foot(s, c.slot, c.off, Ctx::isC(len) ? len->k : 1, true, false, c.guard);
        Obj *o = s.mem.v[c.idx].mut();
        bool page = o->log.empty() && !o->lazy && Ctx::isC(c.off) && (Ctx::isC(len) || (Ctx::isC(o->size) && o->size->k <= 8192));
        if (!page) { o->log.push_back({c.guard, c.off, len, byte, true}); continue; }
        uint64_t n = Ctx::isC(len) ? len->k : o->size->k - c.off->k;
        for (uint64_t i = 0; i < n; i++) { E g = Ctx::isC(len) ? c.guard : cx.andd(c.guard, cx.ult(cx.c(i, 64), len)); if (Ctx::isT(g)) writeConst(o, c.off->k + i, byte); else writeConst(o, c.off->k + i, cx.ite(g, byte, readConst(o, c.off->k + i, 8))); }
    }
}
void Engine::copy(State &s, E d, E src, E len, bool) {
    if (Ctx::isC(len) && !len->k) return;
    if (!Ctx::isC(len)) { vector<uint64_t> v; if (!enumVals(s, len, 64, v)) throw Unsupported{"memcpy of symbolic length"}; 
        if (v.size() > 1) { // byte-wise conditional copy
            uint64_t mx = v.back(); vector<E> bytes; 
            vector<Case> t; access(s, src, len, false, t, "invalid memcpy source"); access(s, d, len, true, t, "invalid memcpy destination");
            for (uint64_t i = 0; i < mx; i++) { State tmp = s; E c = cx.ult(cx.c(i, 64), len); pcAdd(tmp, c); bytes.push_back(load(tmp, cx.add(src, cx.c(i, 64)), 8)); }
            for (uint64_t i = 0; i < mx; i++) { E c = cx.ult(cx.c(i, 64), len); vector<Case> cs; resolve(s, cx.add(d, cx.c(i, 64)), cs, c); for (auto &k : cs) { if (k.idx < 0) continue; Obj *o = s.mem.v[k.idx].mut(); if (Ctx::isC(k.off) && Ctx::isC(o->size) && k.off->k >= o->size->k) continue; writeSym(s, o, k.off, bytes[i], k.guard); } }
            return; }
        if (v.empty()) throw PathEnd(); len = cx.c(v[0], 64); if (!len->k) return; }
    uint64_t n = len->k; vector<Case> a, b; access(s, src, len, false, a, "invalid memcpy source"); access(s, d, len, true, b, "invalid memcpy destination");
    for (auto &c : a) foot(s, c.slot, c.off, n, false, false, c.guard);
    for (auto &c : b) foot(s, c.slot, c.off, n, true, false, c.guard);
    if (a.size() == 1 && b.size() == 1 && Ctx::isC(a[0].off) && Ctx::isC(b[0].off)) {
        Ref<Obj> so = objOf(s, a[0]); 
        if (so->log.empty() && !so->lazy) { const Obj *dop = s.mem.v[b[0].idx].p; if (dop->log.empty() && !dop->lazy) {
            vector<Cell> tmp(n); for (uint64_t i = 0; i < n; i++) tmp[i] = cellAt(so.p, a[0].off->k + i);
            so = nullptr; Obj *o = s.mem.v[b[0].idx].mut(); for (uint64_t i = 0; i < n; i++) setCell(o, b[0].off->k + i, tmp[i]); return; } }
    }
    bool im = inModel; inModel = true; vector<std::pair<uint64_t, E>> vals; uint64_t i = 0; while (i < n) { unsigned w = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; vals.push_back({i, load(s, cx.add(src, cx.c(i, 64)), 8 * w)}); i += w; }
    for (auto &v : vals) store(s, cx.add(d, cx.c(v.first, 64)), v.second); inModel = im;
}
E Engine::allocObj(State &s, E size, OKind k, uint8_t akind, const Pos &p0, uint32_t sub) {
    Pos p = p0; p.push_back(0xfffffff0u); p.push_back(cur); p.push_back(sub); p.push_back(k); uint64_t cap;
    bool lazy = !Ctx::isC(size); cap = lazy ? 1ull << 33 : size->k;
    p.push_back((uint32_t)((cap + (2u << 20)) >> 24));
    auto it = slotIntern.find(p); uint32_t slot;
    if (it == slotIntern.end()) {
        string nm = k == O_STACK ? "stack variable of " : k == O_EXC ? "exception object in " : "heap object allocated in "; 
        string fnm; for (size_t i = s.th[cur].fr.size(); i-- > 0;) { fnm = s.th[cur].fr[i]->fn->name; if (!s.th[cur].fr[i]->fn->model) break; }
        slot = newSlot(cap, nm + fnm); slotIntern[p] = slot;
    } else slot = it->second;
    Obj *o = new Obj; o->slot = slot; o->base = slotBase[slot]; o->size = size; o->alive = cx.T(); o->kind = k; o->alloc = akind; o->tid = cur; o->lazy = lazy; if (!lazy) o->pages.resize((size->k + 63) / 64);
    int ix = s.mem.find(slot); if (ix >= 0) { if (!Ctx::isF(s.mem.v[ix]->alive) && feasible(s, s.mem.v[ix]->alive)) throw Unsupported{"slot reuse"}; s.mem.v[ix] = Ref<Obj>(o); } else s.mem.insert(Ref<Obj>(o));
    return cx.c(slotBase[slot], 64);
}
void Engine::freeObj(State &s, E p, int kind) {
    if (Ctx::isC(p) && !p->k) return;
    vector<Case> cs; resolve(s, p, cs, cx.lnot(cx.eq(p, cx.c(0, 64)))); E bad = cx.F(); vector<Case> ok; string why = "invalid pointer";
    for (auto &c : cs) {
        const Obj *o = c.idx >= 0 ? s.mem.v[c.idx].p : nullptr; E b;
        if (!o) { b = c.guard; if (c.slot != ~0u) why = "double free of " + slotName[c.slot]; }
        else if ((o->kind != O_HEAP && o->kind != O_EXC) || o->alloc != kind) { b = c.guard; why = o->kind == O_HEAP ? "mismatched deallocation function" : "freeing non-heap memory"; }
        else { E okc = cx.andd(cx.eq(c.off, cx.c(0, 64)), o->alive); b = cx.andd(c.guard, cx.lnot(okc)); if (!Ctx::isT(okc)) why = "free of a pointer into the middle of, or double free of, " + slotName[o->slot]; ok.push_back(c); }
        bad = cx.orr(bad, b);
    }
    if (!Ctx::isF(bad)) require(s, cx.lnot(bad), "memory", "invalid free: " + why);
    if (ok.size() > 1) { vector<Case> k2; for (auto &c : ok) if (feasible(s, c.guard)) k2.push_back(c); ok.swap(k2); if (ok.size() == 1) ok[0].guard = cx.T(); }
    else if (ok.size() == 1 && !Ctx::isT(ok[0].guard) && !feasible(s, cx.lnot(ok[0].guard))) ok[0].guard = cx.T();
    vector<uint32_t> rm; for (auto &c : ok) { Obj *o = s.mem.v[c.idx].mut(); foot(s, c.slot, cx.c(0, 64), Ctx::isC(o->size) ? o->size->k : 1, true, false, c.guard); o->alive = cx.andd(o->alive, cx.lnot(c.guard)); if (Ctx::isF(o->alive)) rm.push_back(c.slot); }
    for (uint32_t sl : rm) { int i = s.mem.find(sl); s.mem.v.erase(s.mem.v.begin() + i); }
}
} // namespace rsx
