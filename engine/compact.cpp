// State-set compaction.  At a node of the schedule graph the merged state is a formula over the history (which thread ran
// when, which waiter was woken ...).  The history is quantified away exactly: the solver produces representative histories
// until it proves that they cover every reachable (input, state) pair; the state is then re-expressed by a selector over
// these representatives with the inputs kept symbolic.  Records allow a model to be traced back to a full history.
#include "rsx.h"
#include <algorithm>
namespace rsx {
static bool histVar(const string &n) { return n.compare(0, 3, "in|") && n.compare(0, 2, "u|") && n.compare(0, 3, "us|") && n.compare(0, 3, "uw|"); }
void Engine::support(E e, std::unordered_set<E> &seen, std::set<E> &vars) {
    vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->op == CONST || !seen.insert(x).second) continue; if (x->op == VAR) { vars.insert(x); continue; } for (E k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
}
E Engine::rebuild(E root, std::unordered_map<E, E> &memo) {
    if (root->op == CONST) return root; auto it = memo.find(root); if (it != memo.end()) return it->second;
    vector<E> st{root};
    while (!st.empty()) {
        E e = st.back(); if (e->op == CONST || memo.count(e)) { st.pop_back(); continue; } if (e->op == VAR) { memo[e] = e; st.pop_back(); continue; }
        auto get = [&](E x) -> E { if (x->op == CONST) return x; auto i = memo.find(x); return i == memo.end() ? nullptr : i->second; };
        if (e->op == ITE) { E c = get(e->a); if (!c) { st.push_back(e->a); continue; } if (Ctx::isC(c)) { E br = c->k ? e->b : e->c; E r = get(br); if (!r) { st.push_back(br); continue; } memo[e] = r; st.pop_back(); continue; } }
        bool wait = false; E ch[3] = {e->a, e->b, e->c}, nv[3] = {nullptr, nullptr, nullptr};
        for (int i = 0; i < 3; i++) if (ch[i]) { nv[i] = get(ch[i]); if (!nv[i]) { st.push_back(ch[i]); wait = true; } }
        if (wait) continue;
        E r; if (nv[0] == e->a && nv[1] == e->b && nv[2] == e->c) r = e;
        else switch (e->op) { case EXTRACT: r = cx.extract(nv[0], e->k, e->w); break; case ZEXT: r = cx.zext(nv[0], e->w); break; case SEXT: r = cx.sext(nv[0], e->w); break; case CONCAT: r = cx.concat(nv[0], nv[1]); break; case ITE: r = cx.ite(nv[0], nv[1], nv[2]); break; default: r = cx.bin(e->op, nv[0], nv[1]); }
        memo[e] = r; st.pop_back();
    }
    return memo[root];
}
void Engine::mapState(State &s, const std::function<E(E)> &fn) {
    auto mp = [&](E e) -> E { return !e || Ctx::isC(e) ? e : fn(e); };
    for (size_t t = 0; t < s.th.size(); t++) for (size_t k = 0; k < s.th[t].fr.size(); k++) {
        const Frame *f = s.th[t].fr[k].p; bool ch = false; vector<E> nr = f->regs; for (auto &r : nr) { E n = mp(r); if (n != r) { r = n; ch = true; } }
        if (ch) s.th[t].fr[k].mut()->regs = nr;
    }
    for (auto &ro : s.mem.v) {
        const Obj *o = ro.p; E al = mp(o->alive), sz = mp(o->size); Obj *w = nullptr; auto W = [&] { if (!w) w = ro.mut(); return w; };
        if (al != o->alive) W()->alive = al; if (sz != o->size) W()->size = sz;
        for (size_t p = 0; p < ro->pages.size(); p++) {
            if (!ro->pages[p] || !ro->pages[p]->sym) continue; const Page *pg = ro->pages[p].p; Page *np = nullptr; E last = nullptr, lastN = nullptr; bool anySym = false;
            for (int i = 0; i < 64; i++) { E e = pg->c[i].e; if (!e || Ctx::isC(e)) continue; E n; if (e == last) n = lastN; else { n = mp(e); last = e; lastN = n; } if (n != e) { if (!np) { np = W()->pages[p].mut(); pg = np; } np->c[i] = Ctx::isC(n) && n->w != 8 ? Cell{cx.c(n->k >> (8 * np->c[i].i), 8), 0} : Cell{n, np->c[i].i}; } if (!Ctx::isC(n)) anySym = true; }
            if (np && !anySym) { np->init = 0; for (int i = 0; i < 64; i++) if (np->c[i].e) { np->raw[i] = np->c[i].e->k >> (8 * np->c[i].i); np->init |= 1ull << i; } delete[] np->c; np->c = nullptr; np->sym = false; }
        }
        for (size_t i = 0; i < ro->log.size(); i++) { LogRec r = ro->log[i]; LogRec n = r; n.guard = mp(r.guard); n.off = mp(r.off); n.len = mp(r.len); n.val = mp(r.val); if (n.guard != r.guard || n.off != r.off || n.len != r.len || n.val != r.val) W()->log[i] = n; }
    }
    s.spur = mp(s.spur); for (auto &f : s.faults) f.second = mp(f.second);
    for (auto &fp : s.feet) {
        fp.second = mp(fp.second); bool ch = false; Foot nf = *fp.first; for (auto &a : nf.acc) { E g = mp(a.guard), o = mp(a.off); if (g != a.guard || o != a.off) { ch = true; a.guard = g; a.off = o; } } for (auto &h : nf.hb) { E g = mp(h.guard), o = mp(h.addr); if (g != h.guard || o != h.addr) { ch = true; h.guard = g; h.addr = o; } }
        if (ch) { Foot *x = new Foot(nf); x->rc = 0; fp.first = Ref<Foot>(x); }
    }
}
void Engine::compact(State &s) {
    if (guide) return;
    // drop dead registers
    for (auto &th : s.th) for (size_t k = 0; k < th.fr.size(); k++) {
        const Frame *f = th.fr[k].p; const BBk &bb = f->fn->bbs[f->bb]; const Ins &in = bb.ins[f->ip]; const vector<uint64_t> *live = nullptr; bool args = false;
        if (in.live >= 0) { live = &f->fn->liveSets[in.live]; args = k + 1 == th.fr.size(); } else if (f->ip == 0) live = &f->fn->liveSets[bb.liveIn]; if (!live || th.phase == 0) continue;
        vector<char> keep(f->regs.size(), 0); if (args) for (auto &o : in.o) if (o.reg >= 0) keep[o.reg] = 1;
        bool ch = false; vector<E> nr = f->regs; for (size_t i = 0; i < nr.size(); i++) if (nr[i] && !keep[i] && !((*live)[i >> 6] >> (i & 63) & 1)) { nr[i] = nullptr; ch = true; }
        if (ch) th.fr[k].mut()->regs = nr;
    }
    std::unordered_set<E> seenR, seenP; std::set<E> SR, SP; vector<E> roots; std::unordered_set<E> rs;
    mapState(s, [&](E e) { if (rs.insert(e).second) { roots.push_back(e); support(e, seenR, SR); } return e; });
    E full = s.pc->full; support(full, seenP, SP);
    vector<E> H; for (E v : SR) if (histVar(cx.varNames[v->k])) H.push_back(v); for (E v : SP) if (!SR.count(v)) H.push_back(v);
    if (H.empty()) return;
    std::set<E> HS(H.begin(), H.end()); vector<E> hr; { for (E e : roots) { std::unordered_set<E> sn; std::set<E> vs; support(e, sn, vs); for (E v : vs) if (HS.count(v)) { hr.push_back(e); break; } } }
    struct Cs { E G; vector<E> T; vector<uint64_t> hv; }; vector<Cs> cases; E block = cx.T();
    for (;;) {
        std::shared_ptr<Model> m; int r = 0;
        if (Ctx::isF(block)) break;
        checkTime();
        for (auto &mo : sv.models) if (mo->eval(cx, full) == 1 && mo->eval(cx, block) == 1) { m = mo; r = 1; sv.st.modelHits++; break; }
        if (!r) r = sv.checkRaw({full, block}, &m);
        if (r < 0) { nCompactFail++; return; } if (!r) break;
        if (cases.size() >= opt.cap) { nCompactFail++; return; }
        Cs c; std::unordered_map<E, E> memo; for (E v : H) { uint64_t x = m->eval(cx, v); c.hv.push_back(x); memo[v] = cx.c(x, v->w); }
        c.G = rebuild(full, memo); E q = c.G; for (E e : hr) { E t = rebuild(e, memo); c.T.push_back(t); q = cx.andd(q, cx.eq(e, t)); }
        block = cx.andd(block, cx.lnot(q)); cases.push_back(std::move(c));
    }
    if (cases.empty()) { s.pc = pcMk(nullptr, cx.F()); return; }
    nCompact++; int id = recs.size(); Rec R; R.hv = H; R.preds = s.recs;
    // representatives with the same state are one case; which of them applies is decided by the inputs alone
    { vector<Cs> g; for (auto &c : cases) { size_t i = 0; while (i < g.size() && g[i].T != c.T) i++; if (i == g.size()) { g.push_back(c); R.alts.push_back({}); } else g[i].G = cx.orr(g[i].G, c.G); R.alts[i].push_back({c.G, c.hv}); } cases.swap(g); }
    size_t n = cases.size(); nCases += n; maxCases = std::max(maxCases, (uint64_t)n);
    // selector: one variable per depth of a balanced tree
    auto bit = [&](int d) { return cx.var("sel|" + std::to_string(id) + "|" + std::to_string(d), 1); };
    std::function<E(size_t, size_t, int, const std::function<E(size_t)> &)> build = [&](size_t lo, size_t hi, int d, const std::function<E(size_t)> &leaf) -> E { if (hi - lo == 1) return leaf(lo); size_t mid = (lo + hi) / 2; return cx.ite(bit(d), build(lo, mid, d + 1, leaf), build(mid, hi, d + 1, leaf)); };
    std::function<void(size_t, size_t, int, E)> sels = [&](size_t lo, size_t hi, int d, E c) { if (hi - lo == 1) { R.sel.push_back(c); return; } size_t mid = (lo + hi) / 2; sels(lo, mid, d + 1, cx.andd(c, bit(d))); sels(mid, hi, d + 1, cx.andd(c, cx.lnot(bit(d)))); };
    sels(0, n, 0, cx.T());
    std::unordered_map<E, E> repl; for (size_t i = 0; i < hr.size(); i++) repl[hr[i]] = build(0, n, 0, [&](size_t j) { return cases[j].T[i]; });
    E npc = build(0, n, 0, [&](size_t j) { return cases[j].G; });
    mapState(s, [&](E e) { auto it = repl.find(e); return it == repl.end() ? e : it->second; });
    s.pc = pcMk(nullptr, cx.T()); pcAdd(s, npc); recs.push_back(std::move(R)); s.recs = {{id, cx.T()}};
}
std::shared_ptr<Model> Engine::reconstruct(std::shared_ptr<Model> m, const vector<std::pair<int, E>> &rc) {
    auto n = std::make_shared<Model>(); n->varVal = m->varVal; n->varVal.resize(cx.vars.size(), 0); vector<std::pair<int, E>> cur = rc;
    for (;;) {
        int id = -1; for (auto &p : cur) if (n->eval(cx, p.second) == 1) { id = p.first; break; }
        if (id < 0) break; const Rec &r = recs[id]; size_t j = 0; while (j < r.sel.size() && n->eval(cx, r.sel[j]) != 1) j++; if (j == r.sel.size()) break;
        size_t q = 0; while (q + 1 < r.alts[j].size() && n->eval(cx, r.alts[j][q].first) != 1) q++;
        for (size_t i = 0; i < r.hv.size(); i++) n->varVal[r.hv[i]->k] = r.alts[j][q].second[i];
        n->clear(); cur = r.preds;
    }
    n->clear(); return n;
}
} // namespace rsx
