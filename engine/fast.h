// Bit-vector decision procedure for the many small queries of the exploration: Tseitin bit-blasting of the expression DAG on
// MiniSat, incremental, deciding only in the cone of the query.  Property queries answered "unsatisfiable" here are
// discharged again with z3 (see solver.h), as is a sample of all others.
#pragma once
#include "expr.h"
#include <minisat/core/Solver.h>
#include <memory>
#include <vector>
namespace rsx {
using Minisat::lbool;
class Fast {
    typedef Minisat::Lit L; typedef std::vector<L> BV;
    Ctx &cx; std::unique_ptr<Minisat::Solver> s; L TT; std::unordered_map<uint32_t, BV> bits; 
    std::vector<uint32_t> stamp; uint32_t stampNo = 0; std::unordered_map<uint64_t, L> gates; std::unordered_map<uint32_t, char> sup;
    void reset() { s.reset(new Minisat::Solver()); bits.clear(); gates.clear(); TT = Minisat::mkLit(s->newVar(l_Undef, true)); s->addClause(TT); }
    L fresh() { return Minisat::mkLit(s->newVar(l_Undef, false)); }
    bool isT(L l) { return l == TT; } bool isF(L l) { return l == ~TT; }
    L k(bool b) { return b ? TT : ~TT; }
    uint64_t key(int op, L a, L b) { return ((uint64_t)op << 62) | ((uint64_t)(uint32_t)Minisat::toInt(a) << 31) | (uint32_t)Minisat::toInt(b); }
    L gAnd(L a, L b) {
        if (isF(a) || isF(b) || a == ~b) return ~TT; if (isT(a) || a == b) return b; if (isT(b)) return a; if (b < a) std::swap(a, b);
        auto &g = gates[key(0, a, b)]; if (g.x) return g; L o = fresh(); s->addClause(~o, a); s->addClause(~o, b); s->addClause(o, ~a, ~b); gates[key(0, a, b)] = o; return o;
    }
    L gOr(L a, L b) { return ~gAnd(~a, ~b); }
    L gXor(L a, L b) {
        if (isF(a)) return b; if (isT(a)) return ~b; if (isF(b)) return a; if (isT(b)) return ~a; if (a == b) return ~TT; if (a == ~b) return TT; if (b < a) std::swap(a, b);
        bool ng = false; if (Minisat::sign(a)) { a = ~a; ng = !ng; } if (Minisat::sign(b)) { b = ~b; ng = !ng; }
        auto &g = gates[key(1, a, b)]; if (g.x) return ng ? ~g : g; L o = fresh(); s->addClause(~o, a, b); s->addClause(~o, ~a, ~b); s->addClause(o, ~a, b); s->addClause(o, a, ~b); gates[key(1, a, b)] = o; return ng ? ~o : o;
    }
    L gIte(L c, L a, L b) {
        if (isT(c)) return a; if (isF(c)) return b; if (a == b) return a; if (isT(a)) return gOr(c, b); if (isF(a)) return gAnd(~c, b); if (isT(b)) return gOr(~c, a); if (isF(b)) return gAnd(c, a); if (a == ~b) return ~gXor(c, a);
        L o = fresh(); s->addClause(~o, ~c, a); s->addClause(~o, c, b); s->addClause(o, ~c, ~a); s->addClause(o, c, ~b); s->addClause(~o, a, b); s->addClause(o, ~a, ~b); return o;
    }
    BV addb(const BV &a, const BV &b, L c) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) { L x = gXor(a[i], b[i]); r[i] = gXor(x, c); if (i + 1 < a.size()) c = gOr(gAnd(a[i], b[i]), gAnd(c, x)); } return r; }
    L ultb(const BV &a, const BV &b, bool orEq, bool sg) { L r = k(orEq); for (size_t i = 0; i < a.size(); i++) { L x = a[i], y = b[i]; if (sg && i + 1 == a.size()) std::swap(x, y); r = gIte(gXor(x, y), y, r); } return r; }
    BV inv(BV a) { for (auto &x : a) x = ~x; return a; }
    BV cst(uint64_t v, unsigned w) { BV r(w); for (unsigned i = 0; i < w; i++) r[i] = k(v >> i & 1); return r; }
    const BV &B(E e) { auto it = bits.find(e->id); if (it != bits.end()) return it->second; return bits[e->id] = cst(e->k, e->w); }
    void blast(E root) {
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back(); if (e->op == CONST || bits.count(e->id)) { st.pop_back(); continue; }
            bool wait = false; for (E x : {e->a, e->b, e->c}) if (x && x->op != CONST && !bits.count(x->id)) { st.push_back(x); wait = true; }
            if (wait) continue; st.pop_back(); BV r; unsigned w = e->w;
            const BV none; BV a = e->a ? B(e->a) : none, b = e->b ? B(e->b) : none;
            switch (e->op) {
            case VAR: r.resize(w); for (auto &x : r) x = fresh(); break;
            case ADD: r = addb(a, b, ~TT); break; case SUB: r = addb(a, inv(b), TT); break;
            case MUL: { r = cst(0, w); for (unsigned i = 0; i < w; i++) if (!isF(b[i])) { BV t(w); for (unsigned j = 0; j < w; j++) t[j] = j < i ? ~TT : gAnd(a[j - i], b[i]); r = addb(r, t, ~TT); } break; }
            case AND: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = gAnd(a[i], b[i]); break;
            case OR: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = gOr(a[i], b[i]); break;
            case XOR: r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = gXor(a[i], b[i]); break;
            case SHL: case LSHR: case ASHR: {
                r = a; L fill = e->op == ASHR ? a[w - 1] : ~TT; L big = ~TT;
                for (unsigned i = 0; i < w; i++) { if (i < 7 && (1u << i) < w) { BV t(w); unsigned d = 1u << i; for (unsigned j = 0; j < w; j++) { L sh = e->op == SHL ? (j >= d ? r[j - d] : ~TT) : (j + d < w ? r[j + d] : fill); t[j] = gIte(b[i], sh, r[j]); } r = t; } else big = gOr(big, b[i]); }
                for (auto &x : r) x = gIte(big, fill, x);
                break; }
            case CONCAT: r = b; r.insert(r.end(), a.begin(), a.end()); break;
            case EXTRACT: r.assign(a.begin() + e->k, a.begin() + e->k + w); break;
            case ZEXT: r = a; r.resize(w, ~TT); break; case SEXT: r = a; r.resize(w, a.back()); break;
            case EQ: { L o = TT; for (size_t i = 0; i < a.size(); i++) o = gAnd(o, ~gXor(a[i], b[i])); r = {o}; break; }
            case ULT: r = {ultb(a, b, false, false)}; break; case ULE: r = {ultb(a, b, true, false)}; break; case SLT: r = {ultb(a, b, false, true)}; break; case SLE: r = {ultb(a, b, true, true)}; break;
            case ITE: { BV c = B(e->c); r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = gIte(a[0], b[i], c[i]); break; }
            default: abort();
            }
            bits[e->id] = r;
        }
    }
    bool supported(E root) {
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back(); if (e->op == CONST || sup.count(e->id)) { st.pop_back(); continue; }
            bool wait = false, ok = true; for (E x : {e->a, e->b, e->c}) if (x && x->op != CONST) { auto it = sup.find(x->id); if (it == sup.end()) { st.push_back(x); wait = true; } else if (!it->second) ok = false; }
            if (wait) continue; if (e->op == UDIV || e->op == UREM || e->op == SDIV || e->op == SREM || (e->op == MUL && !Ctx::isC(e->b) && e->w > 16)) ok = false; sup[e->id] = ok; st.pop_back();
        }
        return root->op == CONST || sup[root->id];
    }
public:
    int maxV = getenv("RSX_MAXV") ? atoi(getenv("RSX_MAXV")) : 20000; uint64_t conflictBudget = getenv("RSX_CONF") ? atoi(getenv("RSX_CONF")) : 20000;
    Fast(Ctx &c) : cx(c) { TT.x = 0; }
    // 1 sat (model filled), 0 unsat, -1 not decided here
    int check(const std::vector<E> &as, Model *out, uint64_t budget) {
        for (E e : as) if (!supported(e)) return -1;
        if (!s || s->nVars() > maxV) reset();
        Minisat::vec<L> asm_; for (E e : as) { blast(e); asm_.push(B(e)[0]); }
        // deciding the input variables of the cone fixes every gate by propagation
        std::vector<E> st(as.begin(), as.end()); if (stamp.size() < cx.all.size()) stamp.resize(cx.all.size() * 2, 0); stampNo++;
        std::vector<int> cone; std::vector<E> vars;
        while (!st.empty()) { E e = st.back(); st.pop_back(); if (e->op == CONST || stamp[e->id] == stampNo) continue; stamp[e->id] = stampNo; if (e->op == VAR) { vars.push_back(e); for (L l : B(e)) cone.push_back(Minisat::var(l)); } for (E x : {e->a, e->b, e->c}) if (x) st.push_back(x); }
        for (int v : cone) s->setDecisionVar(v, true);
        s->setConfBudget(budget); lbool r = s->solveLimited(asm_); s->budgetOff();
        for (int v : cone) s->setDecisionVar(v, false);
        if (getenv("RSX_FSTAT")) { static double tb=0; static uint64_t lc=0, lp=0, ld=0; fprintf(stderr, "fq r=%d vars %d clauses %d cone %zu conf %lu prop %lu dec %lu\n", Minisat::toInt(r), s->nVars(), s->nClauses(), cone.size(), s->conflicts, s->propagations, s->decisions); (void)tb;(void)lc;(void)lp;(void)ld; }
        if (r == l_Undef) return -1;
        if (r == l_False) return 0;
        out->varVal.assign(cx.vars.size(), 0);
        for (E e : vars) { uint64_t x = 0; const BV &b = B(e); for (unsigned i = 0; i < e->w; i++) if (s->modelValue(b[i]) == l_True) x |= 1ull << i; out->varVal[e->k] = x; }
        return 1;
    }
};
} // namespace rsx
