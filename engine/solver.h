// Incremental z3 back end with model and unsat caching.
#pragma once
#include "expr.h"
#include "fast.h"
#include <z3.h>
#include <chrono>
#include <memory>
#include <deque>
#include <unordered_set>
#include <cstring>

namespace rsx {
struct SolverStats { uint64_t queries = 0, fast = 0, fastUnsat = 0, confirmed = 0, sampled = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0, maxTime = 0, fastTime = 0; };

class Solver {
public:
    Fast fs; uint64_t sampleEvery = 200; bool useFast = !getenv("RSX_NOFAST");
    Ctx &cx; Z3_context z; Z3_solver s; std::vector<Z3_ast> tr; SolverStats st; unsigned timeoutMs;
    std::deque<std::shared_ptr<Model>> models; size_t maxModels = 24;
    std::string dumpDir; uint64_t dumpEvery = 0;
    Solver(Ctx &c, unsigned tmo) : fs(c), cx(c), timeoutMs(tmo) {
        Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); z = Z3_mk_context(cfg); Z3_del_config(cfg);
        const char *lg = getenv("RSX_LOGIC"); if (!lg) lg = "simple";
        s = !strcmp(lg, "simple") ? Z3_mk_simple_solver(z) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, lg)); Z3_solver_inc_ref(z, s);
        setTimeout(tmo);
    }
    unsigned curTmo = 0; void setTimeout(unsigned t) { if (t == curTmo) return; curTmo = t; Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), t); Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p); }
    Z3_ast mk(Z3_ast a) { Z3_inc_ref(z, a); return a; }
    Z3_ast trans(E root) {
        if (tr.size() < cx.all.size()) tr.resize(cx.all.size() + cx.all.size() / 2 + 1024, nullptr);
        if (tr[root->id]) return tr[root->id];
        std::vector<E> stk{root};
        while (!stk.empty()) {
            E e = stk.back(); if (tr[e->id]) { stk.pop_back(); continue; }
            bool wait = false; for (E k : {e->a, e->b, e->c}) if (k && !tr[k->id]) { stk.push_back(k); wait = true; }
            if (wait) continue;
            auto A = [&] { return tr[e->a->id]; }; auto B = [&] { return tr[e->b->id]; };
            auto b1 = [&](E x) { return x->w == 1; };
            Z3_ast r; bool bo = e->w == 1; // width-1 expressions are Bool sorted
            switch (e->op) {
            case CONST: r = bo ? (e->k ? Z3_mk_true(z) : Z3_mk_false(z)) : Z3_mk_unsigned_int64(z, e->k, Z3_mk_bv_sort(z, e->w)); break;
            case VAR: { std::string nm = "v" + std::to_string(e->k); Z3_symbol sy = Z3_mk_string_symbol(z, nm.c_str()); r = Z3_mk_const(z, sy, bo ? Z3_mk_bool_sort(z) : Z3_mk_bv_sort(z, e->w)); break; }
            case ADD: r = bo ? Z3_mk_xor(z, A(), B()) : Z3_mk_bvadd(z, A(), B()); break; case SUB: r = bo ? Z3_mk_xor(z, A(), B()) : Z3_mk_bvsub(z, A(), B()); break;
            case MUL: { Z3_ast x[2] = {A(), B()}; r = bo ? Z3_mk_and(z, 2, x) : Z3_mk_bvmul(z, A(), B()); break; }
            case UDIV: r = Z3_mk_bvudiv(z, A(), B()); break; case UREM: r = Z3_mk_bvurem(z, A(), B()); break;
            case SDIV: r = Z3_mk_bvsdiv(z, A(), B()); break; case SREM: r = Z3_mk_bvsrem(z, A(), B()); break;
            case AND: { Z3_ast x[2] = {A(), B()}; r = bo ? Z3_mk_and(z, 2, x) : Z3_mk_bvand(z, A(), B()); break; }
            case OR: { Z3_ast x[2] = {A(), B()}; r = bo ? Z3_mk_or(z, 2, x) : Z3_mk_bvor(z, A(), B()); break; }
            case XOR: if (bo && e->b->op == CONST) r = e->b->k ? Z3_mk_not(z, A()) : A(); else r = bo ? Z3_mk_xor(z, A(), B()) : Z3_mk_bvxor(z, A(), B()); break;
            case SHL: r = Z3_mk_bvshl(z, A(), B()); break; case LSHR: r = Z3_mk_bvlshr(z, A(), B()); break; case ASHR: r = Z3_mk_bvashr(z, A(), B()); break;
            case CONCAT: r = Z3_mk_concat(z, bv(e->a), bv(e->b)); break;
            case EXTRACT: r = Z3_mk_extract(z, e->k + e->w - 1, e->k, A()); if (bo) r = Z3_mk_eq(z, r, Z3_mk_unsigned_int64(z, 1, Z3_mk_bv_sort(z, 1))); break;
            case ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, bv(e->a)); break; case SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, bv(e->a)); break;
            case EQ: r = Z3_mk_eq(z, A(), B()); break;
            case ULT: r = Z3_mk_bvult(z, bv(e->a), bv(e->b)); break; case ULE: r = Z3_mk_bvule(z, bv(e->a), bv(e->b)); break;
            case SLT: r = Z3_mk_bvslt(z, bv(e->a), bv(e->b)); break; case SLE: r = Z3_mk_bvsle(z, bv(e->a), bv(e->b)); break;
            case ITE: r = Z3_mk_ite(z, A(), B(), tr[e->c->id]); break;
            }
            (void)b1; tr[e->id] = mk(r); stk.pop_back();
        }
        return tr[root->id];
    }
    Z3_ast bv(E x) { Z3_ast a = tr[x->id]; if (x->w == 1) { Z3_sort so = Z3_mk_bv_sort(z, 1); a = Z3_mk_ite(z, a, Z3_mk_unsigned_int64(z, 1, so), Z3_mk_unsigned_int64(z, 0, so)); } return a; }
    // literals defined by  l <=> expr , so that assumptions are plain literals
    std::unordered_map<uint32_t, Z3_ast> lits; size_t maxLits = getenv("RSX_LITS") ? atoi(getenv("RSX_LITS")) : 200;
    Z3_ast lit(E e) {
        auto it = lits.find(e->id); if (it != lits.end()) return it->second;
        Z3_ast t = trans(e);
        if (e->op == VAR) { lits[e->id] = t; return t; }
        E n; if (cx.isNot(e, &n) && n->op == VAR) { lits[e->id] = t; return t; }
        std::string nm = "l" + std::to_string(e->id);
        Z3_ast l = mk(Z3_mk_const(z, Z3_mk_string_symbol(z, nm.c_str()), Z3_mk_bool_sort(z)));
        Z3_solver_assert(z, s, Z3_mk_iff(z, l, t));
        lits[e->id] = l; return l;
    }
    // 1 sat, 0 unsat, -1 unknown.  prop: a property query, whose "unsat" must come from z3
    int checkRaw(const std::vector<E> &as, std::shared_ptr<Model> *out, bool prop = false) {
        static const uint64_t b1 = getenv("RSX_CONF") ? atoi(getenv("RSX_CONF")) : 3000, b2 = 30000; static const unsigned t1 = getenv("RSX_T1") ? atoi(getenv("RSX_T1")) : 60;
        if (!useFast) return checkZ3(as, out, timeoutMs);
        auto fast = [&](uint64_t budget, int &r) -> bool {
            auto t0 = std::chrono::steady_clock::now(); auto mo = std::make_shared<Model>(); r = fs.check(as, mo.get(), budget); st.fastTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (r == 1) { st.fast++; st.queries++; st.sat++; for (E e : as) if (mo->eval(cx, e) != 1) { fprintf(stderr, "rsx: model does not satisfy query (encoding error)\n"); exit(3); } keep(mo); if (out) *out = mo; return true; }
            if (r == 0) {
                st.fastUnsat++; if (!prop && st.fastUnsat % sampleEvery) { st.fast++; st.queries++; st.unsat++; return true; }
                (prop ? st.confirmed : st.sampled)++; std::shared_ptr<Model> m; int q = checkZ3(as, &m, prop ? 250 : 2000); if (q < 0) q = checkOnce(as, &m, prop ? timeoutMs : 5000); if (q == 1) { fprintf(stderr, "rsx: solvers disagree\n"); exit(3); } r = q < 0 && !prop ? 0 : q; return true;
            }
            return false;
        };
        int r; if (fast(b1, r)) return r;
        r = checkZ3(as, out, t1); if (r >= 0) return r;
        if (fast(b2, r)) return r;
        return checkOnce(as, out, timeoutMs);
    }
    int model(Z3_solver s, const std::vector<E> &as, std::shared_ptr<Model> *out) {
        st.sat++;
        Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
        auto mo = std::make_shared<Model>(); mo->varVal.assign(cx.vars.size(), 0);
        for (E vv : cx.vars) {
            if (vv->id >= tr.size() || !tr[vv->id]) continue;
            Z3_func_decl d = Z3_get_app_decl(z, Z3_to_app(z, tr[vv->id])); Z3_ast val = Z3_model_get_const_interp(z, m, d);
            if (!val) continue;
            if (vv->w == 1) mo->varVal[vv->k] = Z3_get_bool_value(z, val) == Z3_L_TRUE;
            else { uint64_t x = 0; Z3_get_numeral_uint64(z, val, &x); mo->varVal[vv->k] = x; }
        }
        Z3_model_dec_ref(z, m);
        for (E e : as) if (mo->eval(cx, e) != 1) { fprintf(stderr, "rsx: model does not satisfy query (encoding error)\n"); exit(3); }
        models.push_front(mo); if (models.size() > maxModels) models.pop_back();
        if (out) *out = mo;
        return 1;
    }
    // a fresh solver with the bit-vector tactic (bit-blasting and SAT), for queries the incremental one does not settle quickly
    int checkOnce(const std::vector<E> &as, std::shared_ptr<Model> *out, unsigned tmo) {
        Z3_solver q = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, q);
        Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), tmo); Z3_solver_set_params(z, q, p); Z3_params_dec_ref(z, p);
        for (E e : as) if (!Ctx::isT(e)) Z3_solver_assert(z, q, trans(e));
        st.queries++; auto t0 = std::chrono::steady_clock::now(); Z3_lbool r = Z3_solver_check(z, q); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
        int res = -1; if (r == Z3_L_FALSE) { st.unsat++; res = 0; } else if (r == Z3_L_TRUE) res = model(q, as, out); else st.unknown++; Z3_solver_dec_ref(z, q); return res;
    }
    void keep(const std::shared_ptr<Model> &mo) { models.push_front(mo); if (models.size() > maxModels) models.pop_back(); }
    int checkZ3(const std::vector<E> &as, std::shared_ptr<Model> *out, unsigned tmo) {
        setTimeout(tmo);
        if (lits.size() > maxLits) { Z3_solver_reset(z, s); lits.clear(); }
        std::vector<Z3_ast> v; for (E e : as) if (!Ctx::isT(e)) v.push_back(lit(e));
        st.queries++; auto t0 = std::chrono::steady_clock::now();
        Z3_lbool r = Z3_solver_check_assumptions(z, s, v.size(), v.data());
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); st.time += dt; if (dt > st.maxTime) { st.maxTime = dt; if (getenv("RSX_DUMP") && dt > 0.03) { FILE *f = fopen(getenv("RSX_DUMP"), "w"); std::vector<Z3_ast> fs; for (E e : as) fs.push_back(trans(e)); fprintf(f, "%s", Z3_benchmark_to_smtlib_string(z, "q", "QF_BV", "", "", fs.size() - 1, fs.data(), fs.back())); fclose(f); fprintf(stderr, "dumped %.2f r=%d\n", dt, r); } }
        if (r == Z3_L_FALSE) { st.unsat++; return 0; }
        if (r == Z3_L_UNDEF) { if (tmo == timeoutMs) st.unknown++; return -1; }
        return model(s, as, out);
    }
};
} // namespace rsx
