// Hash-consed bit-vector expression DAG (widths 1..64) with local simplification.
#pragma once
#include <memory>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>

namespace rsx {

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE };

struct Expr {
    Op op; uint8_t w; uint16_t leaves;   // leaves: number of constant leaves when this is an ite tree over constants, else 0
    uint32_t id; bool bd; uint64_t k;             // k: constant value / variable number / extract low bit
    const Expr *a, *b, *c;
};
typedef const Expr *E;

inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextW(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskW(w); return (int64_t)((v ^ m) - m); }

class Ctx {
public:
    std::vector<Expr *> all; std::vector<E> tab; size_t cnt = 0;
    std::vector<std::string> varNames; std::vector<E> vars; std::unordered_map<std::string, E> varByName;
    Ctx() { tab.assign(1 << 16, nullptr); }
    static uint64_t hsh(Op op, unsigned w, uint64_t k, E a, E b, E c) {
        uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(k); mix((uint64_t)a); mix((uint64_t)b); mix((uint64_t)c); return h;
    }
    Expr *chunk = nullptr; size_t chunkLeft = 0;
    E raw(Op op, unsigned w, uint64_t k, E a = nullptr, E b = nullptr, E c = nullptr) {
        size_t m = tab.size() - 1; size_t i = hsh(op, w, k, a, b, c) & m;
        for (; tab[i]; i = (i + 1) & m) { E e = tab[i]; if (e->op == op && e->w == w && e->k == k && e->a == a && e->b == b && e->c == c) return e; }
        if (!chunkLeft) { chunk = (Expr *)malloc(sizeof(Expr) * 65536); chunkLeft = 65536; }
        Expr *n = chunk++; chunkLeft--;
        n->op = op; n->w = w; n->k = k; n->a = a; n->b = b; n->c = c; n->id = all.size(); n->leaves = 0;
        n->bd = op == CONST; if (op == ITE && a->op == VAR && a->bd && b->bd && c->bd && a->k < top(b) && a->k < top(c)) n->bd = true;
        if (op == CONST) n->leaves = 1;
        else if (n->bd) n->leaves = std::min(500u, (unsigned)b->leaves + c->leaves);
        else if (op == ITE && b->leaves && c->leaves) { unsigned t = b->leaves + c->leaves; n->leaves = t > 512 ? 0 : t; }
        all.push_back(n); tab[i] = n;
        if (++cnt * 2 > tab.size()) rehash();
        return n;
    }
    void rehash() {
        std::vector<E> nt(tab.size() * 2, nullptr); size_t m = nt.size() - 1;
        for (E e : tab) if (e) { size_t i = hsh(e->op, e->w, e->k, e->a, e->b, e->c) & m; while (nt[i]) i = (i + 1) & m; nt[i] = e; }
        tab.swap(nt);
    }
    E c(uint64_t v, unsigned w) { return raw(CONST, w, v & maskW(w)); }
    E T() { static thread_local E t = nullptr; if (!t) t = c(1, 1); return t; }
    E F() { static thread_local E f = nullptr; if (!f) f = c(0, 1); return f; }
    // Decision diagrams: expressions over one-bit inputs only are kept as reduced ordered (multi-terminal) decision diagrams,
    // so equal functions of those inputs are the same expression.
    static uint64_t top(E e) { return e->op == CONST ? ~0ull : e->op == VAR ? e->k : e->a->k; }
    struct K3 { E a, b, c; bool operator==(const K3 &o) const { return a == o.a && b == o.b && c == o.c; } };
    struct K3H { size_t operator()(const K3 &k) const { return hsh(ITE, 0, 0, k.a, k.b, k.c); } };
    std::unordered_map<K3, E, K3H> bddCache; std::unordered_map<K3, E, K3H> apCache[32];
    E lo(E e, uint64_t v) { return e->op == CONST ? e : e->op == VAR ? (e->k == v ? F() : e) : (e->a->k == v ? e->c : e); }
    E hi(E e, uint64_t v) { return e->op == CONST ? e : e->op == VAR ? (e->k == v ? T() : e) : (e->a->k == v ? e->b : e); }
    E node(uint64_t v, E x, E y) { if (x == y) return x; if (x->w == 1 && isT(x) && isF(y)) return vars[v]; return raw(ITE, x->w, 0, vars[v], x, y); }
    E bddIte(E c_, E x, E y) {
        if (isC(c_)) return c_->k ? x : y; if (x == y) return x; if (x->w == 1 && isT(x) && isF(y)) return c_;
        K3 k{c_, x, y}; auto it = bddCache.find(k); if (it != bddCache.end()) return it->second;
        uint64_t v = std::min(top(c_), std::min(top(x), top(y)));
        E h = bddIte(hi(c_, v), hi(x, v), hi(y, v)), l = bddIte(lo(c_, v), lo(x, v), lo(y, v)); return bddCache[k] = node(v, h, l);
    }
    E ap(Op op, E x, E y) {
        if (isC(x) && isC(y)) { if (op == CONCAT) return c((x->k << y->w) | y->k, x->w + y->w); bool cm = op >= EQ && op <= SLE; return c(ev2(op, x->w, x->k, y->k, x->w), cm ? 1 : x->w); }
        K3 k{x, y, nullptr}; auto &m = apCache[op]; auto it = m.find(k); if (it != m.end()) return it->second;
        uint64_t v = std::min(top(x), top(y)); E h = ap(op, hi(x, v), hi(y, v)), l = ap(op, lo(x, v), lo(y, v)); return m[k] = node(v, h, l);
    }
    E inputBit(const std::string &name) { auto it = varByName.find(name); if (it != varByName.end()) return it->second; E e = var(name, 1); ((Expr *)e)->bd = true; ((Expr *)e)->leaves = 2; return e; }
    E var(const std::string &name, unsigned w) {
        auto it = varByName.find(name); if (it != varByName.end()) return it->second;
        E e = raw(VAR, w, varNames.size()); varNames.push_back(name); vars.push_back(e); varByName[name] = e; return e;
    }
    static bool isC(E e) { return e->op == CONST; }
    static bool isT(E e) { return e->op == CONST && e->k == 1 && e->w == 1; }
    static bool isF(E e) { return e->op == CONST && e->k == 0 && e->w == 1; }

    static uint64_t ev2(Op op, unsigned w, uint64_t x, uint64_t y, unsigned ow) {
        switch (op) {
        case ADD: return (x + y) & maskW(w); case SUB: return (x - y) & maskW(w); case MUL: return (x * y) & maskW(w);
        case UDIV: return y ? x / y : maskW(w); case UREM: return y ? x % y : x;
        case SDIV: { int64_t a = sextW(x, w), b = sextW(y, w); if (!b) return (a < 0 ? 1 : maskW(w)); if (b == -1) return (0 - (uint64_t)a) & maskW(w); return (uint64_t)(a / b) & maskW(w); }
        case SREM: { int64_t a = sextW(x, w), b = sextW(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & maskW(w); }
        case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
        case SHL: return y >= w ? 0 : (x << y) & maskW(w); case LSHR: return y >= w ? 0 : x >> y;
        case ASHR: { int64_t a = sextW(x, w); return (uint64_t)(y >= w ? (a < 0 ? -1 : 0) : (a >> y)) & maskW(w); }
        case EQ: return x == y; case ULT: return x < y; case ULE: return x <= y;
        case SLT: return sextW(x, ow) < sextW(y, ow); case SLE: return sextW(x, ow) <= sextW(y, ow);
        case CONCAT: abort();
        default: abort();
        }
    }
    // map a function over the constant leaves of an ite tree (memoised over the DAG)
    E mapLeaves(E t, const std::function<E(E)> &f) {
        if (t->op == VAR) return ite(t, f(T()), f(F()));
        if (t->op == CONST) return f(t);
        std::unordered_map<E, E> memo;
        std::function<E(E)> go = [&](E x) -> E {
            if (x->op == CONST) return f(x); if (x->op == VAR) return ite(x, f(T()), f(F()));
            auto it = memo.find(x); if (it != memo.end()) return it->second;
            E r = ite(x->a, go(x->b), go(x->c)); memo[x] = r; return r;
        };
        return go(t);
    }
    E bnot(E x) { return xorr(x, c(maskW(x->w), x->w)); }
    bool isNot(E x, E *inner) { if (x->bd) return false; if (x->op == XOR && x->b->op == CONST && x->b->k == maskW(x->w)) { *inner = x->a; return true; } return false; }
    bool neg(E x, E y) { if (x->bd != y->bd) return false; if (x->bd) return x->w == 1 && lnot(x) == y; E i; if (isNot(x, &i) && i == y) return true; if (isNot(y, &i) && i == x) return true; return false; }
    E lnot(E x) { return bnot(x); }

    // sums are kept as  base + t  where t is an ite tree over constants (possibly a plain constant)
    E leafAdd(E p, E q) { return mapLeaves(p, [&](E l) { return mapLeaves(q, [&](E m) { return c(l->k + m->k, l->w); }); }); }
    static bool splitSum(E x, E &base, E &t) { if (x->op == ADD && x->b->leaves) { base = x->a; t = x->b; return true; } base = x; t = nullptr; return false; }
    E add(E x, E y) {
        unsigned w = x->w;
        if (x->bd && y->bd) return ap(ADD, x, y);
        if (isC(x) || (x->leaves && !y->leaves)) std::swap(x, y);
        if (y->leaves && w > 1) {
            if (isC(y) && !y->k) return x;
            if (x->leaves && (unsigned)x->leaves * y->leaves <= 1024) return leafAdd(x, y);
            if (!x->leaves) {
                if (x->op == ADD && x->b->leaves && (unsigned)x->b->leaves * y->leaves <= 1024) return add(x->a, leafAdd(x->b, y));
                return raw(ADD, w, 0, x, y);
            }
        }
        if (isC(y)) { if (isC(x)) return c(x->k + y->k, w); if (!y->k) return x; return raw(ADD, w, 0, x, y); }
        if (x->op == ADD && x->b->leaves) return add(add(x->a, y), x->b);
        if (y->op == ADD && y->b->leaves) return add(add(x, y->a), y->b);
        if (y->op == SUB && y->b == x) return y->a;
        if (x->op == SUB && x->b == y) return x->a;
        if (x->id > y->id) std::swap(x, y);
        return raw(ADD, w, 0, x, y);
    }
    static bool hasConstAddend(E x) { return isC(x) || (x->op == ADD && isC(x->b)) || (x->op == ITE && x->leaves); }
    E sub(E x, E y) {
        unsigned w = x->w;
        if (x->bd && y->bd) return ap(SUB, x, y);
        if (isC(y)) return add(x, c(0 - y->k, w));
        if (x == y) return c(0, w);
        if (y->leaves && !x->leaves) return add(x, mapLeaves(y, [&](E l) { return c(0 - l->k, w); }));
        if (x->op == ADD) {
            if (x->a == y) return x->b;
            if (x->b == y) return x->a;
        }
        if (x->op == ADD && isC(x->b)) return add(sub(x->a, y), x->b);
        if (x->op == ADD && x->b->leaves) return add(sub(x->a, y), x->b);
        if (y->op == ADD && y->b->leaves) return add(sub(x, y->a), mapLeaves(y->b, [&](E l) { return c(0 - l->k, w); }));
        if (x->op == ADD && y->op == ADD) { if (x->a == y->a) return sub(x->b, y->b); if (x->b == y->b) return sub(x->a, y->a); if (x->a == y->b) return sub(x->b, y->a); if (x->b == y->a) return sub(x->a, y->b); }
        if (isC(x) && y->leaves) return mapLeaves(y, [&](E l) { return c(x->k - l->k, w); });
        if (x->leaves && y->leaves && (unsigned)x->leaves * y->leaves <= 256) return mapLeaves(x, [&](E l) { return mapLeaves(y, [&](E m) { return c(l->k - m->k, w); }); });
        return raw(SUB, w, 0, x, y);
    }
    E mul(E x, E y) {
        unsigned w = x->w; if (x->bd && y->bd) return ap(MUL, x, y); if (isC(x)) std::swap(x, y);
        if (isC(y)) {
            if (isC(x)) return c(x->k * y->k, w);
            if (!y->k) return y; if (y->k == 1) return x;
            if (x->leaves) return mapLeaves(x, [&](E l) { return c(l->k * y->k, w); });
            if ((y->k & (y->k - 1)) == 0) return shl(x, c(__builtin_ctzll(y->k), w));
        }
        if (x->id > y->id && !isC(y)) std::swap(x, y);
        return raw(MUL, w, 0, x, y);
    }
    E divlike(Op op, E x, E y) {
        unsigned w = x->w;
        if (x->bd && y->bd) return ap(op, x, y);
        if (isC(x) && isC(y)) return c(ev2(op, w, x->k, y->k, w), w);
        if (isC(y) && y->k) {
            if (op == UDIV && (y->k & (y->k - 1)) == 0) return lshr(x, c(__builtin_ctzll(y->k), w));
            if (op == UREM && (y->k & (y->k - 1)) == 0) return andd(x, c(y->k - 1, w));
            if (x->leaves) return mapLeaves(x, [&](E l) { return c(ev2(op, w, l->k, y->k, w), w); });
        }
        return raw(op, w, 0, x, y);
    }
    E andd(E x, E y) {
        unsigned w = x->w; if (x == y) return x; if (x->bd && y->bd) return w == 1 ? bddIte(x, y, F()) : ap(AND, x, y);
        if (w == 1) for (int s = 0; s < 2; s++, std::swap(x, y)) if (x->bd && !isC(x) && y->op == AND) { if (y->a->bd) return andd(andd(x, y->a), y->b); if (y->b->bd) return andd(andd(x, y->b), y->a); }
        if (w == 1 && x->op == AND && y->op == AND) { E xb = x->a->bd ? x->a : x->b->bd ? x->b : nullptr, yb = y->a->bd ? y->a : y->b->bd ? y->b : nullptr; if (xb && yb) return andd(andd(xb, yb), andd(x->a == xb ? x->b : x->a, y->a == yb ? y->b : y->a)); }
        if (isC(x)) std::swap(x, y);
        if (isC(y)) {
            if (isC(x)) return c(x->k & y->k, w);
            if (!y->k) return y; if (y->k == maskW(w)) return x;
            if (w > 1 && x->leaves) return mapLeaves(x, [&](E l) { return c(l->k & y->k, w); });
            if (x->op == AND && isC(x->b)) return andd(x->a, c(x->b->k & y->k, w));
            if (x->op == ZEXT && (y->k & maskW(x->a->w)) == maskW(x->a->w)) return x;
            if (x->op == ZEXT) return zext(andd(x->a, c(y->k, x->a->w)), w);
            return raw(AND, w, 0, x, y);
        }
        if (neg(x, y)) return c(0, w);
        if (x->leaves && y->leaves && w > 1 && (unsigned)x->leaves * y->leaves <= 64) return mapLeaves(x, [&](E l) { return mapLeaves(y, [&](E m) { return c(l->k & m->k, w); }); });
        for (int s = 0; s < 2; s++, std::swap(x, y)) {
            if (y->op == AND) { if (y->a == x || y->b == x) return y; if (neg(y->a, x) || neg(y->b, x)) return c(0, w); }
            if (y->op == OR) { if (y->a == x || y->b == x) return x; if (neg(y->a, x)) return andd(x, y->b); if (neg(y->b, x)) return andd(x, y->a); }
            E n; if (w == 1 && isNot(y, &n)) { // x & !(p&q)
                if (n->op == AND) { if (n->a == x) return andd(x, lnot(n->b)); if (n->b == x) return andd(x, lnot(n->a)); if (neg(n->a, x) || neg(n->b, x)) return x; }
                if (n->op == OR) { if (n->a == x || n->b == x) return c(0, w); }
            }
        }
        if (w == 1 && x->op == AND && y->op == AND) { // complementary members
            if (neg(x->a, y->a) || neg(x->a, y->b) || neg(x->b, y->a) || neg(x->b, y->b)) return c(0, 1);
        }
        if (w == 1) { // equalities with different constants
            if (x->op == EQ && y->op == EQ && x->a == y->a && isC(x->b) && isC(y->b) && x->b != y->b) return c(0, 1);
        }
        if (x->id > y->id) std::swap(x, y);
        return raw(AND, w, 0, x, y);
    }
    E orr(E x, E y) {
        unsigned w = x->w; if (x == y) return x; if (x->bd && y->bd) return w == 1 ? bddIte(x, T(), y) : ap(OR, x, y);
        if (w == 1) for (int s = 0; s < 2; s++, std::swap(x, y)) if (x->bd && !isC(x) && y->op == OR) { if (y->a->bd) return orr(orr(x, y->a), y->b); if (y->b->bd) return orr(orr(x, y->b), y->a); }
        if (isC(x)) std::swap(x, y);
        if (isC(y)) {
            if (isC(x)) return c(x->k | y->k, w);
            if (!y->k) return x; if (y->k == maskW(w)) return y;
            if (w > 1 && x->leaves) return mapLeaves(x, [&](E l) { return c(l->k | y->k, w); });
            return raw(OR, w, 0, x, y);
        }
        if (neg(x, y)) return c(maskW(w), w);
        if (x->leaves && y->leaves && w > 1 && (unsigned)x->leaves * y->leaves <= 64) return mapLeaves(x, [&](E l) { return mapLeaves(y, [&](E m) { return c(l->k | m->k, w); }); });
        for (int s = 0; s < 2; s++, std::swap(x, y)) {
            if (y->op == OR) { if (y->a == x || y->b == x) return y; if (neg(y->a, x) || neg(y->b, x)) return c(maskW(w), w); }
            if (y->op == AND) { if (y->a == x || y->b == x) return x; if (neg(y->a, x)) return orr(x, y->b); if (neg(y->b, x)) return orr(x, y->a); }
            E n; if (w == 1 && isNot(y, &n)) {
                if (n->op == AND) { if (n->a == x || n->b == x) return c(1, 1); if (neg(n->a, x) || neg(n->b, x)) return y; }
                if (n->op == OR) { if (n->a == x) return orr(x, lnot(n->b)); if (n->b == x) return orr(x, lnot(n->a)); }
            }
        }
        if (w == 1 && x->op == AND && y->op == AND) { // (a&p) | (a&!p) = a ; (a&p)|(a&q) = a&(p|q)
            E common = nullptr, p = nullptr, q = nullptr;
            if (x->a == y->a) common = x->a, p = x->b, q = y->b; else if (x->a == y->b) common = x->a, p = x->b, q = y->a;
            else if (x->b == y->a) common = x->b, p = x->a, q = y->b; else if (x->b == y->b) common = x->b, p = x->a, q = y->a;
            if (common) return andd(common, orr(p, q));
        }
        if (x->id > y->id) std::swap(x, y);
        return raw(OR, w, 0, x, y);
    }
    E xorr(E x, E y) {
        unsigned w = x->w; if (x == y) return c(0, w); if (x->bd && y->bd) return ap(XOR, x, y);
        if (isC(x)) std::swap(x, y);
        if (isC(y)) {
            if (isC(x)) return c(x->k ^ y->k, w);
            if (!y->k) return x;
            if (x->op == XOR && isC(x->b)) return xorr(x->a, c(x->b->k ^ y->k, w));
            if (w > 1 && x->leaves) return mapLeaves(x, [&](E l) { return c(l->k ^ y->k, w); });
            if (w == 1) { // negation of comparisons
                if (x->op == ULT) return ule(x->b, x->a); if (x->op == ULE) return ult(x->b, x->a);
                if (x->op == SLT) return sle(x->b, x->a); if (x->op == SLE) return slt(x->b, x->a);
            }
            return raw(XOR, w, 0, x, y);
        }
        if (w == 1) { E i; if (isNot(x, &i)) return lnot(xorr(i, y)); if (isNot(y, &i)) return lnot(xorr(x, i)); }
        if (x->id > y->id) std::swap(x, y);
        return raw(XOR, w, 0, x, y);
    }
    E shiftlike(Op op, E x, E y) {
        unsigned w = x->w;
        if (x->bd && y->bd) return ap(op, x, y);
        if (isC(y)) {
            if (isC(x)) return c(ev2(op, w, x->k, y->k, w), w);
            if (!y->k) return x;
            if (y->k >= w && op != ASHR) return c(0, w);
            if (x->leaves) return mapLeaves(x, [&](E l) { return c(ev2(op, w, l->k, y->k, w), w); });
            if (op == LSHR && y->k < w) return zext(extract(x, y->k, w - y->k), w);
        } else if (y->leaves) return mapLeaves(y, [&](E l) { return shiftlike(op, x, l); });
        return raw(op, w, 0, x, y);
    }
    E shl(E x, E y) { return shiftlike(SHL, x, y); }
    E lshr(E x, E y) { return shiftlike(LSHR, x, y); }
    E ashr(E x, E y) { return shiftlike(ASHR, x, y); }
    E eq(E x, E y) {
        if (x == y) return T();
        if (x->bd && y->bd) return ap(EQ, x, y);
        if (isC(x)) std::swap(x, y);
        if (isC(y)) {
            if (isC(x)) return F();
            if (x->w == 1) return y->k ? x : lnot(x);
            if (x->leaves) return mapLeaves(x, [&](E l) { return c(l->k == y->k, 1); });
            if (x->op == ADD && x->b->leaves) return mapLeaves(x->b, [&](E l) { return eq(x->a, c(y->k - l->k, x->w)); });
            if (x->op == XOR && isC(x->b)) return eq(x->a, c(y->k ^ x->b->k, x->w));
            if (x->op == ZEXT) { if (y->k >> x->a->w) return F(); return eq(x->a, c(y->k, x->a->w)); }
            if (x->op == SEXT) { if ((uint64_t)sextW(y->k & maskW(x->a->w), x->a->w) << (64 - x->w) != y->k << (64 - x->w)) return F(); return eq(x->a, c(y->k, x->a->w)); }
            if (x->op == ITE) {
                if (isC(x->b)) return x->b->k == y->k ? orr(x->a, eq(x->c, y)) : andd(lnot(x->a), eq(x->c, y));
                if (isC(x->c)) return x->c->k == y->k ? orr(lnot(x->a), eq(x->b, y)) : andd(x->a, eq(x->b, y));
                if (x->b->op == ITE || x->c->op == ITE || hasConstAddend(x->b) || hasConstAddend(x->c)) return ite(x->a, eq(x->b, y), eq(x->c, y));
            }
            if (x->op == CONCAT) return andd(eq(x->a, c(y->k >> x->b->w, x->a->w)), eq(x->b, c(y->k, x->b->w)));
            return raw(EQ, 1, 0, x, y);
        }
        if (x->w == 1) return lnot(xorr(x, y));
        if (x->op == ADD && y->op == ADD && x->b == y->b) return eq(x->a, y->a);
        { E bx, tx, by, ty; bool sx = splitSum(x, bx, tx), sy = splitSum(y, by, ty);
          if ((sx || sy) && bx == by) return eq(sx ? tx : c(0, x->w), sy ? ty : c(0, x->w));
          if (sx && !isC(tx)) return mapLeaves(tx, [&](E l) { return eq(add(bx, l), y); });
          if (sy && !isC(ty)) return mapLeaves(ty, [&](E l) { return eq(x, add(by, l)); }); }
        if (x->op == ZEXT && y->op == ZEXT && x->a->w == y->a->w) return eq(x->a, y->a);
        if (x->leaves && y->leaves && (unsigned)x->leaves * y->leaves <= 256) return mapLeaves(x, [&](E l) { return eq(y, l); });
        if (x->op == ITE && y->op == ITE && x->a == y->a) return ite(x->a, eq(x->b, y->b), eq(x->c, y->c));
        if (x->op == ITE && (x->b == y || x->c == y)) return x->b == y ? orr(x->a, eq(x->c, y)) : orr(lnot(x->a), eq(x->b, y));
        if (y->op == ITE && (y->b == x || y->c == x)) return y->b == x ? orr(y->a, eq(y->c, x)) : orr(lnot(y->a), eq(y->b, x));
        if (x->id > y->id) std::swap(x, y);
        return raw(EQ, 1, 0, x, y);
    }
    E cmp(Op op, E x, E y) {
        if (isC(x) && isC(y)) return c(ev2(op, x->w, x->k, y->k, x->w), 1);
        if (x == y) return c(op == ULE || op == SLE, 1);
        if (x->bd && y->bd) return ap(op, x, y);
        if (isC(y) && x->leaves) return mapLeaves(x, [&](E l) { return c(ev2(op, x->w, l->k, y->k, x->w), 1); });
        if (isC(x) && y->leaves) return mapLeaves(y, [&](E l) { return c(ev2(op, x->w, x->k, l->k, x->w), 1); });
        if (x->leaves && y->leaves && (unsigned)x->leaves * y->leaves <= 256) return mapLeaves(x, [&](E l) { return cmp(op, l, y); });
        if (x->op == ADD && x->b->leaves && !isC(x->b)) return mapLeaves(x->b, [&](E l) { return cmp(op, add(x->a, l), y); });
        if (y->op == ADD && y->b->leaves && !isC(y->b)) return mapLeaves(y->b, [&](E l) { return cmp(op, x, add(y->a, l)); });
        if (op == ULT) { if (isC(y) && !y->k) return F(); if (isC(y) && y->k == 1) return eq(x, c(0, x->w)); if (isC(x) && x->k == maskW(x->w)) return F(); if (isC(x) && !x->k) return lnot(eq(y, x)); }
        if (op == ULE) { if (isC(x) && !x->k) return T(); if (isC(y) && y->k == maskW(y->w)) return T(); if (isC(y) && !y->k) return eq(x, y); }
        if (op == ULT || op == ULE) {
            if (x->op == ZEXT && isC(y)) { if (y->k > maskW(x->a->w)) return T(); return cmp(op, x->a, c(y->k, x->a->w)); }
            if (y->op == ZEXT && isC(x)) { if (x->k > maskW(y->a->w)) return F(); return cmp(op, c(x->k, y->a->w), y->a); }
            if (x->op == ZEXT && y->op == ZEXT && x->a->w == y->a->w) return cmp(op, x->a, y->a);
        }
        return raw(op, 1, 0, x, y);
    }
    E ult(E x, E y) { return cmp(ULT, x, y); }
    E ule(E x, E y) { return cmp(ULE, x, y); }
    E slt(E x, E y) { return cmp(SLT, x, y); }
    E sle(E x, E y) { return cmp(SLE, x, y); }
    E zext(E x, unsigned w) {
        if (x->w == w) return x;
        if (isC(x)) return c(x->k, w);
        if (x->op == ZEXT) return zext(x->a, w);
        if (x->leaves) return mapLeaves(x, [&](E l) { return c(l->k, w); });
        if (x->w == 1) return ite(x, c(1, w), c(0, w));
        return raw(ZEXT, w, 0, x);
    }
    E sext(E x, unsigned w) {
        if (x->w == w) return x;
        if (isC(x)) return c((uint64_t)sextW(x->k, x->w), w);
        if (x->leaves) return mapLeaves(x, [&](E l) { return c((uint64_t)sextW(l->k, l->w), w); });
        if (x->w == 1) return ite(x, c(maskW(w), w), c(0, w));
        if (x->op == ZEXT) return zext(x->a, w);
        return raw(SEXT, w, 0, x);
    }
    E extract(E x, unsigned lo, unsigned w) {
        if (lo == 0 && w == x->w) return x;
        if (isC(x)) return c(x->k >> lo, w);
        if (x->leaves) return mapLeaves(x, [&](E l) { return c(l->k >> lo, w); });
        if (x->op == EXTRACT) return extract(x->a, lo + x->k, w);
        if (x->op == ZEXT) { if (lo >= x->a->w) return c(0, w); if (lo + w <= x->a->w) return extract(x->a, lo, w); return zext(extract(x->a, lo, x->a->w - lo), w); }
        if (x->op == SEXT && lo + w <= x->a->w) return extract(x->a, lo, w);
        if (x->op == CONCAT) { if (lo + w <= x->b->w) return extract(x->b, lo, w); if (lo >= x->b->w) return extract(x->a, lo - x->b->w, w); return concat(extract(x->a, 0, lo + w - x->b->w), extract(x->b, lo, x->b->w - lo)); }
        if (x->op == ITE) return ite(x->a, extract(x->b, lo, w), extract(x->c, lo, w));
        if (lo == 0 && (x->op == ADD || x->op == SUB || x->op == MUL || x->op == AND || x->op == OR || x->op == XOR)) {
            E p = extract(x->a, 0, w), q = extract(x->b, 0, w);
            switch (x->op) { case ADD: return add(p, q); case SUB: return sub(p, q); case MUL: return mul(p, q); case AND: return andd(p, q); case OR: return orr(p, q); default: return xorr(p, q); }
        }
        if (x->op == AND || x->op == OR || x->op == XOR) {
            E p = extract(x->a, lo, w), q = extract(x->b, lo, w);
            return x->op == AND ? andd(p, q) : x->op == OR ? orr(p, q) : xorr(p, q);
        }
        if (x->op == SHL && isC(x->b)) { uint64_t s = x->b->k; if (lo >= s && lo + w <= x->w) return extract(x->a, lo - s, w); if (lo + w <= s) return c(0, w); }
        return raw(EXTRACT, w, lo, x);
    }
    E concat(E hi, E lo) { // hi:lo, total width <= 64
        unsigned w = hi->w + lo->w;
        if (hi->bd && lo->bd) return ap(CONCAT, hi, lo);
        if (isC(hi) && isC(lo)) return c((hi->k << lo->w) | lo->k, w);
        if (isC(hi) && !hi->k) return zext(lo, w);
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return extract(hi->a, lo->k, w);
        if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
        if (hi->leaves && lo->leaves && (unsigned)hi->leaves * lo->leaves <= 256) return mapLeaves(hi, [&](E h) { return mapLeaves(lo, [&](E l) { return c((h->k << lo->w) | l->k, w); }); });
        return raw(CONCAT, w, 0, hi, lo);
    }
    E ite(E cnd, E x, E y) {
        if (isC(cnd)) return cnd->k ? x : y;
        if (x == y) return x;
        if (cnd->bd && x->bd && y->bd) return bddIte(cnd, x, y);
        E n; if (isNot(cnd, &n)) return ite(n, y, x);
        if (x->w == 1) {
            if (isC(x)) return x->k ? orr(cnd, y) : andd(lnot(cnd), y);
            if (isC(y)) return y->k ? orr(lnot(cnd), x) : andd(cnd, x);
            if (x == cnd) return orr(cnd, y); if (y == cnd) return andd(cnd, x);
        }
        if (x->op == ITE) { if (x->a == cnd) return ite(cnd, x->b, y); if (x->c == y) return ite(andd(cnd, x->a), x->b, y); if (x->b == y) return ite(andd(cnd, lnot(x->a)), x->c, y); }
        if (y->op == ITE) { if (y->a == cnd) return ite(cnd, x, y->c); if (y->b == x) return ite(orr(cnd, y->a), x, y->c); if (y->c == x) return ite(orr(cnd, lnot(y->a)), x, y->b); }
        if (x->w > 1 && !(x->leaves && y->leaves)) { // factor a common base out of sums
            E bx, tx, by, ty; bool sx = splitSum(x, bx, tx), sy = splitSum(y, by, ty);
            if ((sx || sy) && bx == by) return add(bx, ite(cnd, sx ? tx : c(0, x->w), sy ? ty : c(0, x->w)));
        }
        return raw(ITE, x->w, 0, cnd, x, y);
    }
    E bin(Op op, E x, E y) {
        switch (op) { case ADD: return add(x, y); case SUB: return sub(x, y); case MUL: return mul(x, y); case UDIV: case UREM: case SDIV: case SREM: return divlike(op, x, y);
        case AND: return andd(x, y); case OR: return orr(x, y); case XOR: return xorr(x, y); case SHL: case LSHR: case ASHR: return shiftlike(op, x, y);
        case EQ: return eq(x, y); case ULT: case ULE: case SLT: case SLE: return cmp(op, x, y); default: abort(); }
    }
};

// Evaluation under an assignment of variables; unassigned variables read as 0.
struct Model {
    std::vector<uint64_t> varVal;
    struct Pg { uint64_t memo[256]; uint8_t done[256]; }; std::vector<std::unique_ptr<Pg>> pg;   // memo of evaluated expressions
    void clear() { pg.clear(); }
    bool dn(uint32_t i) const { auto &p = pg[i >> 8]; return p && p->done[i & 255]; } uint64_t mv(uint32_t i) const { return pg[i >> 8]->memo[i & 255]; }
    void set(uint32_t i, uint64_t v) { auto &p = pg[i >> 8]; if (!p) { p.reset(new Pg); memset(p->done, 0, sizeof p->done); } p->memo[i & 255] = v; p->done[i & 255] = 1; }
    uint64_t eval(Ctx &cx, E root) {
        if (root->op == CONST) return root->k;
        if (pg.size() * 256 < cx.all.size()) pg.resize(cx.all.size() / 200 + 64);
        if (dn(root->id)) return mv(root->id);
        std::vector<E> st; st.push_back(root);
        while (!st.empty()) {
            E e = st.back(); if (dn(e->id)) { st.pop_back(); continue; }
            auto need = [&](E x) { if (x && x->op != CONST && !dn(x->id)) { st.push_back(x); return true; } return false; };
            auto val = [&](E x) { return x->op == CONST ? x->k : mv(x->id); };
            uint64_t r = 0;
            switch (e->op) {
            case CONST: r = e->k; break;
            case VAR: r = e->k < varVal.size() ? varVal[e->k] : 0; break;
            case ITE: if (need(e->a)) continue; { E br = val(e->a) ? e->b : e->c; if (need(br)) continue; r = val(br); } break;
            case AND: if (e->w == 1) { if (e->b->op != CONST && !dn(e->b->id) && !(e->a->op != CONST && !dn(e->a->id)) && !val(e->a)) { r = 0; break; } if (need(e->a)) continue; if (!val(e->a)) { r = 0; break; } if (need(e->b)) continue; r = val(e->b); break; } if (need(e->a) || need(e->b)) continue; r = val(e->a) & val(e->b); break;
            case OR: if (e->w == 1) { if (need(e->a)) continue; if (val(e->a)) { r = 1; break; } if (need(e->b)) continue; r = val(e->b); break; } if (need(e->a) || need(e->b)) continue; r = val(e->a) | val(e->b); break;
            case ZEXT: if (need(e->a)) continue; r = val(e->a); break;
            case SEXT: if (need(e->a)) continue; r = (uint64_t)sextW(val(e->a), e->a->w) & maskW(e->w); break;
            case EXTRACT: if (need(e->a)) continue; r = (val(e->a) >> e->k) & maskW(e->w); break;
            case CONCAT: if (need(e->a) || need(e->b)) continue; r = (val(e->a) << e->b->w) | val(e->b); break;
            default: if (need(e->a) || need(e->b)) continue; r = Ctx::ev2(e->op, e->w, val(e->a), val(e->b), e->a->w); break;
            }
            set(e->id, r); st.pop_back();
        }
        return mv(root->id);
    }
};

} // namespace rsx
