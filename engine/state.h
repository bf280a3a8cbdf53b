// Program representation (decoded LLVM IR) and symbolic machine state.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <map>
#include <set>
#include <cstring>

namespace rsx {
using std::vector; using std::string;

template <class T> struct Ref {
    T *p = nullptr;
    Ref() {} Ref(T *q) : p(q) { if (p) p->rc++; } Ref(const Ref &o) : p(o.p) { if (p) p->rc++; } Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    Ref &operator=(Ref &&o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
    ~Ref() { drop(); }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; }
    bool operator==(const Ref &o) const { return p == o.p; } bool operator!=(const Ref &o) const { return p != o.p; }
    T *mut() { if (p->rc > 1) { T *n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

// ---------------------------------------------------------------- memory
struct Cell { E e; uint8_t i; };            // byte i of e (e == nullptr: uninitialised)
struct Page {
    int rc = 0; bool sym = false; uint64_t init = 0; uint8_t raw[64]; Cell *c = nullptr;
    Page() { memset(raw, 0, sizeof raw); }
    Page(const Page &o) : rc(0), sym(o.sym), init(o.init) { memcpy(raw, o.raw, sizeof raw); if (o.c) { c = new Cell[64]; memcpy(c, o.c, sizeof(Cell) * 64); } }
    ~Page() { delete[] c; }
};
struct LogRec { E guard, off, len, val; bool fill; };
enum OKind : uint8_t { O_GLOBAL, O_CONST, O_STACK, O_HEAP, O_EXC, O_TLS };
struct Obj {
    int rc = 0; uint32_t slot = 0; uint64_t base = 0; E size = nullptr; E alive = nullptr; OKind kind = O_GLOBAL; uint8_t alloc = 0; int16_t tid = -1; bool ghost = false; bool lazy = false;
    uint32_t site = 0; vector<Ref<Page>> pages; vector<LogRec> log;
};
struct Mem { // sorted by slot
    vector<Ref<Obj>> v;
    int find(uint32_t slot) const { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->slot < slot) lo = m + 1; else hi = m; } return lo < v.size() && v[lo]->slot == slot ? (int)lo : -1; }
    void insert(Ref<Obj> o) { size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->slot < o->slot) lo = m + 1; else hi = m; } v.insert(v.begin() + lo, o); }
};

// ---------------------------------------------------------------- code
struct Opnd { int reg = -1; vector<E> cs; };
struct Fn;
struct Ins {
    unsigned opc; const llvm::Instruction *I; int dst = -1, dn = 0; vector<Opnd> o;
    vector<std::pair<uint32_t, uint32_t>> lay;       // flattened (byte offset, bit width) of the accessed type
    vector<std::pair<int, uint64_t>> gep; uint64_t k = 0; unsigned w = 0; int t = -1, f = -1; int idx = 0, cnt = 0;
    vector<std::pair<uint64_t, int>> cases; Fn *callee = nullptr; int sub = 0; bool atomic = false; int live = -1; vector<uint64_t> byval; bool model = false;
};
struct Phi { int dst, n; vector<std::pair<int, Opnd>> in; };
struct LoopI { int header, parent; };
struct BBk { vector<Phi> phis; vector<Ins> ins; int rpo = 0; int loop = -1; vector<int> chain; int liveIn = -1; const llvm::BasicBlock *B = nullptr; };
struct Fn {
    const llvm::Function *F; string name; int id; bool decoded = false, hasBody = false, model = false, ghost = false; int nregs = 0; vector<int> argReg; vector<int> argN; vector<BBk> bbs; vector<LoopI> loops; vector<vector<uint64_t>> liveSets;
    int handler = -1; uint64_t addr = 0; uint64_t calls = 0, execd = 0; int retN = 0; size_t ninstr = 0; bool forceYield = false;
};

// ---------------------------------------------------------------- state
struct PC { const PC *parent; E cond; E full; int depth; };
struct Frame {
    int rc = 0; Fn *fn = nullptr; int bb = 0, ip = 0; vector<E> regs; vector<uint32_t> iters; uint32_t irr = 0; vector<uint32_t> prefix; vector<uint32_t> allocas;
};
struct Thread { vector<Ref<Frame>> fr; bool done = false, go = false, left = false; int phase = 0; uint64_t tls = 0; E mainGate = nullptr; vector<uint64_t> held; };
struct Access { uint32_t slot; uint32_t site; E off; uint32_t n; bool wr, at; E guard; uint32_t first, last; };
struct HbRec { E addr, guard; int kind; uint32_t seq; };          // kind 1 acquire, 2 release
struct Foot { int tid; vector<Access> acc; vector<HbRec> hb; uint32_t seq = 0; int rc = 0; };
struct Ev { int kind; int tid; uint64_t v; string name; };   // 0 sched, 1 nondet, 2 pick, 3 spurious
struct Rec { vector<E> hv; vector<vector<std::pair<E, vector<uint64_t>>>> alts; vector<E> sel; vector<std::pair<int, E>> preds; };
struct State {
    vector<uint8_t> split;   // case distinctions (vp_split) this state has gone through: states that differ here are kept apart
    vector<Thread> th; Mem mem; const PC *pc = nullptr; E spur = nullptr; int forbid = 0; bool running = false; E ended = nullptr;
    vector<std::pair<Ref<Foot>, E>> feet;        // footprints of the last segment(s) leading here, with the condition for it
    vector<Ev> trace; std::map<int, E> faults; vector<std::pair<int, E>> recs;   // compaction record(s) this state descends from
};
} // namespace rsx
