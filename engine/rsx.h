// Executor: declarations.
#pragma once
#include "state.h"
#include <chrono>
#include <unordered_set>
#include <functional>
namespace rsx {
typedef vector<uint32_t> Pos;
enum { K_LOCK_ = 1, K_UNLOCK_ = 2, K_SIGNAL_ = 3, K_WAIT_ = 4, K_REACQ_ = 5, K_TRYLOCK_ = 6, K_SLEEP_ = 7, K_DESTROY_ = 8, K_YIELD_ = 9, K_ATOMIC_ = 10, K_RUN_ = 11 };
enum { H_INTRINSIC = 0 };
const std::unordered_map<string, int> &handlerIds();
enum Event { EV_BLOCK, EV_YIELD, EV_DEAD, EV_DONE, EV_CONT };

struct Options {
    string bc, out; bool race = false, raceCollect = false; bool reduce = true; double timeLimit = 800; unsigned solverMs = 60000; size_t maxNodes = 2000000; bool verbose = false; bool lightYield = false;
    bool noWitness = false; uint64_t seed = 1; bool weakFail = false; string smtDir; uint64_t maxInstr = 4000000000ull; int maxWitness = 12; size_t cap = 128;
};
struct Unsupported { string why; };
struct StopRun { string why; };
struct PathEnd {};

struct Violation { string kind, msg, where; vector<uint64_t> sites; std::shared_ptr<Model> model; vector<Ev> trace; bool traced = false; };

class Engine {
public:
    Options opt; Ctx cx; Solver sv; std::unique_ptr<llvm::LLVMContext> lctx; std::unique_ptr<llvm::Module> mod; const llvm::DataLayout *DL = nullptr;
    vector<std::unique_ptr<Fn>> fns; std::unordered_map<const llvm::Function *, Fn *> fnOf; std::unordered_map<uint64_t, Fn *> fnAt;
    std::unordered_map<const llvm::GlobalVariable *, uint32_t> gslot; vector<uint64_t> slotBase; vector<uint32_t> slotHead; vector<string> slotName; std::unordered_map<uint64_t, uint32_t> constObjs; vector<Ref<Obj>> constBySlot;
    std::map<Pos, uint32_t> slotIntern; std::map<vector<Pos>, uint32_t> nodeIntern; vector<uint32_t> freeList;
    std::unordered_map<uint64_t, int> tiId; std::unordered_map<uint64_t, vector<std::pair<uint64_t, int64_t>>> tiBases;
    // statistics and results
    uint64_t nNodes = 0, nSegs = 0, nMerges = 0, nMergeFail = 0, nForks = 0, nInstr = 0, nPaths = 0, nAsserts = 0, nAssertQ = 0, nVars = 0, raceQ = 0, nAccel = 0; bool unknownSeen = false; string unknownWhat;
    std::map<string, uint64_t> assertCount; std::map<string, std::shared_ptr<Model>> reached; std::set<string> expectReach; vector<Violation> violations; std::map<string, vector<Ev>> witness;
    std::chrono::steady_clock::time_point t0; std::shared_ptr<Model> guide; bool guideHit = false; string guideLabel; vector<Ev> guideTrace; uint32_t siteCnt = 0; std::map<const llvm::Instruction *, uint32_t> siteId; vector<const llvm::Instruction *> siteIns;
    std::unordered_map<uint64_t, signed char> fcache; std::set<string> modelled;

    Engine(const Options &o) : opt(o), sv(cx, o.solverMs) {}
    // loading
    void load(); Fn *getFn(const llvm::Function *F); void decode(Fn *f); uint32_t newSlot(uint64_t size, const string &name); void layoutGlobals(State &s);
    void flat(llvm::Type *T, uint64_t off, vector<std::pair<uint32_t, uint32_t>> &out); int flatN(llvm::Type *T);
    void constVal(const llvm::Constant *C, vector<E> &out); uint64_t constAddr(const llvm::Constant *C); void initConst(Obj *o, uint64_t off, const llvm::Constant *C); void parseTypeInfos();
    Opnd opnd(const llvm::Value *V, std::unordered_map<const llvm::Value *, int> &regs);
    // solver front end
    const PC *pcMk(const PC *p, E c); void pcAdd(State &s, E c); int feas(const State &s, E c); bool feasible(const State &s, E c) { int r = feas(s, c); if (r < 0) { unknownSeen = true; unknownWhat = "branch"; } return r != 0; }
    int satq(const State &s, E c, std::shared_ptr<Model> *m, bool prop = false);
    E truth(uint64_t v) { return cx.c(v, 1); }
    // memory
    uint8_t *rawp(Obj *o, uint64_t off); Cell cellAt(const Obj *o, uint64_t off); void setCell(Obj *o, uint64_t off, Cell c); E uninit(const Obj *o, uint64_t off);
    E readConst(const Obj *o, uint64_t off, unsigned bits); void writeConst(Obj *o, uint64_t off, E v); E byteOf(Cell c, const Obj *o, uint64_t off);
    E readSym(State &s, const Obj *o, E off, unsigned bits); void writeSym(State &s, Obj *o, E off, E v, E guard); E readLogByte(const Obj *o, E off, size_t upto, E base = nullptr); unsigned tz(E e);
    struct Case { E guard; int idx; E off; uint32_t slot; }; // idx into mem or -1-constIdx
    bool resolve(State &s, E p, vector<Case> &out, E guard); Ref<Obj> objOf(State &s, const Case &c);
    void access(State &s, E p, E n, bool wr, vector<Case> &out, const char *what);
    E load(State &s, E p, unsigned bits, bool atomic = false); void store(State &s, E p, E v, bool atomic = false);
    void fill(State &s, E p, E byte, E len); void copy(State &s, E d, E src, E len, bool move); void foot(State &s, uint32_t slot, E off, uint64_t n, bool wr, bool at, E guard); const Obj *lookupSlot(State &s, uint32_t slot);
    bool enumVals(State &s, E e, size_t max, vector<uint64_t> &vals);
    E allocObj(State &s, E size, OKind k, uint8_t akind, const Pos &p, uint32_t sub); void freeObj(State &s, E p, int kind);
    // execution
    int cur = 0; bool inModel = false; Ref<Foot> footCur;  const Ins *curIns = nullptr;
    Frame *top(State &s) { return s.th[cur].fr.back().mut(); }
    E val(Frame *f, const Opnd &o, int i = 0) { if (o.reg < 0) return o.cs[i]; E e = f->regs[o.reg + i]; if (!e) { e = cx.c(0, 1); throw Unsupported{"read of an undefined register in " + f->fn->name}; } return e; }
    Pos threadPos(const State &s, int t); void framePos(const Frame *f, Pos &p); vector<Pos> nodeKey(const State &s);
    void pushFrame(State &s, int t, Fn *f, const vector<E> &args); void jump(State &s, Frame *f, int to); Event run(State &s, vector<State> &forks, vector<State> &outs);
    Event doCall(State &s, Frame *f, const Ins &in, vector<State> &forks, vector<State> &outs); Event enter(State &s, Frame *f, const Ins &in, Fn *callee, vector<State> &forks, vector<State> &outs);
    Event handler(State &s, Frame *f, const Ins &in, Fn *callee, vector<State> &forks, vector<State> &outs); void retTo(State &s, Frame *f, const Ins &in, const vector<E> &v);
    Event doRet(State &s, Frame *f, const Ins &in); Event raise(State &s, uint64_t exc); void popFrame(State &s, int t);
    bool tiMatch(uint64_t thrown, uint64_t want, int64_t &off);
    void segment(State init, int t, vector<State> &out); bool merge(State &a, State &b); bool mergeObj(Obj *a, const Obj *b, E d);
    E mergeE(E d, E x, E y) { if (x == y) return x; if (!x) return y; if (!y) return x; return cx.ite(d, x, y); }
    E enabled(State &s, int t, int &idle); bool threadIdle(State &s, int t, int &idle); void explore(State s0); void compact(State &s); void mapState(State &s, const std::function<E(E)> &fn); std::shared_ptr<Model> reconstruct(std::shared_ptr<Model> m, const vector<std::pair<int, E>> &recs); E rebuild(E e, std::unordered_map<E, E> &memo); void support(E e, std::unordered_set<E> &seen, std::set<E> &vars);
    vector<Rec> recs; uint64_t nCompact = 0, nCompactFail = 0, nCases = 0, maxCases = 0, nMrgVar = 0; vector<char> varIsH; void finish(State &s);
    void violation(State &s, E bad, const string &kind, const string &msg); bool require(State &s, E ok, const string &kind, const string &msg);
    string where(State &s); E freshAt(State &s, const char *kind, unsigned w, int sub = 0); string cstr(State &s, E p); void checkTime();
    Event syncPoint(State &s, Frame *f, const Ins &in, int kind, E en, vector<State> &forks, vector<State> &outs, bool &proceed);
    void raceCheck(State &s, const vector<std::pair<Ref<Foot>, E>> &prev, const Foot &f); void hbAtomic(State &s, const Ins &in); void hbRec(State &s, E addr, int kind); string accDesc(const Access &a);
    E objWord(State &s, E p); Event fin(State &s, const Ins &in, const vector<E> &v); bool mergeable(const State &a, const State &b); typedef std::map<std::pair<vector<uint8_t>, Pos>, vector<State>> WorkList; void push(WorkList &wl, State &&s);

    bool runGuide(std::shared_ptr<Model> m, const string &label, vector<Ev> &trace); State initial(); void main(); void writeResult(const string &status, const string &why);
    struct LS { bool init = false, wr = false, allAt = true; uint64_t tids = 0; vector<uint64_t> locks; uint32_t n = 0; };
    int racePhase = 0; std::unordered_map<uint32_t, std::map<uint64_t, LS>> lockset; std::unordered_map<uint32_t, std::set<uint64_t>> suspects; uint64_t nLocs = 0, nSuspect = 0; void lockAcc(State &s, uint32_t slot, E off, uint64_t n, bool wr, bool at); void findSuspects();
    State init0; bool haveInit = false; std::map<string, uint64_t> kindCount; string stopWhy; bool running1 = false; std::set<uint64_t> raceSites; vector<Violation> races; uint64_t maxLive = 0, nEnds = 0; vector<Ev> endTrace; string guideWant; uint32_t ctorSeq = 0; const PC *rootPc = nullptr;
};
} // namespace rsx
