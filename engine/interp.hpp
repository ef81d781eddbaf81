// Abstract interpreter over the bytecode: interprocedural constant propagation decides control flow and addresses,
// value numbering (dom.hpp) describes data, and every access, branch, call and return is checked on the way.
#pragma once
#include "bc.hpp"
#include <set>
#include <unordered_set>

struct U128H { size_t operator()(u128 x) const { return (size_t)(x ^ (x >> 64)); } };
typedef std::unordered_set<u128, U128H> IdSet;

struct Finding { std::string cls, msg, where, func; u64 count; };

enum RK : u8 { R_GLOBAL, R_STACK, R_HEAP, R_IN, R_OUT, R_HANDLE, R_FUNC };
struct Region {
    std::string name; u64 size; u32 align; u8 kind; bool alive, ro; u32 ownerFn; Cell *c; u32 *wr; u8 *fl; u32 aux; u64 aux2; bool everSecret;
};
enum Run : int { RUN_OK = 0, RUN_ABORT = 1, RUN_STUCK = 2, RUN_STOPBLK = 3 };

struct Interp;
struct Call { const CallInfo *ci; V *args; std::vector<V> a; V ret; u32 loc; int nargs; };
typedef std::function<int(Interp &, Call &)> Hook;      // RUN_OK / RUN_ABORT / RUN_STUCK; -1: not handled, interpret the body

struct EvpCtx { int state; u32 region; Cell key[16]; bool cipherSet; };   // state 0 new,1 init,2 freed

struct Interp {
    Module &m;
    std::vector<Region> regs;                // memory regions
    std::vector<u32> globalRegion, funcRegion;
    std::vector<V> pool;
    std::vector<Finding> findings; std::map<std::string, size_t> fidx;
    std::map<std::string, Hook> hooks;
    std::vector<Hook *> hookOf;              // per function
    std::vector<V> stack; size_t sp = 0;
    u64 steps = 0, stepLimit = 20000000000ull, nLoads = 0, nStores = 0, nBranches = 0, nCalls = 0, nForks = 0, nFrames = 0;
    int depth = 0, forkDepth = 0;
    std::vector<u8> reached;                 // functions entered
    std::vector<std::string> fnStack;
    std::set<std::string> hooked;
    u32 uninitCtr = 0;
    bool ptrOrder = false, ctCheck = true, eraseCheck = false, trackFlags = false, stopOnUnsup = true;
    const IdSet *secretSet = nullptr;
    IdSet condSecret;                            // identities of words that are a secret word under some condition

    std::function<bool(const std::string &)> eraseExempt;
    std::function<bool(const std::string &)> ctExempt;      // functions whose operands are public by contract
    std::set<u32> writtenGlobals;
    std::string apiName;
    u32 curLoc = 0;
    std::map<std::pair<u32, u32>, Cell> pendingErase;       // (region, offset) -> secret overwritten by a removable store
    // random source
    u32 randStream = 0; u64 randPos = 0, randMax = 0; int randCalls = 0, randFailAt = -1; u64 randFailRc = 1; bool randFailed = false; std::vector<std::pair<u64,u32>> randDraws;
    // EVP
    std::vector<EvpCtx> evp; int evpEvents = 0, evpFailAt = -1; bool evpFailed = false; std::string evpFailWhat; u64 evpFailRc = 0; int evpLive = 0; std::vector<u32> evpLocs;
    struct JEnt { u32 r; u64 off; Cell c; u32 wr; u8 fl; };
    std::vector<JEnt> journal; bool journaling = false;
    struct PtrX { u32 region; i64 off; std::vector<std::pair<V, i64>> terms; };
    std::vector<PtrX> ptrx;

    Interp(Module &mm);
    ~Interp();
    u64 stackNow = 0, stackPeak = 0; std::string peakAt; u32 peakLoc = 0;      // bytes of local variables on the call chain
    u32 newRegion(const std::string &name, u64 size, u32 align, u8 kind, u32 ownerFn);
    void killRegion(u32 r);
    void report(const std::string &cls, const std::string &msg, u32 loc);
    std::string where(u32 loc) const;
    std::string funcOf(u32 loc) const { return m.strs[m.locs[loc].func]; }
    int call(int fn, V *args, std::vector<V> &ret, u32 loc);
    int callByName(const std::string &name, std::vector<V> args, V &ret, bool &found);
    bool readBytes(const V &p, u64 n, Cell *out, u32 align, u32 loc, const char *what);
    bool writeBytes(const V &p, u64 n, const Cell *in, u32 align, u32 loc, bool vol, const char *what);
    bool resolve(const V &p, u64 n, u32 &r, i64 &off, u32 loc, bool write, const char *what);
    u64 lenArg(const V &v, u32 loc, bool &ok, const char *what);
    void stdHooks();
    // frame execution
    struct Frame { Func *f; size_t base; std::vector<u32> allocas; std::map<u32, u64> sizes; };
    int runFrom(Frame &fr, u32 blk, int stopBlk, std::vector<V> &ret, u32 startPc = ~0u);
    void probe(Frame &fr, u32 blk, u32 pc, const Ins &in, u64 badv);
    struct Esc { int first, last; u64 count, badv; }; bool evpProbe = false; u64 probes = 0, probesAborted = 0; std::map<std::pair<u32, std::string>, Esc> probeEscapes;
    int forkJoin(Frame &fr, u32 blk, const V &cond, u32 tb, u32 te, u32 fb, u32 fe, std::vector<V> &ret, u32 &next, int outerStop);
    V load(const V &p, unsigned w, unsigned lanes, V *out, const Ins &in);
    void arith(const Ins &in, const V &x, const V &y, const V &r); u64 nArith = 0; std::set<u32> arithBad;
    void frameExit(Frame &fr);
    bool secretByte(const Cell &c);
    void scanErase(u32 r, const std::string &fn, const char *when);
    void flushPending(u32 r, const std::string &fn);
    inline const V &val(size_t base, int o, unsigned lane = 0) const { return o >= 0 ? stack[base + (size_t)o + lane] : pool[(size_t)(~o) + lane]; }
    void gcRoots();
    u64 lastGC = 0; bool noGC = false;
};
