// Abstract interpreter over LLVM IR (clang -O0 + sroa) of the library.
#pragma once
#include "store.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <set>
#include <unordered_map>

using namespace llvm;
typedef const llvm::Value* VP;

enum VK : uint8_t { VUndef, VInt, VPtr, VFn, VSlot, VAgg, VOpq };
struct Val {
    VK k = VUndef;
    int reg = 0;               // VPtr: region; VSlot: region of the object
    Lin e;                     // VInt: value; VPtr: byte offset; VSlot: slot index
    const Function* fn = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    static Val I_(const Lin& l) { Val v; v.k = VInt; v.e = l; return v; }
    static Val P(int r, const Lin& o = Lin(0)) { Val v; v.k = VPtr; v.reg = r; v.e = o; return v; }
    static Val F(const Function* f) { Val v; v.k = VFn; v.fn = f; return v; }
    static Val Opq() { Val v; v.k = VOpq; return v; }
    static Val Null() { return P(0, 0); }
    bool isNull() const { return k == VPtr && reg == 0 && e.isConst() && e.c == 0; }
};

enum RK : uint8_t { RNull, RAlloca, RHeap, RGlobal, RForeign, RForeignVT, RInput, RStr, ROpaque, RFile };
struct Cell { int w = 0; Val v; bool disc = false; };
struct Str { Lin len; int buf = 0; };
struct Region {
    RK kind = ROpaque;
    Lin size;
    bool live = true;
    bool weak = false;         // absent cells are initialised with unknown data
    bool buf = false;          // raw data buffer: contents are not tracked across merges
    int alloc = 0;             // 1 new, 2 new[], 3 malloc
    const Instruction* site = nullptr;
    const GlobalVariable* gv = nullptr;
    std::string cls;           // class of a foreign object / label
    std::map<long, Cell> cells;
    std::vector<std::pair<Lin, Cell>> sym;
    std::map<long, Str> strs;  // std::string / std::vector objects living here
    std::map<std::string, Lin> g;
    std::map<std::string, int> gi;
    int link = 0;              // associated region (e.g. stream of an input buffer)
};
typedef std::map<VP, Val> Env;
struct Trace { std::shared_ptr<Trace> prev; const Instruction* at; std::string note; int depth; ~Trace() {
    // iterative release of long chains
    auto p = std::move(prev);
    while (p && p.use_count() == 1) { auto q = std::move(p->prev); p = std::move(q); }
} };

struct MemoKey {
    int op; Lin a; long b;
    bool operator<(const MemoKey& o) const {
        if (op != o.op) return op < o.op;
        if (b != o.b) return b < o.b;
        return a < o.a;
    }
    bool operator==(const MemoKey& o) const { return op == o.op && b == o.b && a == o.a; }
};
struct State {
    Num n;
    Cow<std::map<int, std::shared_ptr<Region>>> mem;
    std::vector<Cow<Env>> fr;
    std::vector<Val> roots;
    Cow<std::map<MemoKey, Lin>> memo;
    std::map<std::string, Lin> g;      // harness ghosts
    std::map<std::string, int> gi;
    std::shared_ptr<Trace> tr;
    const Region& R(int r) const { return *mem.r().at(r); }
    bool has(int r) const { return mem.r().count(r) != 0; }
    Region& W(int r) {
        auto& m = mem.w();
        auto it = m.find(r);
        if (it->second.use_count() > 1) it->second = std::make_shared<Region>(*it->second);
        return *it->second;
    }
    int add(Region&& r);
    Env& env() { return fr.back().w(); }
};
typedef std::vector<State> States;
struct Out { State s; Val v; };
typedef std::vector<Out> Outs;

// description of derived symbols (bit operations etc.), for exactness rules
struct SymDef { int op = 0; Lin a; long b = 0; };
extern std::map<int, SymDef> g_def;
enum { M_ZEXT = 1, M_TRUNC, M_AND, M_DIV, M_REM, M_SHR, M_OR, M_XOR, M_WRAP, M_MUL, M_BYTE, M_URANGE, M_ELEM };

struct FnInfo {
    DominatorTree dt;
    LoopInfo li;
    std::vector<const BasicBlock*> rpo;
    std::map<const BasicBlock*, int> idx;
    std::map<const BasicBlock*, std::set<VP>> livein;
    std::map<VP, int> order;
};

struct Alarm { std::string rule, file, func, msg, stack; int line; };
struct Incomplete { std::string why; };

struct Engine {
    Module& M;
    const DataLayout& DL;
    std::map<const Function*, std::unique_ptr<FnInfo>> info;
    std::map<const Function*, std::string> dname;
    int quiet = 0;
    std::vector<std::pair<const Function*, const Instruction*>> stack;
    std::map<std::string, Alarm> alarms;
    std::map<std::string, std::set<std::string>> obligations; // rule -> distinct obligation points
    std::set<const Function*> visitedFns;
    std::set<std::string> opaque;
    std::map<std::string, std::set<std::string>> facts;       // free-form collected facts
    std::set<std::pair<std::string, long>> discrete;          // (struct, offset) of enum/bool members
    std::map<std::string, std::map<std::string, long>> members;
    long steps = 0, maxSteps = 0, merges = 0, stateCount = 0;
    size_t K = 4, KR = 4;
    time_t deadline = 0;
    bool verbose = false;
    std::map<const GlobalVariable*, int> globalReg;
    std::string curOp;

    Engine(Module& m);
    const std::string& name(const Function* f);
    FnInfo& fi(const Function* f);
    // reporting
    void alarm(const std::string& rule, const Instruction* at, const std::string& msg, const State* s = nullptr);
    void oblige(const std::string& rule, const Instruction* at, const std::string& what = "");
    std::string loc(const Instruction* i, std::string* file = nullptr, int* line = nullptr);
    // interpretation
    Outs call(const Function* f, State s, std::vector<Val> args, const Instruction* site);
    void execBlock(const Function* f, const BasicBlock* b, State s,
                   std::vector<std::tuple<const BasicBlock*, State>>& succ, Outs& rets);
    struct ScopeRes { std::vector<std::pair<const BasicBlock*, State>> exits; States backs; Outs rets; };
    ScopeRes runScope(const Function* f, Loop* L, const BasicBlock* start, States init);
    ScopeRes runLoop(const Function* f, Loop* L, States init);
    Val eval(State& s, VP v);
    Outs doCall(const CallBase* cb, State s);
    Outs doInvoke(State s, const Val& callee, std::vector<Val> args, const CallBase* cb);
    bool contract(const Function* f, const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out);
    bool model(const Function* f, const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out);
    bool stdModel(const Function* f, const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out);
    Outs foreignCall(State s, int obj, int slot, std::vector<Val>& a, const CallBase* cb);
    // arithmetic helpers
    typedef std::vector<std::pair<State, Lin>> Vals;
    Vals binop(State s, const Instruction* i, unsigned op, const Val& a, const Val& b, unsigned w, bool nsw);
    std::vector<std::pair<bool, State>> cmp(State s, unsigned pred, const Val& a, const Val& b, unsigned w, const Instruction* at);
    Lin freshInt(unsigned w, const std::string& n);
    Val freshOf(State& s, Type* t, const std::string& n);
    bool range(State& s, const Lin& e, I l, I h); // entails l<=e<=h
    Vals split(State s, const Lin& e, I at);      // e < at  /  e >= at
    Lin memoSym(State& s, int op, const Lin& a, long b, I lo, I hi, const std::string& n, bool* isNew = nullptr);
    // memory
    int newRegion(State& s, RK k, const Lin& size, const std::string& cls = "");
    bool checkAccess(State& s, const Val& p, const Lin& width, const Instruction* at, bool write, const std::string& what = "");
    Val load(State& s, const Val& p, Type* t, const Instruction* at);
    void store(State& s, const Val& p, const Val& v, int w, const Instruction* at, bool disc);
    void havocRange(State& s, const Val& p, const Lin& len);
    // Heap buffers remember which prefix has been written ("init") and, when
    // all of it is consecutive data of one source, the position in the source
    // of its first byte ("tag").
    // Results of calls at this depth are reused for every input they cover.
    int loopDepth = 0;          // loops being executed, over all frames
    bool keepDry = false;       // (interp.cpp: dryEnter)
    void markDry(State& t) { if (loopDepth || keepDry) t.gi["dry"] = 1 | (t.gi.count("dry") ? t.gi["dry"] : 0); }
    size_t sumDepth = 0, sumRoom = 3;
    struct Sum { State in; std::vector<Val> args; Outs outs; int n = 0; bool done = false, said = false; };
    std::map<std::string, std::vector<Sum>> sums;
    void forgetResults() { for (auto& p : sums) for (auto& x : p.second) { x.done = x.said = false; x.outs.clear(); } }
    Outs body(const Function* f, State s, std::vector<Val> args, const Instruction* site);
    bool keepDiv = true, content = false;
    long posOff = -1;
    void wrote(State& s, const Val& p, const Lin& len, const Lin* tag = nullptr);
    void copied(State& s, const Val& d, const Val& src, const Lin& len);
    void copyRange(State& s, const Val& d, const Val& src, const Lin& len, const Instruction* at);
    bool freeRegion(State& s, const Val& p, int how, const Instruction* at);
    Lin cstrlen(State& s, const Val& p, const Instruction* at, bool& ok);
    int regionOfGlobal(State& s, const GlobalVariable* g);
    Str& str(State& s, const Val& p, const Instruction* at);
    Val strbuf(State& s, const Val& p, const Instruction* at);
    void strset(State& s, const Val& p, const Lin& len, const Instruction* at);
    // abstract domain
    struct Canon { std::string sig; std::vector<int> regs; std::vector<Lin> slots; };
    Canon canon(const State& s, const std::vector<Val>& extra);
    template <class SP, class F> void walk(SP& s, std::vector<Val>& extra, F f, std::vector<int>& regs, std::string* sig);
    State join(const State& a, const State& b, std::vector<Val>& ea, std::vector<Val>& eb, int widen);
    bool leq(State& a, State& b, std::vector<Val>& ea, std::vector<Val>& eb);
    void gc(State& s, std::vector<Val>& extra, const Instruction* at, bool leaks);
    void mergeStates(States& v, size_t room = 1);
    void mergeOuts(Outs& v, size_t room = 1);
    void pruneEnv(State& s, const Function* f, const BasicBlock* b);
    void project(State& s, const std::vector<Val>& extra);
    // harness
    long off(const std::string& cls, const std::string& member);
    const Function* findFn(const std::string& demangledPrefix, bool must = true);
    int mkForeign(State& s, const std::string& cls, int status);
    bool isForeignStream(const State& s, int r) { return s.R(r).cls == "stream" || s.R(r).cls == "decoder"; }
    // Streams made by providers are used through their contract.
    bool decoders = false;
    bool mkDecoder(const std::string& n, State& s, std::vector<Val>& a, const CallBase* cb, Outs& out);
    States anyUse(const State& s, const Val& stream, const CallBase* cb, bool below = false);
    void foreignSetStatus(State& s, int r, int st);
    void tick();
};
bool isStdName(const std::string& mangled);
void loadDebugInfo(Engine& E);
std::string stripStruct(StringRef n);
extern Engine* g_E;
inline int widenLevel(int visits) { return visits < 3 ? 0 : visits < 5 ? 1 : visits < 9 ? 2 : 3; }
