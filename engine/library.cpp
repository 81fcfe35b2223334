// Rules on the library as a whole: they look at every function of the library's
// own sources, whether or not a unit reaches it.
#include "interp.h"
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>

using namespace llvm;

namespace {
bool ownFile(const DIFile* f) {
    if (!f) return false;
    std::string p = f->getFilename().str();
    if (p.empty() || p[0] != '/') p = f->getDirectory().str() + "/" + p;
    return p.find("/lib/") != std::string::npos || p.find("/include/strigi/") != std::string::npos
        ? p.find("/usr/") != 0 && p.find("harness_tu") == std::string::npos : false;
}
bool own(const Function& F) { auto* sp = F.getSubprogram(); return sp && !F.isDeclaration() && ownFile(sp->getFile()); }

struct Rules {
    Engine& E; Module& M;
    Rules(Engine& e) : E(e), M(e.M) {}
    void oblige(const char* rule, const std::string& what) { E.obligations[rule].insert(what); }
    void alarm(const char* rule, const Function* F, const Instruction* I, const std::string& msg, const DIFile* file = nullptr, int line = 0) {
        Alarm a; a.rule = rule; a.msg = msg;
        a.func = F ? E.name(F) : "";
        a.line = line;
        if (I && I->getDebugLoc()) {
            const DILocation* l = I->getDebugLoc().get();
            while (l->getInlinedAt()) l = l->getInlinedAt();
            a.line = l->getLine(); file = l->getFile();
        } else if (F && F->getSubprogram()) { file = F->getSubprogram()->getFile(); a.line = F->getSubprogram()->getLine(); }
        if (file) { a.file = file->getFilename().str(); if (a.file.empty() || a.file[0] != '/') a.file = file->getDirectory().str() + "/" + a.file; }
        a.stack = a.func;
        E.alarms[a.rule + a.file + std::to_string(a.line) + a.msg] = a;
    }

    const Value* root(const Value* v) {
        for (;;) {
            v = v->stripPointerCasts();
            if (auto* g = dyn_cast<GetElementPtrInst>(v)) { if (!g->hasAllConstantIndices()) return v; v = g->getPointerOperand(); continue; }
            return v;
        }
    }
    // ---- M01: no state is shared behind the client's back ----
    std::map<const Function*, std::unique_ptr<std::pair<DominatorTree, PostDominatorTree>>> trees;
    std::pair<DominatorTree, PostDominatorTree>& tree(const Function* F) {
        auto& t = trees[F];
        if (!t) { t = std::make_unique<std::pair<DominatorTree, PostDominatorTree>>(); t->first.recalculate(*const_cast<Function*>(F)); t->second.recalculate(*const_cast<Function*>(F)); }
        return *t;
    }
    // executed once, before anybody can use the library or under the compiler's lock
    bool initialising(const Instruction* I) {
        const Function* F = I->getFunction();
        StringRef n = F->getName();
        if (n.starts_with("__cxx_global_var_init") || n.starts_with("_GLOBAL__sub_I_") || n.starts_with("_GLOBAL__I_")) return true;
        const Instruction *acq = nullptr, *rel = nullptr;
        auto& t = tree(F);
        for (auto& J : instructions(F))
            if (auto* c = dyn_cast<CallBase>(&J))
                if (auto* g = c->getCalledFunction()) {
                    if (g->getName() == "__cxa_guard_acquire" && t.first.dominates(c, I)) acq = c;
                    if (g->getName() == "__cxa_guard_release" && acq && t.second.dominates(c->getParent(), I->getParent()) && !t.first.dominates(c, I)) rel = c;
                }
        return acq && rel;
    }
    bool constType(const DIType* t) {
        while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
            if (d->getTag() == dwarf::DW_TAG_const_type) return true;
            if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_volatile_type || d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_variable) { t = d->getBaseType(); continue; }
            return false;
        }
        if (auto* c = dyn_cast_or_null<DICompositeType>(t)) {
            if (c->getTag() == dwarf::DW_TAG_array_type) return constType(c->getBaseType());
            std::string n = c->getName().str();
            if (n.compare(0, 6, "atomic") == 0 || n == "mutex" || n == "once_flag" || n == "recursive_mutex" || n == "shared_mutex") return true;
        }
        return false;
    }
    bool addressTaken(const Function& F) {
        std::function<bool(const Value*)> f = [&](const Value* v) {
            for (auto* u : v->users()) {
                if (auto* cb = dyn_cast<CallBase>(u)) { if (cb->getCalledOperand() != v) return true; for (auto& a : cb->args()) if (a == v) return true; continue; }
                if (isa<Instruction>(u)) return true;
                if (auto* g = dyn_cast<GlobalVariable>(u)) { if (!g->getName().starts_with("_ZTV") && !g->getName().starts_with("_ZTC")) return true; continue; }
                if (f(u)) return true;
            }
            return false;
        };
        return f(&F);
    }
    std::set<std::pair<const Value*, int>> done;
    // every way in which the object behind V is written to
    void writes(const Value* V, const std::string& what, int depth) {
        if (!done.insert({V, 0}).second) return;
        for (auto* U : V->users()) {
            if (auto* ce = dyn_cast<ConstantExpr>(U)) { writes(ce, what, depth); continue; }
            if (isa<Constant>(U)) continue; // a table that mentions the object
            auto* I = dyn_cast<Instruction>(U);
            if (!I) continue;
            if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { writes(I, what, depth); continue; }
            if (auto* st = dyn_cast<StoreInst>(I)) {
                if (st->getPointerOperand() == V) { if (!st->isAtomic() && !initialising(I)) alarm("M01", I->getFunction(), I, "writes to " + what + ", which all users of the library share"); }
                else if (!initialising(I)) {
                    // the address is kept: what is done with it later is followed through local variables only
                    if (auto* al = dyn_cast<AllocaInst>(st->getPointerOperand()->stripPointerCasts()))
                        for (auto* L : al->users()) if (isa<LoadInst>(L)) writes(L, what, depth);
                }
                continue;
            }
            if (auto* cb = dyn_cast<CallBase>(I)) {
                if (auto* mi = dyn_cast<MemIntrinsic>(cb)) { if (mi->getRawDest() == V && !initialising(I)) alarm("M01", I->getFunction(), I, "writes to " + what + ", which all users of the library share"); continue; }
                const Function* g = cb->getCalledFunction();
                if (g && g->isIntrinsic()) continue;
                if (initialising(I)) continue;
                if (!g) {
                    if (cb->getCalledOperand() == V || cb->isInlineAsm()) continue;
                    // any function of this type whose address is taken outside the tables of virtual functions
                    bool virt = false;
                    if (auto* l = dyn_cast<LoadInst>(cb->getCalledOperand())) {
                        const Value* q = l->getPointerOperand();
                        if (auto* ge = dyn_cast<GetElementPtrInst>(q)) q = ge->getPointerOperand();
                        if (auto* vl = dyn_cast<LoadInst>(q)) virt = root(vl->getPointerOperand()) == root(V);
                    }
                    if (virt) { alarm("M01", I->getFunction(), I, "calls a virtual function of " + what + ", which all users of the library share"); continue; }
                    for (auto& F : M)
                        if (!F.isDeclaration() && F.getFunctionType() == cb->getFunctionType() && addressTaken(F))
                            for (unsigned k = 0; k < cb->arg_size(); ++k)
                                if (cb->getArgOperand(k) == V && depth < 6) writes(F.getArg(k), what, depth + 1);
                    continue;
                }
                StringRef gn = g->getName();
                if (gn.starts_with("__cxa_")) continue;
                std::string dn = E.name(g);
                for (unsigned k = 0; k < cb->arg_size(); ++k) {
                    if (cb->getArgOperand(k) != V) continue;
                    bool sret = cb->paramHasAttr(0, Attribute::StructRet);
                    if (k == (sret ? 1u : 0u) && dn.size() > 6 && dn.compare(dn.size() - 6, 6, " const") == 0) continue;
                    if (cb->paramHasAttr(k, Attribute::ReadOnly) || cb->paramHasAttr(k, Attribute::ReadNone)) continue;
                    if (!g->isDeclaration() && depth < 6 && k < g->arg_size()) { writes(g->getArg(k), what, depth + 1); continue; }
                    static const std::set<std::string> reads{"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr", "strstr", "strcasestr", "strspn", "strcspn", "atoi", "atol", "memchr", "fopen", "open", "stat", "fprintf", "execve", "execvp"};
                    if (reads.count(gn.str()) || (k > 0 && (gn == "memcpy" || gn == "memmove" || gn == "strcpy" || gn == "strncpy" || gn == "snprintf" || gn == "strcat"))) continue;
                    // a library function without body: trust the constness that its name shows
                    if (g->isDeclaration()) {
                        size_t lp = dn.find('(');
                        std::vector<std::string> ar; int d = 0; std::string cur;
                        for (size_t i = lp == std::string::npos ? dn.size() : lp + 1; i < dn.size(); ++i) {
                            if (dn[i] == '<' || dn[i] == '(') ++d; else if (dn[i] == '>' || dn[i] == ')') { if (dn[i] == ')' && d == 0) break; --d; }
                            if (dn[i] == ',' && d == 0) { ar.push_back(cur); cur.clear(); } else cur += dn[i];
                        }
                        ar.push_back(cur);
                        int idx = (int)k - (int)(cb->arg_size() - ar.size());
                        if (idx >= 0 && idx < (int)ar.size() && ar[idx].find("const") != std::string::npos) continue;
                    }
                    alarm("M01", I->getFunction(), I, "hands " + what + ", which all users of the library share, to code that can change it (" + dn.substr(0, dn.find('(')) + ")");
                }
                continue;
            }
            if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) continue;
        }
    }
    void shared() {
        for (auto& G : M.globals()) {
            if (G.isConstant() || G.isDeclaration() || G.isThreadLocal()) continue;
            SmallVector<DIGlobalVariableExpression*, 2> ds; G.getDebugInfo(ds);
            if (ds.empty() || !ownFile(ds[0]->getVariable()->getFile())) continue;
            auto* dv = ds[0]->getVariable();
            std::string n = dv->getName().str();
            oblige("M01", "variable " + n + " (" + dv->getFile()->getFilename().str() + ")");
            // what a shared pointer points to is shared as well
            const DIType* ty = dv->getType();
            while (auto* d = dyn_cast_or_null<DIDerivedType>(ty)) {
                if (d->getTag() != dwarf::DW_TAG_const_type && d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_volatile_type) break;
                ty = d->getBaseType();
            }
            if (auto* d = dyn_cast_or_null<DIDerivedType>(ty))
                if ((d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) && !constType(d->getBaseType()) && !isa_and_nonnull<DISubroutineType>(d->getBaseType()))
                    for (auto* u : G.users()) if (isa<LoadInst>(u)) writes(u, "what '" + n + "' points to", 0);
            if (constType(dv->getType())) continue;
            writes(&G, "'" + n + "'", 0);
        }
        // variables of libc that stand for the state of the process
        static const std::set<std::string> unsafe{"localtime", "gmtime", "ctime", "asctime", "strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "srand48",
            "tmpnam", "getpwnam", "getpwuid", "getgrnam", "getgrgid", "gethostbyname", "getservbyname", "dirname", "basename", "ttyname", "getlogin", "crypt", "ecvt", "fcvt", "gcvt", "l64a",
            "inet_ntoa", "hcreate", "hsearch", "hdestroy", "localeconv", "nl_langinfo", "mblen", "mbtowc", "wctomb", "getopt", "getopt_long", "strsignal", "ptsname", "readdir_unlocked",
            "getc_unlocked", "putc_unlocked", "fgetc_unlocked", "getenv_unlocked", "lgamma", "setkey", "encrypt", "getdate", "getmntent", "getutent", "twalk_unlocked"};
        for (auto& F : M) {
            if (!own(F)) continue;
            oblige("M01", "function " + E.name(&F));
            for (auto& I : instructions(F))
                if (auto* cb = dyn_cast<CallBase>(&I))
                    if (auto* g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()))
                        if (g->isDeclaration() && unsafe.count(g->getName().str()))
                            alarm("M01", &F, &I, "calls " + g->getName().str() + "(), which keeps its result in memory that all threads share");
        }
    }

    // ---- call graph: direct calls, and virtual calls on the object itself ----
    std::map<std::string, std::set<std::string>> derived; // class identifier -> itself and everything derived from it
    std::map<std::string, const GlobalVariable*> vtables;
    // the class as the compiler spells it; identifiers are not always recorded
    std::string ident(const DICompositeType* c) {
        std::string n = c->getName().str();
        for (auto* s = c->getScope(); s; s = s->getScope()) {
            if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
            std::string m = s->getName().str();
            n = (m.empty() ? "(anonymous namespace)" : m) + "::" + n;
        }
        return n;
    }
    void classes() {
        DebugInfoFinder f; f.processModule(M);
        std::map<std::string, std::set<std::string>> bases;
        for (auto* t : f.types())
            if (auto* c = dyn_cast<DICompositeType>(t)) {
                std::string id = ident(c);
                if (c->getName().empty()) continue;
                derived[id].insert(id);
                for (auto* e : c->getElements())
                    if (auto* d = dyn_cast_or_null<DIDerivedType>(e))
                        if (d->getTag() == dwarf::DW_TAG_inheritance)
                            if (auto* b = dyn_cast_or_null<DICompositeType>(d->getBaseType())) bases[id].insert(ident(b));
            }
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& p : bases) for (auto& b : p.second) for (auto& d : std::set<std::string>(derived[p.first])) ch |= derived[b].insert(d).second;
        }
        for (auto& G : M.globals()) if (G.getName().starts_with("_ZTV") && G.hasInitializer()) { std::string d = demangle(G.getName().str()); if (d.compare(0, 11, "vtable for ") == 0) vtables[d.substr(11)] = &G; };
    }
    std::string classOf(const Function* F) {
        auto* sp = F->getSubprogram();
        if (!sp) return "";
        if (sp->getDeclaration()) sp = sp->getDeclaration();
        auto* c = dyn_cast_or_null<DICompositeType>(sp->getScope());
        return c ? ident(c) : "";
    }
    std::vector<const Function*> callees(const Function* F, const CallBase* cb) {
        std::vector<const Function*> r;
        if (auto* g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { r.push_back(g); return r; }
        if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) { if (auto* g = dyn_cast<Function>(ga->getAliaseeObject())) r.push_back(g); return r; }
        auto* l = dyn_cast<LoadInst>(cb->getCalledOperand());
        if (!l) return r;
        int64_t slot = 0;
        const Value* p = l->getPointerOperand();
        if (auto* g = dyn_cast<GetElementPtrInst>(p)) {
            auto* c = g->getNumIndices() == 1 ? dyn_cast<ConstantInt>(g->getOperand(1)) : nullptr;
            if (!c) return r;
            slot = c->getSExtValue(); p = g->getPointerOperand();
        }
        auto* vl = dyn_cast<LoadInst>(p);
        if (!vl || F->arg_empty()) return r;
        unsigned self = F->hasParamAttribute(0, Attribute::StructRet) ? 1 : 0;
        if (self >= F->arg_size() || root(vl->getPointerOperand()) != F->getArg(self)) return r;
        std::string c = classOf(F);
        if (c.empty()) return r;
        for (auto& d : derived[c]) {
            auto it = vtables.find(d);
            if (it == vtables.end()) continue;
            auto* init = dyn_cast<ConstantStruct>(it->second->getInitializer());
            if (!init || init->getNumOperands() < 1) continue;
            auto* arr = dyn_cast<ConstantArray>(init->getOperand(0));
            if (!arr || slot + 2 >= (int64_t)arr->getNumOperands() || slot < 0) continue;
            const Value* v = arr->getOperand(slot + 2)->stripPointerCasts();
            if (auto* ga = dyn_cast<GlobalAlias>(v)) v = ga->getAliaseeObject();
            if (auto* g = dyn_cast<Function>(v)) r.push_back(g);
        }
        return r;
    }
    // ---- M02: the call stack does not grow with the input ----
    void recursion() {
        classes();
        std::map<const Function*, std::vector<std::pair<const Function*, const Instruction*>>> cg;
        for (auto& F : M) {
            if (!own(F)) continue;
            oblige("M02", E.name(&F));
            for (auto& I : instructions(F))
                if (auto* cb = dyn_cast<CallBase>(&I))
                    for (auto* g : callees(&F, cb)) if (own(*g)) cg[&F].push_back({g, &I});
        }
        // strongly connected components
        std::map<const Function*, int> idx, low; std::vector<const Function*> st; std::set<const Function*> on; int n = 0;
        std::function<void(const Function*)> go = [&](const Function* f) {
            idx[f] = low[f] = ++n; st.push_back(f); on.insert(f);
            for (auto& e : cg[f]) {
                if (!idx.count(e.first)) { go(e.first); low[f] = std::min(low[f], low[e.first]); }
                else if (on.count(e.first)) low[f] = std::min(low[f], idx[e.first]);
            }
            if (low[f] == idx[f]) {
                std::set<const Function*> c;
                for (;;) { auto* g = st.back(); st.pop_back(); on.erase(g); c.insert(g); if (g == f) break; }
                for (auto* g : c)
                    for (auto& e : cg[g])
                        if (c.count(e.first)) {
                            std::string to = E.name(e.first);
                            alarm("M02", g, e.second, g == e.first ? "calls itself" : "calls " + to.substr(0, to.find('(')) + ", which leads back here");
                        }
            }
        };
        std::vector<const Function*> all; for (auto& p : cg) all.push_back(p.first);
        for (auto* f : all) if (!idx.count(f)) go(f);
    }

    // ---- M03: the process of the client is left alone ----
    std::map<const Function*, int> childOnly; // 1: only ever called in the forked child
    std::set<const BasicBlock*> childBlocks(const Function* F) {
        std::set<const BasicBlock*> r;
        auto& t = tree(F);
        for (auto& I : instructions(F)) {
            auto* cb = dyn_cast<CallBase>(&I);
            auto* g = cb ? cb->getCalledFunction() : nullptr;
            if (!g || (g->getName() != "fork" && g->getName() != "vfork")) continue;
            std::set<const Value*> vals{cb};
            // the result kept in a variable
            for (bool ch = true; ch;) {
                ch = false;
                for (auto* v : std::set<const Value*>(vals))
                    for (auto* u : v->users()) {
                        if (auto* s = dyn_cast<StoreInst>(u)) if (s->getValueOperand() == v)
                            for (auto& J : instructions(F)) if (auto* l = dyn_cast<LoadInst>(&J)) if (same(l->getPointerOperand(), s->getPointerOperand())) ch |= vals.insert(l).second;
                        if (isa<PHINode>(u) || isa<CastInst>(u)) ch |= vals.insert(u).second;
                    }
            }
            for (auto& J : instructions(F)) {
                auto* br = dyn_cast<BranchInst>(&J);
                const BasicBlock* to = nullptr;
                if (br && br->isConditional())
                    if (auto* ic = dyn_cast<ICmpInst>(br->getCondition()))
                        if (vals.count(ic->getOperand(0))) if (auto* c = dyn_cast<ConstantInt>(ic->getOperand(1))) if (c->isZero()) {
                            if (ic->getPredicate() == CmpInst::ICMP_EQ) to = br->getSuccessor(0);
                            if (ic->getPredicate() == CmpInst::ICMP_NE) to = br->getSuccessor(1);
                        }
                const BasicBlock* from = J.getParent();
                if (auto* sw = dyn_cast<SwitchInst>(&J)) if (vals.count(sw->getCondition()))
                    for (auto& c : sw->cases()) if (c.getCaseValue()->isZero()) to = c.getCaseSuccessor();
                if (!to) continue;
                BasicBlockEdge e(from, to);
                for (auto& B : *F) if (t.first.dominates(e, &B)) r.insert(&B);
            }
        }
        return r;
    }
    bool same(const Value* a, const Value* b) {
        a = a->stripPointerCasts(); b = b->stripPointerCasts();
        if (a == b) return true;
        auto *x = dyn_cast<GetElementPtrInst>(a), *y = dyn_cast<GetElementPtrInst>(b);
        if (!x || !y || x->getNumIndices() != y->getNumIndices() || !same(x->getPointerOperand(), y->getPointerOperand())) {
            auto *l = dyn_cast<LoadInst>(a), *k = dyn_cast<LoadInst>(b);
            return l && k && same(l->getPointerOperand(), k->getPointerOperand());
        }
        for (unsigned i = 1; i < x->getNumOperands(); ++i) if (x->getOperand(i) != y->getOperand(i)) return false;
        return true;
    }
    void process() {
        classes();
        std::map<const Function*, std::set<const BasicBlock*>> child;
        std::map<const Function*, std::vector<const CallBase*>> callers;
        std::set<const Function*> taken;
        for (auto& F : M) {
            if (F.isDeclaration()) continue;
            child[&F] = childBlocks(&F);
            for (auto& I : instructions(F)) if (auto* cb = dyn_cast<CallBase>(&I)) for (auto* g : callees(&F, cb)) callers[g].push_back(cb);
            for (auto* u : F.users()) if (!(isa<CallBase>(u) && cast<CallBase>(u)->getCalledOperand() == &F)) taken.insert(&F);
        }
        std::set<const Function*> only;
        for (auto& F : M) if (own(F) && F.hasLocalLinkage() && !taken.count(&F) && callers.count(&F)) only.insert(&F);
        for (auto& F : M) if (own(F) && !F.hasLocalLinkage() && !taken.count(&F) && callers.count(&F)) only.insert(&F);
        for (bool ch = true; ch;) {
            ch = false;
            for (auto it = only.begin(); it != only.end();) {
                bool ok = true;
                for (auto* cb : callers[*it]) if (!only.count(cb->getFunction()) && !child[cb->getFunction()].count(cb->getParent())) ok = false;
                if (!ok) { it = only.erase(it); ch = true; } else ++it;
            }
        }
        static const std::set<std::string> ends{"exit", "_exit", "_Exit", "quick_exit", "abort", "_ZSt9terminatev", "raise", "killpg", "pthread_exit", "pthread_kill"},
            prints{"printf", "puts", "putchar", "vprintf", "putchar_unlocked", "puts_unlocked", "__printf_chk", "perror_stdout"},
            state{"chdir", "fchdir", "setlocale", "signal", "sigaction", "sigprocmask", "sigset", "setenv", "putenv", "unsetenv", "clearenv", "umask", "alarm", "setitimer", "setuid", "setgid", "seteuid", "setegid",
                  "setrlimit", "nice", "setpriority", "freopen", "freopen64", "tcsetattr", "setsid", "setpgid", "mallopt", "atexit", "on_exit", "chroot", "system", "popen", "sync", "unlink", "remove", "rename", "rmdir", "mkdir", "truncate", "ftruncate", "creat",
                  "_ZNSt6locale6globalERKS_", "_ZNSt8ios_base15sync_with_stdioEb", "_ZSt13set_terminatePFvvE", "std::set_new_handler", "dup2", "dup3", "execv", "execve", "execvp", "execl", "execlp", "execle"};
        for (auto& F : M) {
            if (!own(F)) continue;
            oblige("M03", E.name(&F));
            if (only.count(&F)) continue;
            for (auto& I : instructions(F)) {
                if (child[&F].count(I.getParent())) continue;
                for (auto& op : I.operands()) {
                    auto* gv = dyn_cast<GlobalVariable>(op->stripPointerCasts());
                    if (gv && (gv->getName() == "_ZSt4cout" || gv->getName() == "_ZSt5wcout")) alarm("M03", &F, &I, "writes to the standard output of the process");
                    if (gv && gv->getName() == "stdout") alarm("M03", &F, &I, "uses the standard output of the process");
                }
                auto* cb = dyn_cast<CallBase>(&I);
                auto* g = cb ? dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()) : nullptr;
                if (!g || !g->isDeclaration()) continue;
                std::string n = g->getName().str();
                if (ends.count(n)) alarm("M03", &F, &I, "can end the process of the client (" + n + ")");
                else if (prints.count(n)) alarm("M03", &F, &I, "writes to the standard output of the process (" + n + ")");
                else if (state.count(n)) alarm("M03", &F, &I, "changes state that belongs to the whole process or its files (" + n + ")");
                else if (n == "close" || n == "read" || n == "write")
                    if (auto* c = dyn_cast<ConstantInt>(cb->getArgOperand(0))) if (c->getSExtValue() >= 0 && c->getSExtValue() <= 2 && !(n == "write" && c->getSExtValue() == 2)) alarm("M03", &F, &I, "uses a standard descriptor of the process (" + n + ")");
            }
        }
    }
};
}

void runLibrary(Engine& E, const std::string& what) {
    Rules r(E);
    if (what == "lib_shared") r.shared();
    else if (what == "lib_recursion") r.recursion();
    else r.process();
    for (auto& F : E.M) if (own(F)) E.visitedFns.insert(&F);
}
