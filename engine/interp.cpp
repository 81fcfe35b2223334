#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "interp.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include <ctime>

Engine* g_E = nullptr;
std::map<int, SymDef> g_def;

Engine::Engine(Module& m) : M(m), DL(m.getDataLayout()) { g_E = this; }

const std::string& Engine::name(const Function* f) {
    auto it = dname.find(f);
    if (it != dname.end()) return it->second;
    std::string d = llvm::demangle(f->getName().str());
    size_t p = d.find("[abi:cxx11]");
    while (p != std::string::npos) { d.erase(p, 11); p = d.find("[abi:cxx11]"); }
    // normalise the std::string spelling
    static const std::string L = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>";
    static const std::string L2 = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >";
    for (const std::string& l : {L, L2})
        for (p = d.find(l); p != std::string::npos; p = d.find(l)) d.replace(p, l.size(), "std::string");
    return dname[f] = d;
}

static void collectUses(const Instruction* i, std::set<VP>& s) {
    for (auto& op : i->operands())
        if (isa<Instruction>(op) || isa<Argument>(op)) s.insert(op.get());
}

FnInfo& Engine::fi(const Function* f) {
    auto& p = info[f];
    if (p) return *p;
    p = std::make_unique<FnInfo>();
    p->dt.recalculate(*const_cast<Function*>(f));
    p->li.analyze(p->dt);
    ReversePostOrderTraversal<const Function*> R(f);
    for (auto* b : R) { p->idx[b] = (int)p->rpo.size(); p->rpo.push_back(b); }
    // liveness
    bool ch = true;
    std::map<const BasicBlock*, std::set<VP>>& in = p->livein;
    while (ch) {
        ch = false;
        for (auto it = p->rpo.rbegin(); it != p->rpo.rend(); ++it) {
            const BasicBlock* b = *it;
            std::set<VP> live;
            for (auto* s : successors(b)) {
                for (auto* v : in[s]) live.insert(v);
                for (auto& phi : s->phis()) {
                    live.erase(&phi);
                    VP v = phi.getIncomingValueForBlock(b);
                    if (isa<Instruction>(v) || isa<Argument>(v)) live.insert(v);
                }
            }
            for (auto i = b->rbegin(); i != b->rend(); ++i) {
                live.erase(&*i);
                if (!isa<PHINode>(*i)) collectUses(&*i, live);
            }
            if (live != in[b]) { in[b] = live; ch = true; }
        }
    }
    return *p;
}

std::string Engine::loc(const Instruction* i, std::string* file, int* line) {
    if (!i) return "?";
    std::string fl; int ln = 0;
    if (auto* d = i->getDebugLoc().get()) { fl = d->getFilename().str(); ln = d->getLine(); }
    else if (auto* sp = i->getFunction()->getSubprogram()) { fl = sp->getFilename().str(); ln = sp->getLine(); }
    size_t p = fl.rfind("/repo/");
    if (p != std::string::npos) fl = fl.substr(p + 6);
    if (file) *file = fl;
    if (line) *line = ln;
    size_t q = fl.rfind('/');
    return (q == std::string::npos ? fl : fl.substr(q + 1)) + ":" + std::to_string(ln);
}

void dumpState(const State& s);
void Engine::alarm(const std::string& rule, const Instruction* at, const std::string& msg, const State* s) {
    if (quiet) return;
    if (const char* d = getenv("SA_DUMP")) if (s && msg.find(d) != std::string::npos) { fprintf(stderr, "DUMP %s: %s at %s\n", rule.c_str(), msg.c_str(), loc(at).c_str()); dumpState(*s);
        std::string v; int c = 0;
        for (auto t = s->tr; t && c < 60; t = t->prev, ++c) v = (t->note.empty() ? "" : t->note + "@") + loc(t->at) + " " + v;
        fprintf(stderr, "   path %s\n", v.c_str()); }
    Alarm a; a.rule = rule; a.msg = msg; a.line = 0;
    // report at the innermost library frame
    const Instruction* p = at;
    loc(p, &a.file, &a.line);
    a.func = at ? name(at->getFunction()) : curOp;
    std::string key = rule + "|" + a.file + ":" + std::to_string(a.line) + "|" + msg;
    if (alarms.count(key)) return;
    std::string st;
    for (auto it = stack.rbegin(); it != stack.rend(); ++it) {
        if (!it->second) continue;
        st += " <- " + loc(it->second);
    }
    a.stack = "[" + curOp + "]" + st;
    if (s && s->tr) {
        std::vector<std::string> v; int c = 0;
        for (auto t = s->tr; t && c < 40; t = t->prev, ++c) v.push_back(t->note.empty() ? loc(t->at) : t->note + "@" + loc(t->at));
        std::reverse(v.begin(), v.end());
        a.stack += " via";
        for (auto& x : v) a.stack += " " + x;
    }
    alarms[key] = a;
}
void Engine::oblige(const std::string& rule, const Instruction* at, const std::string& what) {
    if (quiet) return;
    obligations[rule].insert((at ? loc(at) : curOp) + (what.empty() ? "" : " " + what));
}
void Engine::tick() {
    ++steps;
    if (maxSteps && steps > maxSteps) throw Incomplete{"step budget exhausted"};
    if (deadline && (steps & 1023) == 0 && time(nullptr) > deadline) throw Incomplete{"time budget exhausted"};
}

// ------------------------------------------------------------- numbers
static I pw(unsigned k) { return (I)1 << k; }
Lin Engine::freshInt(unsigned w, const std::string& n) {
    if (w == 1) return Lin::sym(g_sym.fresh(0, 1, n));
    if (w >= 64) return Lin::sym(g_sym.fresh(-pw(63), pw(63) - 1, n));
    return Lin::sym(g_sym.fresh(-pw(w - 1), pw(w - 1) - 1, n));
}
Val Engine::freshOf(State& s, Type* t, const std::string& n) {
    if (t->isIntegerTy()) return Val::I_(freshInt(t->getIntegerBitWidth(), n));
    if (t->isPointerTy()) { int r = newRegion(s, ROpaque, Lin(0), n); s.W(r).weak = true; return Val::P(r, 0); }
    if (auto* st = dyn_cast<StructType>(t)) {
        Val v; v.k = VAgg; v.agg = std::make_shared<std::vector<Val>>();
        for (auto* e : st->elements()) v.agg->push_back(freshOf(s, e, n));
        return v;
    }
    return Val::Opq();
}
bool Engine::range(State& s, const Lin& e0, I l, I h) {
    Lin e = s.n.simp(e0);
    if (s.n.lo(e) >= l && s.n.hi(e) <= h) return true;
    return s.n.entails(Lin(l) - e) && s.n.entails(e - Lin(h));
}
Engine::Vals Engine::split(State s, const Lin& e, I at) {
    Vals r;
    if (s.n.entails(e - Lin(at - 1)) || s.n.entails(Lin(at) - e)) { r.push_back({s, e}); return r; }
    State t = s;
    if (s.n.addLe(e - Lin(at - 1))) r.push_back({s, e});
    if (t.n.addLe(Lin(at) - e)) r.push_back({t, e});
    return r;
}
Lin Engine::memoSym(State& s, int op, const Lin& a, long b, I lo, I hi, const std::string& n, bool* isNew) {
    MemoKey k{op, s.n.simp(a), b};
    auto& m = s.memo.r();
    auto it = m.find(k);
    if (it != m.end()) { if (isNew) *isNew = false; return it->second; }
    int y = g_sym.fresh(lo, hi, n);
    g_def[y] = SymDef{op, k.a, b};
    Lin v = Lin::sym(y);
    s.memo.w()[k] = v;
    if (isNew) *isNew = true;
    return v;
}
// floor(a / d), d > 0
static Lin floorDiv(Engine& E, State& s, const Lin& a0, I d, Lin* rem) {
    Lin a = s.n.simp(a0);
    if (d == 1) { if (rem) *rem = Lin(0); return a; }
    Lin q(0), r(0);
    for (auto& p : a.t) {
        I c = p.second;
        I k = floordiv(c, d);
        I m = c - k * d;
        if (k != 0) q = addmul(q, Lin::sym(p.first), k);
        if (m != 0) r = addmul(r, Lin::sym(p.first), m);
    }
    { I k = floordiv(a.c, d); q.c += k; r.c += a.c - k * d; }
    if (E.range(s, r, 0, d - 1)) { if (rem) *rem = r; return q; }
    // only split off exactly divisible parts
    q = Lin(0); r = Lin(0);
    for (auto& p : a.t) {
        if (p.second % d == 0) q = addmul(q, Lin::sym(p.first), p.second / d);
        else r = addmul(r, Lin::sym(p.first), p.second);
    }
    { I k = floordiv(a.c, d); q.c += k; r.c += a.c - k * d; }
    if (r.t.empty()) { if (rem) *rem = r; return q; }
    bool nw;
    I l = s.n.lo(r), h = s.n.hi(r);
    Lin qs = E.memoSym(s, M_DIV, r, (long)d, l <= I_MIN ? I_MIN : floordiv(l, d), h >= I_MAX ? I_MAX : floordiv(h, d), "div", &nw);
    Lin rs = E.memoSym(s, M_REM, r, (long)d, 0, d - 1, "rem", nullptr);
    if (nw) { s.n.addEq(r - qs * d - rs); }
    if (rem) *rem = rs;
    return q + qs;
}
static I gcdOf(const Lin& e) {
    I g = e.c;
    for (auto& p : e.t) g = igcd(g, p.second);
    return iabs(g);
}

static Engine::Vals wrapTo(Engine& E, State s, const Lin& r, unsigned w, const Instruction* at, bool nsw = false) {
    Engine::Vals out;
    if (w >= 64) { out.push_back({s, r}); return out; }
    I mn = -pw(w - 1), mx = pw(w - 1) - 1;
    if (nsw) E.oblige("OVF", at);
    if (E.range(s, r, mn, mx)) { out.push_back({s, r}); return out; }
    if (nsw) {
        // signed overflow: reported once, then assumed away so that it does not cascade
        State a = s;
        bool ok = a.n.addLe(Lin(mn) - r, false) && a.n.addLe(r - Lin(mx));
        E.alarm("OVF", at, "signed integer arithmetic can overflow", &s);
        if (ok) out.push_back({a, r});
        return out;
    }
    Lin e = s.n.simp(r);
    I l = s.n.lo(e), h = s.n.hi(e);
    if (l >= mn - pw(w) && h <= mx + pw(w)) {
        State a = s, b = s, c = s;
        if (a.n.addLe(Lin(mn) - r, false) && a.n.addLe(r - Lin(mx))) out.push_back({a, r});
        if (b.n.addLe(Lin(mx + 1) - r)) out.push_back({b, r - Lin(pw(w))});
        if (c.n.addLe(r - Lin(mn - 1))) out.push_back({c, r + Lin(pw(w))});
        return out;
    }
    State a = s;
    if (a.n.addLe(Lin(mn) - r, false) && a.n.addLe(r - Lin(mx))) out.push_back({a, r});
    State b = s, c = s;
    if (b.n.addLe(Lin(mx + 1) - r)) { Lin v = E.memoSym(b, M_WRAP, r, w, mn, mx, "wrap"); out.push_back({b, v}); }
    if (c.n.addLe(r - Lin(mn - 1))) { Lin v = E.memoSym(c, M_WRAP, r, w, mn, mx, "wrap"); out.push_back({c, v}); }
    return out;
}

Engine::Vals Engine::binop(State s, const Instruction* i, unsigned op, const Val& A, const Val& B, unsigned w, bool nsw) {
    Vals out;
    auto one = [&](const Lin& l) { out.push_back({s, l}); };
    if (A.k != VInt || B.k != VInt) { one(freshInt(w, "op")); return out; }
    Lin a = s.n.simp(A.e), b = s.n.simp(B.e);
    I ca, cb;
    bool ka = s.n.constOf(a, ca), kb = s.n.constOf(b, cb);
    I full = w >= 64 ? I_MAX : pw(w);
    switch (op) {
    case Instruction::Add: return w == 1 ? (one(freshInt(1, "b")), out) : wrapTo(*this, s, a + b, w, i, nsw);
    case Instruction::Sub: return w == 1 ? (one(freshInt(1, "b")), out) : wrapTo(*this, s, a - b, w, i, nsw);
    case Instruction::Mul:
        if (ka) return wrapTo(*this, s, b * ca, w, i, nsw);
        if (kb) return wrapTo(*this, s, a * cb, w, i, nsw);
        {
            I al = s.n.lo(a), ah = s.n.hi(a), bl = s.n.lo(b), bh = s.n.hi(b);
            I mn = I_MIN, mx = I_MAX;
            I lim = pw(50);
            if (al > -lim && ah < lim && bl > -lim && bh < lim) {
                I v[] = {al * bl, al * bh, ah * bl, ah * bh};
                mn = *std::min_element(v, v + 4); mx = *std::max_element(v, v + 4);
            } else if (al >= 0 && bl >= 0) mn = 0;
            Lin k = a < b ? a : b, o = a < b ? b : a;
            Lin m = memoSym(s, M_MUL, k * pw(20) + o, 0, mn, mx, "mul");
            return wrapTo(*this, s, m, w, i, nsw);
        }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        oblige("MEM", i, "division");
        if (!s.n.entailsNe(b)) {
            alarm("MEM", i, "possible division by zero", &s);
            if (!s.n.addNe(b)) return out;
        }
        bool isDiv = op == Instruction::UDiv || op == Instruction::SDiv;
        bool exact = isDiv && cast<PossiblyExactOperator>(i)->isExact();
        if (kb && cb > 0) {
            if (exact) {
                if (gcdOf(a) % cb == 0) { Lin r; r.c = a.c / cb; for (auto& p : a.t) r.t.push_back({p.first, p.second / cb}); one(r); return out; }
                Lin rem; Lin q = floorDiv(*this, s, a, cb, &rem);
                if (!s.n.addEq(rem)) return out;
                one(q); return out;
            }
            for (auto& v : split(s, a, 0)) {
                State t = v.first;
                if (t.n.entails(-a)) {
                    Lin rem; Lin q = floorDiv(*this, t, a, cb, &rem);
                    out.push_back({t, isDiv ? q : rem});
                } else if (op == Instruction::SDiv || op == Instruction::SRem) {
                    Lin rem; Lin q = floorDiv(*this, t, -a, cb, &rem);
                    out.push_back({t, isDiv ? -q : -rem});
                } else {
                    if (w >= 64) { out.push_back({t, freshInt(w, "udiv")}); continue; }
                    Lin rem; Lin q = floorDiv(*this, t, a + Lin(full), cb, &rem);
                    out.push_back({t, isDiv ? q : rem});
                }
            }
            return out;
        }
        I al = s.n.lo(a), ah = s.n.hi(a), bl = s.n.lo(b), bh = s.n.hi(b);
        if (al >= 0 && bl >= 0) {
            int y = isDiv ? g_sym.fresh(0, ah, "div") : g_sym.fresh(0, std::min(ah, bh >= I_MAX ? I_MAX : bh - 1), "rem");
            if (!isDiv && !s.n.addLe(Lin::sym(y) - b + Lin(1))) return out;
            one(Lin::sym(y)); return out;
        }
        one(freshInt(w, "div")); return out;
    }
    case Instruction::Shl:
        if (kb) { if (cb < 0 || cb >= 64) { one(freshInt(w, "shl")); return out; } return wrapTo(*this, s, a * pw((unsigned)cb), w, i); }
        one(memoSym(s, M_MUL, a * pw(20) + b, 1, w >= 64 ? -pw(63) : -pw(w - 1), w >= 64 ? pw(63) - 1 : pw(w - 1) - 1, "shl")); return out;
    case Instruction::AShr:
        if (kb && cb >= 0 && cb < 64) { Lin q = floorDiv(*this, s, a, pw((unsigned)cb), nullptr); one(q); return out; }
        one(freshInt(w, "ashr")); return out;
    case Instruction::LShr:
        if (kb && cb >= 0 && cb < 64) {
            if (cb == 0) { one(a); return out; }
            for (auto& v : split(s, a, 0)) {
                State t = v.first;
                if (t.n.entails(-a)) { Lin q = floorDiv(*this, t, a, pw((unsigned)cb), nullptr); out.push_back({t, q}); }
                else { Lin q = floorDiv(*this, t, a + Lin(pw(w)), pw((unsigned)cb), nullptr); out.push_back({t, q}); }
            }
            return out;
        }
        { I ah = s.n.lo(a) >= 0 ? s.n.hi(a) : I_MAX;
          if (s.n.lo(a) >= 0) { one(Lin::sym(g_sym.fresh(0, ah, "lshr"))); return out; } }
        one(freshInt(w, "lshr")); return out;
    case Instruction::And: {
        if (ka && !kb) { std::swap(a, b); std::swap(ka, kb); std::swap(ca, cb); }
        if (ka && kb) { one(Lin((I)((int64_t)ca & (int64_t)cb))); return out; }
        if (w == 1) {
            if (kb) { one(cb ? a : Lin(0)); return out; }
            one(freshInt(1, "and")); return out;
        }
        if (kb) {
            uint64_t m = (uint64_t)(int64_t)cb;
            if (w < 64) m &= (((uint64_t)1 << w) - 1);
            if (m == 0) { one(Lin(0)); return out; }
            uint64_t fullm = w >= 64 ? ~(uint64_t)0 : (((uint64_t)1 << w) - 1);
            if (m == fullm) { one(a); return out; }
            unsigned tz = __builtin_ctzll(m);
            uint64_t mm = m >> tz;
            if ((mm & (mm + 1)) == 0) { // contiguous
                Lin x = floorDiv(*this, s, a, pw(tz), nullptr);
                if (m + ((uint64_t)1 << tz) == (w >= 64 ? 0 : (uint64_t)1 << w)) { one(x * pw(tz)); return out; } // high mask
                Lin rem; floorDiv(*this, s, x, (I)mm + 1, &rem);
                one(rem * pw(tz)); return out;
            }
            if (cb > 0) { one(memoSym(s, M_AND, a, (long)cb, 0, cb, "and")); return out; }
        } else if (s.n.lo(b) >= 0) { one(memoSym(s, M_AND, a * pw(20) + b, -1, 0, s.n.hi(b), "and")); return out; }
        one(memoSym(s, M_AND, a * pw(20) + b, -2, w >= 64 ? -pw(63) : -pw(w - 1), w >= 64 ? pw(63) - 1 : pw(w - 1) - 1, "and")); return out;
    }
    case Instruction::Or: {
        if (ka && kb) { one(Lin((I)((int64_t)ca | (int64_t)cb))); return out; }
        if (w == 1) {
            if (ka) { one(ca ? Lin(1) : b); return out; }
            if (kb) { one(cb ? Lin(1) : a); return out; }
            one(freshInt(1, "or")); return out;
        }
        if (ka && ca == 0) { one(b); return out; }
        if (kb && cb == 0) { one(a); return out; }
        for (int sw = 0; sw < 2; ++sw) {
            I g = gcdOf(a);
            I low = g & -g;
            if (g && s.n.lo(b) >= 0 && range(s, b, 0, low - 1)) { one(a + b); return out; }
            std::swap(a, b);
        }
        I al = s.n.lo(a), bl = s.n.lo(b), ah = s.n.hi(a), bh = s.n.hi(b);
        I mn = w >= 64 ? -pw(63) : -pw(w - 1), mx = w >= 64 ? pw(63) - 1 : pw(w - 1) - 1;
        if (al >= 0 && bl >= 0) { mn = std::max(al, bl); I m = std::max(ah, bh), t = 1; while (t <= m && t < pw(62)) t *= 2; mx = std::min(mx, t - 1); }
        one(memoSym(s, M_OR, a * pw(20) + b, 0, mn, mx, "or")); return out;
    }
    case Instruction::Xor: {
        if (ka && !kb) { std::swap(a, b); std::swap(ka, kb); std::swap(ca, cb); }
        if (ka && kb) { I r = (I)((int64_t)ca ^ (int64_t)cb); if (w == 1) r &= 1; one(Lin(r)); return out; }
        if (kb && cb == -1 && w > 1) { one(-a - Lin(1)); return out; }
        if (w == 1 && kb) { one(cb ? Lin(1) - a : a); return out; }
        one(memoSym(s, M_XOR, a * pw(20) + b, 0, w >= 64 ? -pw(63) : (w == 1 ? 0 : -pw(w - 1)), w >= 64 ? pw(63) - 1 : (w == 1 ? 1 : pw(w - 1) - 1), "xor"));
        return out;
    }
    }
    one(freshInt(w, "op"));
    return out;
}

std::vector<std::pair<bool, State>> Engine::cmp(State s, unsigned pred, const Val& A, const Val& B, unsigned w, const Instruction* at) {
    std::vector<std::pair<bool, State>> out;
    auto both = [&]() { out.push_back({true, s}); out.push_back({false, s}); };
    if (A.k == VUndef || B.k == VUndef) {
        alarm("MEM", at, "branch depends on an uninitialised value", &s);
        both(); return out;
    }
    bool isEq = pred == CmpInst::ICMP_EQ, isNe = pred == CmpInst::ICMP_NE;
    if (A.k == VFn || B.k == VFn) {
        if (A.k == VFn && B.k == VFn) { bool e = A.fn == B.fn; if (isEq || isNe) { out.push_back({isEq ? e : !e, s}); return out; } }
        if ((A.k == VFn && B.isNull()) || (B.k == VFn && A.isNull())) { out.push_back({isNe, s}); return out; }
        both(); return out;
    }
    if (w == 32 && (A.k == VPtr) != (B.k == VPtr)) {
        // a descriptor as a number
        auto fd = [&](const Val& v) { return v.k == VPtr && v.reg && s.has(v.reg) && s.R(v.reg).kind == RFile && s.n.entailsEq(v.e); };
        Val n = Val::I_(Lin::sym(g_sym.fresh(0, 0x7fffffff, "fd")));
        if (fd(A) && B.k == VInt) return cmp(s, pred, n, B, w, at);
        if (fd(B) && A.k == VInt) return cmp(s, pred, A, n, w, at);
    }
    if (A.k == VPtr || B.k == VPtr) {
        Val a = A, b = B;
        if (a.k == VInt) a = Val::P(0, a.e);
        if (b.k == VInt) b = Val::P(0, b.e);
        if (a.k != VPtr || b.k != VPtr) { both(); return out; }
        if (a.reg == b.reg) {
            Val x = Val::I_(a.e), y = Val::I_(b.e);
            // addresses inside one object: offsets compare as signed numbers
            unsigned p = pred;
            switch (pred) {
            case CmpInst::ICMP_ULT: p = CmpInst::ICMP_SLT; break;
            case CmpInst::ICMP_ULE: p = CmpInst::ICMP_SLE; break;
            case CmpInst::ICMP_UGT: p = CmpInst::ICMP_SGT; break;
            case CmpInst::ICMP_UGE: p = CmpInst::ICMP_SGE; break;
            }
            return cmp(s, p, x, y, 64, at);
        }
        auto maybe = [&](const Val& v) { return v.reg && s.has(v.reg) && s.R(v.reg).kind == ROpaque && !s.R(v.reg).gi.count("nonnull"); };
        if (isEq || isNe) {
            bool opq = maybe(a) || maybe(b);
            if (!opq) { out.push_back({isNe, s}); return out; }
            State t = s;
            const Val& o = maybe(a) ? a : b; const Val& other = maybe(a) ? b : a;
            if (other.isNull()) {
                State u = s; u.W(o.reg).gi["nonnull"] = 1;
                if (u.R(o.reg).g.count("elemAt")) {
                    const Lin d = u.R(o.reg).g.at("elemAt") - u.R(o.reg).g.at("nullAt");
                    u.W(o.reg).g.clear();
                    if (!u.n.addNe(d)) { out.push_back({isEq, s}); return out; }
                }
                out.push_back({isNe, u});
                if (s.R(o.reg).gi.count("null") || true) out.push_back({isEq, s});
                return out;
            }
            both(); return out;
        }
        both(); return out;
    }
    if (A.k != VInt || B.k != VInt) { both(); return out; }
    Lin d = s.n.simp(A.e - B.e);
    auto eqne = [&](bool eqIsTrue) {
        if (s.n.entailsEq(d)) { out.push_back({eqIsTrue, s}); return; }
        if (s.n.entailsNe(d)) { out.push_back({!eqIsTrue, s}); return; }
        State t = s;
        if (t.n.addEq(d)) out.push_back({eqIsTrue, t});
        if (s.n.addNe(d)) out.push_back({!eqIsTrue, s});
    };
    if (isEq) { eqne(true); return out; }
    if (isNe) { eqne(false); return out; }
    bool uns = CmpInst::isUnsigned((CmpInst::Predicate)pred);
    if (uns) {
        I full = w >= 64 ? pw(64) : pw(w);
        for (auto& x : split(s, A.e, 0))
            for (auto& y : split(x.first, B.e, 0)) {
                State t = y.first;
                Val a = A, b = B;
                if (!t.n.entails(-A.e)) a.e = A.e + Lin(full);
                if (!t.n.entails(-B.e)) b.e = B.e + Lin(full);
                unsigned p = CmpInst::getSignedPredicate((CmpInst::Predicate)pred);
                for (auto& z : cmp(t, p, a, b, 128, at)) out.push_back(std::move(z));
            }
        return out;
    }
    Lin lt; // condition lt <= 0 means true
    switch (pred) {
    case CmpInst::ICMP_SLT: lt = d + Lin(1); break;
    case CmpInst::ICMP_SLE: lt = d; break;
    case CmpInst::ICMP_SGT: lt = Lin(1) - d; break;
    case CmpInst::ICMP_SGE: lt = -d; break;
    }
    State t = s;
    if (t.n.addLe(lt)) out.push_back({true, std::move(t)});
    if (s.n.addLe(Lin(1) - lt)) out.push_back({false, std::move(s)});
    return out;
}

// ------------------------------------------------------------- memory
int Engine::newRegion(State& s, RK k, const Lin& size, const std::string& cls) {
    Region r; r.kind = k; r.size = size; r.cls = cls;
    return s.add(std::move(r));
}
// The length of a constant string object that is initialised from a literal, or -1.
static I constString(const GlobalVariable* g) {
    SmallVector<DIGlobalVariableExpression*, 1> di;
    g->getDebugInfo(di);
    if (di.empty()) return -1;
    auto* ty = dyn_cast_or_null<DIDerivedType>(di[0]->getVariable()->getType());
    if (!ty || ty->getTag() != dwarf::DW_TAG_const_type) return -1;
    for (auto* u : g->users()) {
        auto* c = dyn_cast<CallBase>(u);
        if (!c || c->arg_size() < 2 || c->getArgOperand(0) != g || !c->getFunction()->getName().starts_with("__cxx_global_var_init")) continue;
        auto* f = c->getCalledFunction();
        if (!f || f->getName().find("basic_string") == StringRef::npos || f->getName().find("EPKc") == StringRef::npos) continue;
        StringRef x;
        if (getConstantStringInfo(c->getArgOperand(1), x)) return (I)x.size();
    }
    return -1;
}
int Engine::regionOfGlobal(State& s, const GlobalVariable* g) {
    auto it = globalReg.find(g);
    int id;
    if (it == globalReg.end()) { id = 10 + (int)globalReg.size(); if (id >= 1000) throw Incomplete{"too many globals"}; globalReg[g] = id; }
    else id = it->second;
    if (!s.has(id)) {
        Region r; r.kind = RGlobal; r.gv = g;
        r.size = g->getValueType()->isSized() ? Lin((I)DL.getTypeAllocSize(g->getValueType()).getFixedValue()) : Lin(0);
        r.weak = true;
        const I cs = constString(g);
        if (cs >= 0) { Str x; x.len = Lin(cs); r.strs[0] = x; }
        s.mem.w()[id] = std::make_shared<Region>(std::move(r));
    }
    return id;
}
Val Engine::eval(State& s, VP v) {
    if (auto* c = dyn_cast<ConstantInt>(v)) {
        if (c->getBitWidth() == 1) return Val::I_(Lin((I)c->getZExtValue()));
        if (c->getBitWidth() <= 64) return Val::I_(Lin((I)c->getSExtValue()));
        return Val::I_(freshInt(64, "wide"));
    }
    if (isa<ConstantPointerNull>(v)) return Val::Null();
    if (isa<UndefValue>(v)) return Val();
    if (auto* f = dyn_cast<Function>(v)) return Val::F(f);
    if (auto* g = dyn_cast<GlobalVariable>(v)) return Val::P(regionOfGlobal(s, g), 0);
    if (auto* al = dyn_cast<GlobalAlias>(v)) return eval(s, al->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (ce->getOpcode() == Instruction::IntToPtr) {
            if (auto* c = dyn_cast<ConstantInt>(ce->getOperand(0))) return Val::P(0, Lin((I)c->getSExtValue()));
            return eval(s, ce->getOperand(0));
        }
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::BitCast) return eval(s, ce->getOperand(0));
        if (ce->getType()->isPointerTy()) {
            APInt off(DL.getIndexTypeSizeInBits(ce->getType()), 0);
            const Value* b = ce->stripAndAccumulateConstantOffsets(DL, off, true);
            if (b != ce) { Val x = eval(s, b); if (x.k == VPtr) { x.e.c += off.getSExtValue(); return x; } }
        }
        return freshOf(s, ce->getType(), "cexpr");
    }
    if (isa<ConstantAggregateZero>(v) || isa<ConstantStruct>(v) || isa<ConstantArray>(v)) {
        Val r; r.k = VAgg; r.agg = std::make_shared<std::vector<Val>>();
        auto* c = cast<Constant>(v);
        unsigned n = isa<StructType>(c->getType()) ? cast<StructType>(c->getType())->getNumElements() : 0;
        for (unsigned i = 0; i < n; ++i) r.agg->push_back(eval(s, c->getAggregateElement(i)));
        return r;
    }
    if (isa<ConstantFP>(v)) return Val::Opq();
    auto& e = s.fr.back().r();
    auto it = e.find(v);
    if (it == e.end()) {
        std::string t; raw_string_ostream os(t); v->print(os);
        throw Incomplete{"internal: value not available: " + t};
    }
    return it->second;
}

static const char* rkName(const Region& r) {
    switch (r.kind) {
    case RAlloca: return "local object";
    case RHeap: return "heap block";
    case RGlobal: return "global";
    case RForeign: return "caller's object";
    case RInput: return "data delivered by a read";
    case RStr: return "string contents";
    case RFile: return "handle";
    default: return "object";
    }
}
bool Engine::checkAccess(State& s, const Val& p, const Lin& width, const Instruction* at, bool write, const std::string& what) {
    oblige("MEM", at, what);
    const char* rw = write ? "write" : "read";
    if (p.k == VUndef) { alarm("MEM", at, std::string(rw) + " through an uninitialised pointer" + what, &s); return false; }
    if (p.k == VFn) return true;
    if (p.k == VOpq || p.k == VInt || p.k == VSlot || p.k == VAgg) return true;
    if (p.reg == 0) {
        I w;
        if (s.n.constOf(width, w) && w == 0) return true;
        alarm("MEM", at, std::string(rw) + " through a null pointer" + what, &s);
        return false;
    }
    if (!s.has(p.reg)) { alarm("MEM", at, std::string(rw) + " of an object that no longer exists" + what, &s); return false; }
    const Region& R = s.R(p.reg);
    if (R.kind == ROpaque || R.kind == RForeignVT) return true;
    if (!R.live) {
        alarm("MEM", at, std::string(rw) + " of " + rkName(R) + (R.kind == RInput ? " after the stream moved on (stale pointer)" : " after it was released") + what, &s);
        return false;
    }
    if (R.kind == RForeign && R.cls != "stream") return true;
    Lin lo = -p.e, hi = p.e + width - R.size;
    Lin w0 = s.n.simp(width);
    if (s.n.hi(w0) <= 0) return true;
    bool a = s.n.entails(lo), b = s.n.entails(hi);
    if (!a || !b) {
        bool triv = !w0.isConst() && s.n.entails(w0);
        if (triv) return true;
        std::string m = std::string(rw) + (a ? " past the end of " : b ? " before the start of " : " outside ") + rkName(R) + what;
        alarm("MEM", at, m, &s);
        if (verbose && !quiet) {
            fprintf(stderr, "  %s: off=%s size=%s width=%s\n", m.c_str(), s.n.simp(p.e).str().c_str(), s.n.simp(R.size).str().c_str(), w0.str().c_str());
            for (auto& e : s.n.cons.r()) fprintf(stderr, "    %s <= 0\n", e.str().c_str());
            for (auto& q : s.n.eq.r()) fprintf(stderr, "    s%d = %s\n", q.first, q.second.str().c_str());
            std::set<int> sy; for (auto& q : s.n.simp(p.e).t) sy.insert(q.first); for (auto& q : s.n.simp(R.size).t) sy.insert(q.first);
            for (int x : sy) fprintf(stderr, "    s%d (%s) in [%s,%s]\n", x, g_sym.name[x].c_str(), istr(s.n.slo(x)).c_str(), istr(s.n.shi(x)).c_str());
        }
        if (!s.n.addLe(lo, false) || !s.n.addLe(hi)) return false;
    }
    return true;
}

static bool overlaps(long a, long wa, long b, long wb) { return a < b + wb && b < a + wa; }

Val Engine::load(State& s, const Val& p, Type* t, const Instruction* at) {
    long w = (long)DL.getTypeStoreSize(t).getFixedValue();
    unsigned bits = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
    if (p.k != VPtr) return freshOf(s, t, "ld");
    const Region& R = s.R(p.reg);
    Lin off = s.n.simp(p.e);
    if (R.kind == RForeignVT) {
        I c;
        if (s.n.constOf(off, c)) { Val v; v.k = VSlot; v.reg = R.link; v.e = Lin(c / 8); return v; }
        return freshOf(s, t, "vt");
    }
    if (R.kind == RGlobal && R.gv && R.gv->isConstant() && R.gv->hasInitializer()) {
        I c;
        if (s.n.constOf(off, c)) {
            APInt ap(64, (uint64_t)(int64_t)c);
            if (Constant* k = ConstantFoldLoadFromConst(const_cast<Constant*>(R.gv->getInitializer()), t, ap, DL)) return eval(s, k);
            return freshOf(s, t, "const");
        }
        if (t->isIntegerTy()) {
            I mn = I_MAX, mx = I_MIN;
            I sz = R.size.c;
            const Constant* init = R.gv->getInitializer();
            for (I o = 0; o + w <= sz && sz <= 65536; o += w) {
                Constant* k = ConstantFoldLoadFromConst(const_cast<Constant*>(init), t, APInt(64, (uint64_t)(int64_t)o), DL);
                auto* ci = dyn_cast_or_null<ConstantInt>(k);
                if (!ci) { mn = I_MAX; mx = I_MIN; break; }
                I v = bits == 1 ? (I)ci->getZExtValue() : (I)ci->getSExtValue();
                mn = std::min(mn, v); mx = std::max(mx, v);
            }
            if (mn <= mx) return Val::I_(Lin::sym(g_sym.fresh(mn, mx, "tbl")));
        }
        return freshOf(s, t, "const");
    }
    I c;
    if (s.n.constOf(off, c)) {
        long o = (long)c;
        auto it = R.cells.find(o);
        if (it != R.cells.end() && it->second.w == w) {
            const Val& v = it->second.v;
            if (v.k == VInt && t->isPointerTy()) {
                I k;
                if (s.n.constOf(v.e, k)) return Val::P(0, Lin(k));
                return freshOf(s, t, "ptr");
            }
            return v;
        }
        // zero filled ranges
        for (auto& z : R.gi)
            if (z.first.compare(0, 2, "z@") == 0) {
                long zo = atol(z.first.c_str() + 2);
                bool clean = true;
                for (auto& q : R.cells) if (overlaps(q.first, q.second.w, o, w)) clean = false;
                if (clean && zo <= o && o + w <= zo + z.second) return t->isPointerTy() ? Val::Null() : t->isIntegerTy() ? Val::I_(0) : Val::Opq();
            }
        bool part = false;
        for (auto& q : R.cells) if (overlaps(q.first, q.second.w, o, w)) part = true;
        if (part) {
            // little-endian composition from byte cells
            return freshOf(s, t, "part");
        }
        if (R.kind == RForeign && o == 0 && t->isPointerTy()) {
            int vt = newRegion(s, RForeignVT, Lin(0), "vt");
            s.W(vt).link = p.reg;
            Val v = Val::P(vt, 0);
            s.W(p.reg).cells[0] = Cell{8, v, false};
            return v;
        }
        if (R.kind == RInput || R.kind == RStr || R.kind == ROpaque || R.kind == RForeign || R.weak) {
            std::string nm = R.kind == RInput ? "in" : "ld";
            Val v = freshOf(s, t, nm + "+" + std::to_string(o));
            s.W(p.reg).cells[o] = Cell{(int)w, v, false};
            return v;
        }
        return Val(); // uninitialised
    }
    for (auto& q : R.sym)
        if (q.second.w == w && s.n.simp(q.first) == off) return q.second.v;
    Val v = freshOf(s, t, R.kind == RInput ? "in+?" : "ld?");
    // arrays of pointers that end in a null pointer
    if (v.k == VPtr && v.reg && R.g.count("nullat")) {
        const Lin na = R.g.at("nullat");
        if (s.n.entails(off - na)) { Region& O = s.W(v.reg); O.g["elemAt"] = off; O.g["nullAt"] = na; }
        return v;
    }
    if (R.kind == RInput || R.kind == RStr) s.W(p.reg).sym.push_back({off, Cell{(int)w, v, false}});
    return v;
}

void Engine::store(State& s, const Val& p, const Val& v, int w, const Instruction* at, bool disc) {
    if (p.k != VPtr || p.reg == 0 || !s.has(p.reg)) return;
    if (s.R(p.reg).g.count("init")) wrote(s, p, Lin(w));
    Region& R = s.W(p.reg);
    Lin off = s.n.simp(p.e);
    R.sym.clear();
    if (R.g.count("nullat") && !s.n.entailsNe(off - R.g.at("nullat"))) R.g.erase("nullat");
    I c;
    if (s.n.constOf(off, c)) {
        long o = (long)c;
        for (auto it = R.cells.begin(); it != R.cells.end();) {
            if (overlaps(it->first, it->second.w, o, w)) {
                bool exact = it->first >= o && it->first + it->second.w <= o + w;
                if (!exact) R.weak = true;
                it = R.cells.erase(it);
            } else ++it;
        }
        R.cells[o] = Cell{w, v, disc};
        return;
    }
    {   // other null positions stay what they are
        bool keep = R.g.count("nullat"); Lin na; if (keep) na = R.g.at("nullat");
        havocRange(s, p, Lin(w));
        if (keep) s.W(p.reg).g["nullat"] = na;
        if (w == 8 && v.isNull() && s.R(p.reg).kind == RHeap) s.W(p.reg).g["nullat"] = off;
    }
}
void Engine::wrote(State& s, const Val& p, const Lin& len, const Lin* tag) {
    if (p.k != VPtr || p.reg == 0 || !s.has(p.reg) || !s.R(p.reg).g.count("init")) return;
    if (s.n.entails(len) && !(tag && s.n.entails(p.e))) return;
    Region& R = s.W(p.reg);
    const Lin init = R.g["init"], end = s.n.simp(p.e + len);
    const bool has = R.g.count("tag") != 0;
    if (!s.n.entails(p.e - init)) {
        if (!s.n.entails(init - p.e)) R.g.erase("tag");
        return;
    }
    const bool inside = s.n.entails(end - init);
    Lin nt; if (tag) nt = s.n.simp(*tag - p.e);
    if (tag && has && s.n.entailsEq(R.g["tag"] - nt)) { if (!inside) R.g["init"] = end; return; }
    if (tag && (s.n.entails(init) || s.n.entails(p.e))) { R.g["tag"] = nt; R.g["init"] = end; return; }
    R.g.erase("tag");
    if (!inside) R.g["init"] = end;
}
void Engine::copied(State& s, const Val& d, const Val& src, const Lin& len) {
    if (d.k != VPtr || d.reg == 0 || !s.has(d.reg) || !s.R(d.reg).g.count("init")) return;
    if (src.k == VPtr && src.reg && s.has(src.reg)) {
        const Region& S = s.R(src.reg);
        if (S.g.count("init")) {
            if (!s.n.entails(src.e + len - S.g.at("init"))) {
                // part of what is copied was never written
                Region& D = s.W(d.reg);
                const Lin init = D.g["init"];
                if (s.n.entails(init - d.e)) return;
                if (s.n.entails(d.e - init)) { D.g["init"] = s.n.simp(d.e); return; }
                Lin m = Lin::sym(g_sym.fresh(0, (I)1 << 62, "init"));
                s.n.addLe(m - init); s.n.addLe(m - d.e);
                s.W(d.reg).g["init"] = m;
                return;
            }
            if (S.g.count("tag")) { Lin t = S.g.at("tag") + src.e; wrote(s, d, len, &t); return; }
        } else if (S.kind == RInput && S.g.count("pos")) { Lin t = S.g.at("pos") + src.e; wrote(s, d, len, &t); return; }
    }
    wrote(s, d, len);
}
void Engine::havocRange(State& s, const Val& p, const Lin& len) {
    if (p.k != VPtr || p.reg == 0 || !s.has(p.reg)) return;
    Region& R = s.W(p.reg);
    R.sym.clear();
    Lin off = s.n.simp(p.e), end = s.n.simp(p.e + len);
    I l = s.n.lo(off), h = s.n.hi(end), m;
    if (s.n.maximize(end, m)) h = std::min(h, m);
    for (auto it = R.cells.begin(); it != R.cells.end();) {
        if ((I)it->first + it->second.w > l && (I)it->first < h) it = R.cells.erase(it); else ++it;
    }
    for (auto it = R.gi.begin(); it != R.gi.end();) {
        if (it->first.compare(0, 2, "z@") == 0) it = R.gi.erase(it); else ++it;
    }
    R.g.erase("nullat");
    R.weak = true;
}
void Engine::copyRange(State& s, const Val& d, const Val& src, const Lin& len, const Instruction* at) {
    I n, so, dof;
    if (d.k != VPtr || !s.has(d.reg) || d.reg == 0) return;
    copied(s, d, src, len);
    if (src.k == VPtr && s.has(src.reg) && s.n.constOf(len, n) && s.n.constOf(src.e, so) && s.n.constOf(d.e, dof) && n <= 4096) {
        std::vector<std::pair<long, Cell>> cp;
        const Region& S = s.R(src.reg);
        bool weak = S.weak;
        bool zero = false;
        if (S.kind == RGlobal && S.gv && S.gv->isConstant() && S.gv->hasInitializer()) {
            weak = true;
            if (S.gv->getInitializer()->isNullValue()) zero = true;
            if (n <= 256) for (I i = 0; i < n; ++i) {
                Constant* k = ConstantFoldLoadFromConst(const_cast<Constant*>(S.gv->getInitializer()), Type::getInt8Ty(M.getContext()), APInt(64, (uint64_t)(int64_t)(so + i)), DL);
                if (auto* ci = dyn_cast_or_null<ConstantInt>(k)) cp.push_back({(long)(dof + i), Cell{1, Val::I_(Lin((I)ci->getSExtValue())), false}});
            }
        } else {
            for (auto& q : S.cells)
                if ((I)q.first >= so && (I)q.first + q.second.w <= so + n) cp.push_back({(long)(q.first - so + dof), q.second});
        }
        bool oldweak = s.R(d.reg).weak;
        havocRange(s, d, len);
        Region& D = s.W(d.reg);
        D.weak = oldweak || weak;
        if (zero) { D.gi["z@" + std::to_string((long)dof)] = (int)n; return; }
        for (auto& q : cp) D.cells[q.first] = q.second;
        return;
    }
    havocRange(s, d, len);
}

bool Engine::freeRegion(State& s, const Val& p, int how, const Instruction* at) {
    oblige("R01", at, "release");
    if (p.isNull()) return true;
    static const char* nm[] = {"?", "operator delete", "operator delete[]", "free"};
    if (p.k == VUndef) { alarm("R01", at, "release of an uninitialised pointer", &s); return false; }
    if (p.k != VPtr) return true;
    if (p.reg == 0 || !s.has(p.reg)) { alarm("R01", at, "release of an invalid pointer", &s); return false; }
    const Region& R = s.R(p.reg);
    if (R.kind == ROpaque) return true;
    if (R.kind == RForeign) { alarm("R03", at, "an object owned by the caller is deleted", &s); return false; }
    if (R.gi.count("lent")) { alarm("R01", at, "memory lent by the caller is released", &s); return false; }
    if (R.kind != RHeap) { alarm("R01", at, std::string("release of memory that was not allocated (") + rkName(R) + ")", &s); return false; }
    if (!R.live) { alarm("R01", at, "memory is released twice", &s); return false; }
    if (!s.n.entailsEq(p.e)) { alarm("R01", at, "release of a pointer into the middle of a block", &s); return false; }
    if (R.alloc && R.alloc != how)
        alarm("R01", at, std::string("block is released with ") + nm[how] + " but was not allocated that way", &s);
    for (auto& g : R.gi)
        if (g.first.compare(0, 6, "codec@") == 0 && g.second == 1)
            alarm("R02", at, "codec state is freed without being released first", &s);
    s.W(p.reg).live = false;
    s.W(p.reg).cells.clear(); s.W(p.reg).strs.clear(); s.W(p.reg).sym.clear(); s.W(p.reg).g.clear();
    return true;
}

// ---------------------------------------------------------- execution
static bool isDiscreteGep(Engine& E, const Value* ptr) {
    auto* g = dyn_cast<GEPOperator>(ptr);
    if (!g) return false;
    auto* st = dyn_cast<StructType>(g->getSourceElementType());
    if (!st || !st->hasName()) return false;
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(E.DL, off)) return false;
    return E.discrete.count({stripStruct(st->getName()), off.getSExtValue()}) != 0;
}

Outs Engine::doInvoke(State s, const Val& cal, std::vector<Val> args, const CallBase* cb) {
    if (cal.k == VSlot) return foreignCall(std::move(s), cal.reg, (int)cal.e.c, args, cb);
    if (cal.k == VFn) {
        const Function* f = cal.fn;
        std::string n = name(f);
        Outs out;
        if (isStdName(f->getName().str())) {
            if (stdModel(f, n, s, args, cb, out)) return out;
        }
        if (f->isDeclaration() || isStdName(f->getName().str())) {
            if (model(f, n, s, args, cb, out)) return out;
            if (!quiet) opaque.insert(n);
            // unknown external: no library state is touched
            Out o; o.s = std::move(s);
            if (cb && !cb->getType()->isVoidTy()) o.v = freshOf(o.s, cb->getType(), "ext");
            if (cb) for (unsigned i = 0; i < cb->arg_size(); ++i)
                if (cb->paramHasAttr(i, Attribute::StructRet) && args[i].k == VPtr && o.s.has(args[i].reg)) {
                    Region& R = o.s.W(args[i].reg); R.cells.clear(); R.sym.clear(); R.weak = true;
                }
            out.push_back(std::move(o));
            return out;
        }
        if (contract(f, n, s, args, cb, out)) return out;
        int depth = 0;
        for (auto& k : stack) if (k.first == f) ++depth;
        if (depth > 2) { facts["recursion-cut"].insert(n); return {}; }
        if (stack.size() > 60) throw Incomplete{"call depth"};
        return call(f, std::move(s), args, cb);
    }
    if (cal.k == VUndef) { alarm("MEM", cb, "call through an uninitialised pointer", &s); return {}; }
    if (cal.isNull()) { alarm("MEM", cb, "call through a null pointer", &s); return {}; }
    Out o; o.s = std::move(s);
    if (cb && !cb->getType()->isVoidTy()) o.v = freshOf(o.s, cb->getType(), "ind");
    if (!quiet) opaque.insert("(indirect)");
    Outs r; r.push_back(std::move(o));
    return r;
}

Outs Engine::doCall(const CallBase* cb, State s) {
    Outs out;
    if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: {
            Val d = eval(s, cb->getArgOperand(0)), r = eval(s, cb->getArgOperand(1)), l = eval(s, cb->getArgOperand(2));
            Lin len = l.k == VInt ? l.e : freshInt(64, "len");
            if (!checkAccess(s, r, len, cb, false, " (copy source)")) return out;
            if (!checkAccess(s, d, len, cb, true, " (copy target)")) return out;
            copyRange(s, d, r, len, cb);
            break;
        }
        case Intrinsic::memset: {
            Val d = eval(s, cb->getArgOperand(0)), v = eval(s, cb->getArgOperand(1)), l = eval(s, cb->getArgOperand(2));
            Lin len = l.k == VInt ? l.e : freshInt(64, "len");
            if (!checkAccess(s, d, len, cb, true, " (fill)")) return out;
            havocRange(s, d, len);
            I n, o, z;
            if (d.k == VPtr && d.reg && s.n.constOf(len, n) && s.n.constOf(d.e, o) && v.k == VInt && s.n.constOf(v.e, z) && z == 0)
                s.W(d.reg).gi["z@" + std::to_string((long)o)] = (int)n;
            break;
        }
        case Intrinsic::umul_with_overflow: {
            Val a = eval(s, cb->getArgOperand(0)), b = eval(s, cb->getArgOperand(1));
            Val r; r.k = VAgg; r.agg = std::make_shared<std::vector<Val>>();
            I c;
            if (a.k == VInt && b.k == VInt && s.n.constOf(b.e, c)) r.agg->push_back(Val::I_(a.e * c));
            else if (a.k == VInt && b.k == VInt && s.n.constOf(a.e, c)) r.agg->push_back(Val::I_(b.e * c));
            else r.agg->push_back(Val::I_(freshInt(64, "umul")));
            r.agg->push_back(Val::I_(Lin(0)));
            out.push_back({std::move(s), r});
            return out;
        }
        case Intrinsic::trap:
            alarm("MEM", cb, "execution can run off the end of a function", &s);
            return out;
        default: break;
        }
        Val v;
        if (!cb->getType()->isVoidTy()) v = freshOf(s, cb->getType(), "intr");
        out.push_back({std::move(s), v});
        return out;
    }
    Val cal = eval(s, cb->getCalledOperand());
    std::vector<Val> args;
    for (auto& a : cb->args()) args.push_back(eval(s, a.get()));
    return doInvoke(std::move(s), cal, args, cb);
}

Outs Engine::call(const Function* f, State s, std::vector<Val> args, const Instruction* site) {
    if (!quiet) visitedFns.insert(f);
    stack.push_back({f, site});
    // keep only what the caller still needs
    if (site && !s.fr.empty()) {
        const BasicBlock* b = site->getParent();
        std::set<VP> live;
        for (auto* su : successors(b)) {
            for (auto* v : fi(b->getParent()).livein[su]) live.insert(v);
            for (auto& phi : su->phis()) { VP v = phi.getIncomingValueForBlock(b); live.insert(v); }
        }
        for (const Instruction* i = site->getNextNode(); i; i = i->getNextNode()) collectUses(i, live);
        auto& e = s.env();
        for (auto it = e.begin(); it != e.end();) if (!live.count(it->first)) it = e.erase(it); else ++it;
    }
    if (!sumDepth || stack.size() != sumDepth + 1 || stack[0].first->getName() != "h_next") {
        Outs o;
        try { o = body(f, std::move(s), std::move(args), site); } catch (...) { stack.pop_back(); throw; }
        stack.pop_back();
        return o;
    }
    std::string key;
    for (auto& x : stack) key += std::to_string((size_t)x.first) + "@" + std::to_string((size_t)x.second) + " ";
    gc(s, args, site, false);
    project(s, args);
    auto& v = sums[key + canon(s, args).sig];
    Sum* use = nullptr;
    for (auto& x : v) {
        std::vector<Val> e1 = args, e2 = x.args;
        if (leq(s, x.in, e1, e2)) { use = &x; break; }
    }
    if (!use && v.size() < sumRoom) {
        v.push_back(Sum{});
        use = &v.back();
        use->in = s; use->args = args;
    } else if (!use) {
        use = &v.back();
        std::vector<Val> e1 = use->args, e2 = args;
        use->in = join(use->in, s, e1, e2, widenLevel(use->n++));
        use->args = e1;
        project(use->in, use->args);
        use->done = use->said = false;
    }
    if (!use->done || (!quiet && !use->said)) { // reports come from a run that is not silent
        const State in = use->in;
        const std::vector<Val> ar = use->args;
        Outs o;
        try { o = body(f, in, ar, site); } catch (...) { stack.pop_back(); throw; }
        use->outs = std::move(o); use->done = true; use->said = !quiet;
    }
    stack.pop_back();
    return use->outs;
}

Outs Engine::body(const Function* f, State s, std::vector<Val> args, const Instruction* site) {
    (void)site;
    s.fr.push_back(Cow<Env>());
    unsigned k = 0;
    for (auto& a : f->args()) { s.env()[&a] = k < args.size() ? args[k] : Val(); ++k; }
    States init; init.push_back(std::move(s));
    ScopeRes r;
    const Val self = args.empty() ? Val() : args[0];
    auto over = [&](State& t) { // the stream itself has ended or failed
        if (self.k != VPtr || !t.has(self.reg)) return false;
        I o, st;
        if (!t.n.constOf(self.e, o)) return false;
        auto c = t.R(self.reg).cells.find((long)o + off("Strigi::StreamBaseBase", "m_status"));
        return c != t.R(self.reg).cells.end() && c->second.v.k == VInt && t.n.constOf(c->second.v.e, st) && st != 0;
    };
    const bool isSkip = f->arg_size() == 2 && f->getReturnType()->isIntegerTy(64) && name(f).find("::skip(") != std::string::npos && name(f).compare(0, 8, "Strigi::") == 0;
    const bool isRead = f->arg_size() == 4 && f->getReturnType()->isIntegerTy(32) && name(f).find("::read(") != std::string::npos && name(f).compare(0, 8, "Strigi::") == 0;
    r = runScope(f, nullptr, &f->getEntryBlock(), std::move(init));
    for (auto& o : r.rets) {
        o.s.fr.pop_back();
        o.s.gi.erase("~cut" + std::to_string(stack.size()));
        I k;
        if ((isRead || isSkip) && o.v.k == VInt && o.s.n.constOf(o.v.e, k) && (k < 0 || (isSkip && k == 0 && over(o.s)))) markDry(o.s);
    }
    if (r.rets.size() > KR) mergeOuts(r.rets, KR > 8 ? KR / 2 : 1);
    return std::move(r.rets);
}

// A read that found its source ended or failed is "dry".  dry: 1 in this round
// of the loop, 2 in the round before; outer loops wait in "dryst".
static void dryEnter(State& s) {
    auto a = s.gi.find("dry"), b = s.gi.find("dryst");
    if (a == s.gi.end() && b == s.gi.end()) return;
    const int d = a == s.gi.end() ? 0 : a->second, st = b == s.gi.end() ? 0 : b->second;
    s.gi.erase("dry"); s.gi.erase("dryst");
    if (st * 4 + d) s.gi["dryst"] = (st & 0xffffff) * 4 + d;
}
static void dryLeave(Engine& E, State& s) {
    auto a = s.gi.find("dry"), b = s.gi.find("dryst");
    if (a == s.gi.end() && b == s.gi.end()) return;
    const int d = a == s.gi.end() ? 0 : a->second, st = b == s.gi.end() ? 0 : b->second;
    const int o = (st & 3) | (d ? 1 : 0);
    s.gi.erase("dry"); s.gi.erase("dryst");
    if (o && (E.loopDepth || E.keepDry)) s.gi["dry"] = o;
    if (st >> 2) s.gi["dryst"] = st >> 2;
}
static void dryRound(Engine& E, State& s, Loop* L) {
    E.oblige("T02", L->getHeader()->getTerminator(), "loop round");
    auto a = s.gi.find("dry");
    if (a == s.gi.end()) return;
    const bool now = a->second & 1, before = a->second & 2;
    if (now && before) E.alarm("T02", L->getHeader()->getTerminator(), "the loop goes round again and again although the source it reads has ended or failed", &s);
    s.gi.erase("dry");
    if (now) s.gi["dry"] = 2;
}

Engine::ScopeRes Engine::runScope(const Function* f, Loop* L, const BasicBlock* start, States init) {
    ScopeRes res;
    FnInfo& F = fi(f);
    std::map<int, States> pend;
    pend[F.idx[start]] = std::move(init);
    bool first = true;
    auto edge = [&](const BasicBlock* to, State&& s) {
        if (L && to == start) { dryRound(*this, s, L); res.backs.push_back(std::move(s)); return; }
        if (L && !L->contains(to)) { res.exits.push_back({to, std::move(s)}); return; }
        pend[F.idx[to]].push_back(std::move(s));
    };
    while (!pend.empty()) {
        int k = pend.begin()->first;
        States v = std::move(pend.begin()->second);
        pend.erase(pend.begin());
        const BasicBlock* b = F.rpo[k];
        Loop* lb = F.li.getLoopFor(b);
        bool header = lb && lb->getHeader() == b && !(first && L && b == start) && lb != L;
        for (auto& s : v) pruneEnv(s, f, b);
        if (header) {
            for (auto& x : v) dryEnter(x);
            ++loopDepth;
            auto r = runLoop(f, lb, std::move(v));
            --loopDepth;
            for (auto& e : r.exits) dryLeave(*this, e.second);
            for (auto& o : r.rets) dryLeave(*this, o.s);
            for (auto& e : r.exits) edge(e.first, std::move(e.second));
            for (auto& o : r.rets) res.rets.push_back(std::move(o));
            first = false;
            continue;
        }
        first = false;
        if (v.size() > K) mergeStates(v, K > 8 ? K / 2 : 1);
        if (v.size() > 400) throw Incomplete{"too many states in " + name(f)};
        for (auto& s : v) {
            std::vector<std::tuple<const BasicBlock*, State>> succ;
            execBlock(f, b, std::move(s), succ, res.rets);
            for (auto& t : succ) edge(std::get<0>(t), std::move(std::get<1>(t)));
        }
    }
    return res;
}

Engine::ScopeRes Engine::runLoop(const Function* f, Loop* L, States init) {
    const BasicBlock* h = L->getHeader();
    std::map<std::string, State> inv;
    std::map<std::string, int> visits;
    std::vector<Val> none;
    auto norm = [&](State& s) { pruneEnv(s, f, h); gc(s, none, &*h->begin(), true); project(s, none); };
    ++quiet;
    States entries;
    try {
        for (auto& s : init) { norm(s); entries.push_back(s); }
        States work = entries;
        int rounds = 0;
        while (!work.empty()) {
            std::set<std::string> changed;
            for (auto& s : work) {
                std::string sig = canon(s, none).sig;
                auto it = inv.find(sig);
                if (it == inv.end()) { inv[sig] = s; visits[sig] = 0; changed.insert(sig); continue; }
                std::vector<Val> e1, e2;
                if (leq(s, it->second, e1, e2)) continue;
                int v = visits[sig];
                it->second = join(it->second, s, e1, e2, widenLevel(v));
                if (v >= 40) throw Incomplete{"loop invariant does not stabilise in " + name(f)};
                project(it->second, none);
                changed.insert(sig);
            }
            for (auto& c : changed) ++visits[c];
            work.clear();
            if (inv.size() > 120) throw Incomplete{"too many loop states in " + name(f)};
            for (auto& c : changed) {
                auto r = runScope(f, L, h, {inv[c]});
                for (auto& s : r.backs) { norm(s); work.push_back(std::move(s)); }
            }
            if (++rounds > 80) throw Incomplete{"loop analysis does not converge in " + name(f)};
        }
        // decreasing iterations
        bool widened = false;
        for (auto& v : visits) if (widenLevel(v.second)) widened = true;
        for (int it = 0; it < 2 && widened; ++it) {
            std::map<std::string, State> ni;
            auto addTo = [&](State& s) {
                std::string sig = canon(s, none).sig;
                auto q = ni.find(sig);
                if (q == ni.end()) { ni[sig] = s; return; }
                std::vector<Val> e1, e2;
                if (leq(s, q->second, e1, e2)) return;
                q->second = join(q->second, s, e1, e2, 0);
                project(q->second, none);
            };
            for (auto& s : entries) addTo(s);
            for (auto& p : inv) {
                auto r = runScope(f, L, h, {p.second});
                for (auto& s : r.backs) { norm(s); addTo(s); }
            }
            // accept only when it is itself inductive
            bool ok = true;
            for (auto& p : ni) {
                auto r = runScope(f, L, h, {p.second});
                for (auto& s : r.backs) {
                    norm(s);
                    std::string sig = canon(s, none).sig;
                    auto q = ni.find(sig);
                    std::vector<Val> e1, e2;
                    if (q == ni.end() || !leq(s, q->second, e1, e2)) { ok = false; break; }
                }
                if (!ok) break;
            }
            if (!ok) break;
            bool same = ni.size() == inv.size();
            if (same) for (auto& p : inv) {
                auto q = ni.find(p.first);
                std::vector<Val> e1, e2;
                if (q == ni.end() || !leq(p.second, q->second, e1, e2)) { same = false; break; }
            }
            inv.swap(ni);
            if (same) break;
        }
    } catch (...) { --quiet; throw; }
    --quiet;
    if (getenv("SA_LOOPS")) fprintf(stderr, "loop %s:%d entries %zu inv %zu steps %ld\n", name(f).c_str(), h->getTerminator()->getDebugLoc() ? (int)h->getTerminator()->getDebugLoc().getLine() : 0, entries.size(), inv.size(), steps);
    ScopeRes res;
    for (auto& p : inv) {
        auto r = runScope(f, L, h, {p.second});
        for (auto& e : r.exits) res.exits.push_back(std::move(e));
        for (auto& o : r.rets) res.rets.push_back(std::move(o));
    }
    return res;
}

void Engine::execBlock(const Function* f, const BasicBlock* b, State s0,
                       std::vector<std::tuple<const BasicBlock*, State>>& succ, Outs& rets) {
    struct Item { State s; const Instruction* i; };
    std::vector<Item> work;
    const Instruction* i0 = &*b->begin();
    while (isa<PHINode>(i0)) i0 = i0->getNextNode();
    work.push_back({std::move(s0), i0});
    auto go = [&](State&& s, const BasicBlock* to) {
        std::vector<std::pair<VP, Val>> as;
        for (auto& phi : to->phis()) as.push_back({&phi, eval(s, phi.getIncomingValueForBlock(b))});
        for (auto& p : as) s.env()[p.first] = p.second;
        succ.push_back({to, std::move(s)});
    };
    while (!work.empty()) {
        Item it = std::move(work.back());
        work.pop_back();
        State s = std::move(it.s);
        const Instruction* i = it.i;
        bool dead = false;
        for (; !dead; i = i->getNextNode()) {
            tick();
            auto def = [&](const Val& v) { s.env()[i] = v; };
            const Instruction* nx = i->getNextNode();
            if (i->isTerminator()) {
                if (auto* br = dyn_cast<BranchInst>(i)) {
                    if (br->isUnconditional()) { go(std::move(s), br->getSuccessor(0)); break; }
                    Val c = eval(s, br->getCondition());
                    I k;
                    if (c.k == VInt && s.n.constOf(c.e, k)) { go(std::move(s), br->getSuccessor(k ? 0 : 1)); break; }
                    if (c.k == VUndef) alarm("MEM", i, "branch depends on an uninitialised value", &s);
                    State t = s;
                    bool a = true, bb = true;
                    if (c.k == VInt) { a = s.n.addEq(c.e - Lin(1)); bb = t.n.addEq(c.e); }
                    if (a) go(std::move(s), br->getSuccessor(0));
                    if (bb) go(std::move(t), br->getSuccessor(1));
                    break;
                }
                if (auto* r = dyn_cast<ReturnInst>(i)) {
                    Out o; if (r->getReturnValue()) o.v = eval(s, r->getReturnValue());
                    o.s = std::move(s);
                    rets.push_back(std::move(o));
                    break;
                }
                if (auto* sw = dyn_cast<SwitchInst>(i)) {
                    Val c = eval(s, sw->getCondition());
                    if (c.k == VUndef) alarm("MEM", i, "switch depends on an uninitialised value", &s);
                    if (c.k != VInt) {
                        for (auto& cs : sw->cases()) go(State(s), cs.getCaseSuccessor());
                        go(std::move(s), sw->getDefaultDest());
                        break;
                    }
                    bool alive = true;
                    for (auto& cs : sw->cases()) {
                        State t = s;
                        Lin d = c.e - Lin((I)cs.getCaseValue()->getSExtValue());
                        if (t.n.addEq(d)) go(std::move(t), cs.getCaseSuccessor());
                        if (!s.n.addNe(d)) { alive = false; break; }
                    }
                    if (alive) go(std::move(s), sw->getDefaultDest());
                    break;
                }
                break; // unreachable
            }
            if (auto* al = dyn_cast<AllocaInst>(i)) {
                Type* t = al->getAllocatedType();
                Lin sz((I)DL.getTypeAllocSize(t).getFixedValue());
                if (al->isArrayAllocation()) {
                    Val n = eval(s, al->getArraySize());
                    I k;
                    if (n.k == VInt && s.n.constOf(n.e, k)) sz = sz * k;
                    else if (n.k == VInt) sz = n.e * sz.c;
                }
                int r = newRegion(s, RAlloca, sz, "");
                s.W(r).site = i;
                if (isa<ArrayType>(t) && sz.isConst() && sz.c > 64) s.W(r).buf = true;
                def(Val::P(r, 0));
                continue;
            }
            if (auto* ld = dyn_cast<LoadInst>(i)) {
                Val p = eval(s, ld->getPointerOperand());
                if (!checkAccess(s, p, Lin((I)DL.getTypeStoreSize(ld->getType()).getFixedValue()), i, false)) { dead = true; break; }
                def(load(s, p, ld->getType(), i));
                continue;
            }
            if (auto* st = dyn_cast<StoreInst>(i)) {
                Val p = eval(s, st->getPointerOperand());
                Val v = eval(s, st->getValueOperand());
                int w = (int)DL.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
                if (!checkAccess(s, p, Lin(w), i, true)) { dead = true; break; }
                store(s, p, v, w, i, isDiscreteGep(*this, st->getPointerOperand()));
                continue;
            }
            if (auto* gep = dyn_cast<GetElementPtrInst>(i)) {
                Val p = eval(s, gep->getPointerOperand());
                if (p.k == VInt) p = Val::P(0, p.e);
                if (p.k != VPtr) { def(p); continue; }
                MapVector<Value*, APInt> vars; APInt c(64, 0);
                if (!cast<GEPOperator>(gep)->collectOffset(DL, 64, vars, c)) { def(freshOf(s, gep->getType(), "gep")); continue; }
                Lin o = p.e + Lin((I)c.getSExtValue());
                bool un = false;
                for (auto& v : vars) {
                    Val x = eval(s, v.first);
                    if (x.k == VInt) o = o + x.e * (I)v.second.getSExtValue();
                    else if (x.k == VUndef) { un = true; }
                    else o = o + freshInt(64, "idx") * (I)v.second.getSExtValue();
                }
                if (un) { alarm("MEM", i, "index is an uninitialised value", &s); o = o + freshInt(64, "idx"); }
                def(Val::P(p.reg, s.n.simp(o)));
                continue;
            }
            if (auto* ic = dyn_cast<ICmpInst>(i)) {
                Val a = eval(s, ic->getOperand(0)), c = eval(s, ic->getOperand(1));
                unsigned w = ic->getOperand(0)->getType()->isIntegerTy() ? ic->getOperand(0)->getType()->getIntegerBitWidth() : 64;
                auto r = cmp(std::move(s), ic->getPredicate(), a, c, w, i);
                if (r.empty()) { dead = true; break; }
                for (size_t k = 1; k < r.size(); ++k) {
                    State t = std::move(r[k].second);
                    t.env()[i] = Val::I_(Lin(r[k].first ? 1 : 0));
                    t.tr = std::make_shared<Trace>(Trace{t.tr, i, r[k].first ? "T" : "F", 0});
                    work.push_back({std::move(t), nx});
                }
                s = std::move(r[0].second);
                if (r.size() > 1) s.tr = std::make_shared<Trace>(Trace{s.tr, i, r[0].first ? "T" : "F", 0});
                def(Val::I_(Lin(r[0].first ? 1 : 0)));
                continue;
            }
            if (auto* bo = dyn_cast<BinaryOperator>(i)) {
                Val a = eval(s, bo->getOperand(0)), c = eval(s, bo->getOperand(1));
                if (!bo->getType()->isIntegerTy()) { def(Val::Opq()); continue; }
                unsigned w = bo->getType()->getIntegerBitWidth();
                if (a.k == VUndef || c.k == VUndef) { def(Val()); continue; }
                if (a.k == VPtr || c.k == VPtr) {
                    if (bo->getOpcode() == Instruction::Sub && a.k == VPtr && c.k == VPtr && a.reg == c.reg) { def(Val::I_(s.n.simp(a.e - c.e))); continue; }
                    if (bo->getOpcode() == Instruction::Sub && a.k == VPtr && c.k == VInt) { def(Val::P(a.reg, a.e - c.e)); continue; }
                    if (bo->getOpcode() == Instruction::Add && a.k == VPtr && c.k == VInt) { def(Val::P(a.reg, a.e + c.e)); continue; }
                    if (bo->getOpcode() == Instruction::Add && c.k == VPtr && a.k == VInt) { def(Val::P(c.reg, a.e + c.e)); continue; }
                    def(Val::I_(freshInt(w, "pop"))); continue;
                }
                bool nsw = isa<OverflowingBinaryOperator>(bo) && bo->hasNoSignedWrap();
                auto r = binop(std::move(s), i, bo->getOpcode(), a, c, w, nsw);
                if (r.empty()) { dead = true; break; }
                for (size_t k = 1; k < r.size(); ++k) {
                    State t = std::move(r[k].first);
                    t.env()[i] = Val::I_(t.n.simp(r[k].second));
                    work.push_back({std::move(t), nx});
                }
                s = std::move(r[0].first);
                def(Val::I_(s.n.simp(r[0].second)));
                continue;
            }
            if (auto* ci = dyn_cast<CastInst>(i)) {
                Val a = eval(s, ci->getOperand(0));
                if (!ci->getType()->isIntegerTy() || !ci->getOperand(0)->getType()->isIntegerTy()) {
                    if (ci->getOpcode() == Instruction::IntToPtr) {
                        if (a.k == VInt) { I k; if (s.n.constOf(a.e, k)) a = Val::P(0, Lin(k)); else a = freshOf(s, ci->getType(), "i2p"); }
                        def(a); continue;
                    }
                    if (ci->getOpcode() == Instruction::PtrToInt || ci->getOpcode() == Instruction::BitCast) { def(a); continue; }
                    def(freshOf(s, ci->getType(), "cast")); continue;
                }
                if (a.k != VInt) { if (a.k == VUndef) def(Val()); else def(freshOf(s, ci->getType(), "cast")); continue; }
                unsigned sw = ci->getOperand(0)->getType()->getIntegerBitWidth(), dw = ci->getType()->getIntegerBitWidth();
                Lin e = s.n.simp(a.e);
                if (ci->getOpcode() == Instruction::SExt) {
                    if (sw == 1) def(Val::I_(-e)); else def(a);
                    continue;
                }
                if (ci->getOpcode() == Instruction::ZExt) {
                    if (sw == 1 || range(s, e, 0, I_MAX - 1)) { def(Val::I_(e)); continue; }
                    I k;
                    if (s.n.constOf(e, k)) { def(Val::I_(Lin(k + pw(sw)))); continue; }
                    if (sw <= 16) {
                        bool nw;
                        Lin u = memoSym(s, M_ZEXT, e, sw, 0, pw(sw) - 1, "u", &nw);
                        if (nw) { s.n.addLe(e - u, false); s.n.addLe(u - e - Lin(pw(sw)), false); }
                        def(Val::I_(u)); continue;
                    }
                    auto v = split(std::move(s), e, 0);
                    for (size_t q = 0; q < v.size(); ++q) {
                        bool nonneg = v[q].first.n.entails(-e);
                        Lin r = nonneg ? e : e + Lin(pw(sw));
                        v[q].first.env()[i] = Val::I_(r);
                        if (q) work.push_back({std::move(v[q].first), nx});
                    }
                    s = std::move(v[0].first);
                    continue;
                }
                if (ci->getOpcode() == Instruction::Trunc) {
                    if (dw == 1) {
                        I k;
                        if (s.n.constOf(e, k)) { def(Val::I_(Lin(k & 1))); continue; }
                        if (range(s, e, 0, 1)) { def(Val::I_(e)); continue; }
                        def(Val::I_(freshInt(1, "bit"))); continue;
                    }
                    I mn = dw >= 64 ? I_MIN : -pw(dw - 1), mx = dw >= 64 ? I_MAX : pw(dw - 1) - 1;
                    I k;
                    if (s.n.constOf(e, k)) { I m = k & (pw(dw) - 1); if (m > mx) m -= pw(dw); def(Val::I_(Lin(m))); continue; }
                    if (range(s, e, mn, mx)) { def(Val::I_(e)); continue; }
                    if (e.t.size() == 1 && e.c == 0 && e.t[0].second == 1) {
                        auto d = g_def.find(e.t[0].first);
                        if (d != g_def.end() && d->second.op == M_ZEXT && (unsigned)d->second.b == dw) { def(Val::I_(s.n.simp(d->second.a))); continue; }
                    }
                    if (dw < 32) { def(Val::I_(memoSym(s, M_TRUNC, e, dw, mn, mx, "trunc"))); continue; }
                    auto v = wrapTo(*this, std::move(s), e, dw, i);
                    if (v.empty()) { dead = true; break; }
                    // runs in which a value was cut off stay apart until the function returns
                    const std::string cut = "~cut" + std::to_string(stack.size());
                    for (size_t q = 0; q < v.size(); ++q) {
                        v[q].first.env()[i] = Val::I_(v[q].second);
                        if (q) v[q].first.gi[cut] = 1;
                        if (q) work.push_back({std::move(v[q].first), nx});
                    }
                    s = std::move(v[0].first);
                    continue;
                }
                def(freshOf(s, ci->getType(), "cast"));
                continue;
            }
            if (auto* se = dyn_cast<SelectInst>(i)) {
                Val c = eval(s, se->getCondition());
                I k;
                if (c.k == VInt && s.n.constOf(c.e, k)) { def(eval(s, k ? se->getTrueValue() : se->getFalseValue())); continue; }
                State t = s;
                bool a = true, bb = true;
                if (c.k == VInt) { a = s.n.addEq(c.e - Lin(1)); bb = t.n.addEq(c.e); }
                Val vt = eval(s, se->getTrueValue()), vf = eval(t, se->getFalseValue());
                t.env()[i] = vf;
                if (a && bb) work.push_back({std::move(t), nx});
                else if (!a) { s = std::move(t); continue; }
                def(vt);
                continue;
            }
            if (auto* ev = dyn_cast<ExtractValueInst>(i)) {
                Val a = eval(s, ev->getAggregateOperand());
                for (unsigned k : ev->indices()) {
                    if (a.k == VAgg && k < a.agg->size()) a = Val((*a.agg)[k]);
                    else { a = freshOf(s, ev->getType(), "ev"); break; }
                }
                def(a);
                continue;
            }
            if (auto* iv = dyn_cast<InsertValueInst>(i)) {
                Val a = eval(s, iv->getAggregateOperand()), x = eval(s, iv->getInsertedValueOperand());
                Val r; r.k = VAgg; r.agg = std::make_shared<std::vector<Val>>();
                auto* st = dyn_cast<StructType>(iv->getType());
                if (!st || iv->getNumIndices() != 1) { def(freshOf(s, iv->getType(), "iv")); continue; }
                if (a.k == VAgg) *r.agg = *a.agg; else r.agg->resize(st->getNumElements());
                (*r.agg)[iv->getIndices()[0]] = x;
                def(r);
                continue;
            }
            if (auto* fz = dyn_cast<FreezeInst>(i)) { def(eval(s, fz->getOperand(0))); continue; }
            if (auto* cb = dyn_cast<CallBase>(i)) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                Outs r = doCall(cb, std::move(s));
                if (r.empty()) { dead = true; break; }
                bool val = !cb->getType()->isVoidTy();
                for (size_t k = 1; k < r.size(); ++k) {
                    if (val) r[k].s.env()[i] = r[k].v;
                    work.push_back({std::move(r[k].s), nx});
                }
                s = std::move(r[0].s);
                if (val) def(r[0].v);
                continue;
            }
            if (!i->getType()->isVoidTy()) def(freshOf(s, i->getType(), "inst"));
        }
    }
}
